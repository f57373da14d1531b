H='#include "iot/iot.h"\n#include "iot/queue.h"\n#include "iot/json.h"\n#include "iot/config.h"\n#include "iot/file.h"\n#include "iot/time.h"\n#include "iot/thread.h"\n#include "iot/threadpool.h"\n#include "iot/scheduler.h"\n#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <pthread.h>\n#include <unistd.h>\n#define CHECK(c) do { if (!(c)) { printf ("FAILED %s\\n", #c); return 1; } } while (0)\n'
B=[
('queue_unlimit_no_wake','Q01','src/c/queue.c',('if (maxsize > q->maxsize || maxsize == 0)','if (maxsize > q->maxsize)'),
 'a producer blocked on a full queue whose limit is then removed (set to 0)',
 'the producer is never woken although there is room without limit',
 H+'''static iot_queue_t * q; static volatile int done;
static void * prod (void * a) { iot_queue_enqueue (q, iot_data_alloc_ui32 (2)); done = 1; return NULL; }
int main (void) {
 q = iot_queue_alloc (1);
 iot_queue_enqueue (q, iot_data_alloc_ui32 (1));
 pthread_t t; pthread_create (&t, NULL, prod, NULL);
 iot_wait_msecs (300); CHECK (!done);
 iot_queue_setmaxsize (q, 0);
 for (int i = 0; i < 100 && !done; i++) iot_wait_msecs (50);
 CHECK (done); CHECK (iot_queue_size (q) == 2); return 0; }
'''),
('pool_equal_priority_order','T01','src/c/threadpool.c',('iter->priority == IOT_THREAD_NO_PRIORITY || iter->priority < job->priority','iter->priority == IOT_THREAD_NO_PRIORITY || iter->priority <= job->priority'),
 'several jobs of the same explicit priority waiting in the queue together',
 'jobs of equal priority run in the reverse of the order they were added',
 H+'''static int seq [4], n;
static void * job (void * a) { seq[n++] = (int) (long) a; return NULL; }
int main (void) {
 iot_threadpool_t * p = iot_threadpool_alloc (1, 0, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL);
 for (long i = 0; i < 4; i++) iot_threadpool_add_work (p, job, (void*) i, 0);
 iot_threadpool_start (p); iot_threadpool_wait (p);
 CHECK (n == 4); for (int i = 0; i < 4; i++) CHECK (seq[i] == i);
 iot_threadpool_free (p); return 0; }
'''),
('component_wakes_one','K01','src/c/component.c',('IOT_RET_CHECK (pthread_cond_broadcast (&component->cond));','IOT_RET_CHECK (pthread_cond_signal (&component->cond));'),
 'several threads waiting for different states of one component',
 'only one waiter is woken, and not the one whose state was reached, which then waits for ever',
 H+'''static iot_component_t c; static volatile int done;
static void * other (void * a) { iot_component_wait (&c, IOT_COMPONENT_DELETED); return NULL; }
static void * want (void * a) { iot_component_wait (&c, IOT_COMPONENT_RUNNING); done = 1; return NULL; }
static bool nop (iot_component_t * x) { return true; }
int main (void) {
 iot_component_init (&c, NULL, (iot_component_start_fn_t) nop, (iot_component_stop_fn_t) nop);
 pthread_t t;
 for (int i = 0; i < 8; i++) { pthread_create (&t, NULL, other, NULL); iot_wait_msecs (30); }
 pthread_create (&t, NULL, want, NULL); iot_wait_msecs (200);
 iot_component_set_running (&c);
 for (int i = 0; i < 60 && !done; i++) iot_wait_msecs (50);
 CHECK (done); return 0; }
'''),
('reset_without_wake','S01','src/c/scheduler.c',('''    bool front = iot_schedule_queue_update (scheduler, schedule, next);
    if (front && (scheduler->component.state == IOT_COMPONENT_RUNNING))''','''    bool front = schedule->start < next && iot_schedule_queue_update (scheduler, schedule, next);
    if (!front && schedule->start >= next) iot_schedule_queue_update (scheduler, schedule, next);
    if (front && (scheduler->component.state == IOT_COMPONENT_RUNNING))'''),
 'a schedule reset to an earlier time while the scheduler sleeps until its old time',
 'the scheduler is not woken, so the schedule runs only at the old time',
 H+'''static volatile int ran; static void * fn (void * a) { ran++; return NULL; }
int main (void) {
 iot_scheduler_t * s = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL);
 iot_scheduler_start (s);
 iot_schedule_t * a = iot_schedule_create (s, fn, NULL, NULL, IOT_MS_TO_NS (100), IOT_SEC_TO_NS (30), 1, NULL, IOT_THREAD_NO_PRIORITY);
 iot_schedule_add (s, a); iot_wait_msecs (500);
 CHECK (!ran);
 iot_schedule_reset (s, a, 0);
 for (int i = 0; i < 100 && !ran; i++) iot_wait_msecs (50);
 CHECK (ran == 1); return 0; }
'''),
('log_chain_stops_early','L01','src/c/logger.c',('  } while ((logger = logger->next));','  } while (logger->base.level != IOT_LOG_NONE && (logger = logger->next));'),
 'a chain of loggers whose first is stopped or silent',
 'the loggers behind a silent one do not get the message',
 H+'''static int got; static void fn (iot_logger_t * l, iot_loglevel_t lv, uint64_t ts, const char * m, const void * ctx) { got++; }
int main (void) {
 iot_logger_t * b = iot_logger_alloc_custom ("b", IOT_LOG_INFO, true, NULL, fn, NULL, NULL);
 iot_logger_t * a = iot_logger_alloc_custom ("a", IOT_LOG_INFO, true, b, fn, NULL, NULL);
 iot_log__log (a, IOT_LOG_INFO, "x"); CHECK (got == 2);
 iot_logger_stop (a);
 iot_log__log (a, IOT_LOG_WARN, "x"); CHECK (got == 3);
 iot_logger_free (a); iot_logger_free (b); return 0; }
'''),
('json_unicode_g','J02','src/c/json.c',('(js[parser->pos] >= 97 && js[parser->pos] <= 102)','(js[parser->pos] >= 97 && js[parser->pos] <= 103)'),
 'a string with a unicode escape that contains the letter g',
 'a text that is not JSON is accepted',
 H+'''int main (void) {
 iot_json_parser p; iot_json_tok_t t [8]; const char * s = "[\\"\\\\u00g0\\"]";
 iot_json_init (&p); CHECK (iot_json_parse (&p, s, strlen (s), t, 8) < 0);
 s = "[\\"\\\\u00f0\\"]"; iot_json_init (&p); CHECK (iot_json_parse (&p, s, strlen (s), t, 8) == 2); return 0; }
'''),
('file_write_in_place','F01','src/c/file.c',('  strcat (tmp_path, ".new");\n',''),
 'a write to an existing file that fails half way, such as on a full disk',
 'the previous content is lost',
 H+'''#include <signal.h>
#include <sys/resource.h>
int main (void) {
 signal (SIGXFSZ, SIG_IGN);
 CHECK (iot_file_write ("f", "old content"));
 char * big = malloc (200001); memset (big, 'x', 200000); big[200000] = 0;
 struct rlimit r = { 5000, 5000 }; setrlimit (RLIMIT_FSIZE, &r);
 CHECK (!iot_file_write ("f", big));
 char * s = iot_file_read ("f"); CHECK (s && strcmp (s, "old content") == 0); return 0; }
'''),
('nsecs_repeat','M01','src/c/time.c',('if (result <= prev) result = prev + 1;','if (result < prev) result = prev + 1;'),
 'two calls within the resolution of the clock, or a clock that stands still',
 'the same timestamp is returned twice',
 H+'''int clock_gettime (clockid_t id, struct timespec * t) { t->tv_sec = 1700000000; t->tv_nsec = 5; return 0; }
int main (void) {
 uint64_t a = iot_time_nsecs (), b = iot_time_nsecs (), c = iot_time_nsecs ();
 CHECK (a < b && b < c); return 0; }
'''),
('env_name_limit','G01','src/c/config.c',('          if (len >= IOT_MAX_ENV_LEN)','          if (len > IOT_MAX_ENV_LEN)'),
 'a reference whose name is exactly one character too long',
 'the name is terminated one byte beyond its buffer and substituted instead of refused',
 H+'''int main (void) {
 char t [80] = "${"; char n [70]; memset (n, 'N', 64); n[64] = 0; setenv (n, "v", 1);
 strcat (t, n); strcat (t, "}");
 CHECK (iot_config_substitute_env (t, NULL) == NULL);
 n[63] = 0; setenv (n, "w", 1); strcpy (t, "${"); strcat (t, n); strcat (t, "}");
 char * r = iot_config_substitute_env (t, NULL); CHECK (r && strcmp (r, "w") == 0); return 0; }
''', {'cflags': '-fsanitize=address -fno-common', 'lib': 'src/c/config.c src/c/component.c src/c/container.c src/c/logger.c src/c/time.c src/c/store.c src/c/file.c src/c/os.c src/c/thread.c _build/c/libiot.a -lyaml -lpthread -ldl -lm -lrt'} if False else {}),
('uuid_short_seed','U01','src/c/uuid.c',('while (getrandom (uuid_seed, sizeof (uuid_seed), 0) != sizeof (uuid_seed))','while (getrandom (uuid_seed, sizeof (uuid_seed), 0) <= 0)'),
 'the system delivers fewer random bytes than asked for',
 'the generator starts from a state that is mostly zero',
 H+'''#include "iot/uuid.h"
static int calls; ssize_t getrandom (void * p, size_t n, unsigned f) { if (calls++ == 0) { memset (p, 1, 1); return 1; } memset (p, 0x5a, n); return (ssize_t) n; }
int main (void) { iot_uuid_t u; iot_uuid_generate (u); CHECK (calls == 2); return 0; }
'''),
]
