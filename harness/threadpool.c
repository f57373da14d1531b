/* T01: the thread pool.
 * Monitor method (see queue.c). The component functions by their contracts (proved for K01).
 * Ghost: workers are blocked un-notified for a job (Wj), on the way to look for one (Aj), running one (R,
 * which the pool must count as working) or waiting for the component to run; producers are blocked for
 * space (Wq), others for completion (Ww).
 *   Wj > 0 => no more jobs than workers on the way      Wq > 0 => the queue is full      Ww > 0 => jobs or working */
#include "vf.h"
#include "iot/os.h"
#include "iot/container.h"
#include "iot/component.h"
#include "iot/threadpool.h"
#include "iot/thread.h"
#include "iot/time.h"
#include "iot/data.h"
static int vf_lock (void); static int vf_unlock (void);
static int vf_wait (pthread_cond_t * c); static int vf_wake (pthread_cond_t * c, bool all);
static uint32_t vf_created (void); static void vf_created_add (int d);
#define pthread_mutex_lock(m) vf_lock ()
#define pthread_mutex_unlock(m) vf_unlock ()
#define pthread_cond_wait(c, m) vf_wait (c)
#define pthread_cond_signal(c) vf_wake (c, false)
#define pthread_cond_broadcast(c) vf_wake (c, true)
#define pthread_cond_init(c, a) 0
#define pthread_cond_destroy(c) 0
#define pthread_self() my_tid
#define pthread_equal(a, b) ((a) == (b))
#define prctl(a, b) 0
#define snprintf(s, n, ...) ((s)[0] = 0, 0)
#undef atomic_fetch_add
#undef atomic_fetch_sub
#undef atomic_load
#undef atomic_store
#define atomic_fetch_add(p, v) vf_id_add ((volatile void*) (p), v)
#define atomic_fetch_sub(p, v) (vf_created_add (-1), 0)
#define atomic_load(p) vf_created ()
#define atomic_store(p, v) ((void) 0)
static uint16_t vf_id_add (volatile void * p, uint32_t v);
static pthread_t my_tid;
static long live;
static void * vf_malloc (size_t n) { live++; return malloc (n); }
static int freed_pool;
static void vf_free (void * p);
static void * vf_calloc (size_t n, size_t s) { live++; return calloc (n, s); }
#define malloc(n) vf_malloc (n)
#define calloc(n, s) vf_calloc (n, s)
#define free(p) vf_free (p)
static void * g_th;
static bool monitor_ok (void); static void havoc_shared (void); static uint32_t my_running; static int runs, waits;
static bool held;
#include "src/c/threadpool.c"
#undef malloc
#undef calloc

#undef free
static iot_threadpool_t * P;
static iot_threadpool_t pool;
static void vf_free (void * p) { if (p == (void*) &pool) { freed_pool++; return; } if (p) live--; free (p); }
static iot_thread_t me;
static iot_job_t J1, J2, J3, C1;
static void leave_jobs (void);
static uint32_t Wj, Aj, R, Wq, Ww;
static uint32_t jobs_at_lock, next_at_lock; static uint16_t working_at_lock; static iot_component_state_t state_at_lock;
static iot_job_t first_at_lock; static bool cache_at_lock; static int sections; static uint32_t taken;
static bool quiet, deleted_set; static int stops, starts, finis;
typedef enum { OUTSIDE, WORKER } role_t;
static role_t role;
static void * arg_seen;
static void * job_fn (void * arg);

static bool monitor_ok (void)
{
  return P->jobs <= P->max_jobs && (Wj == 0 || P->jobs <= Aj) && (Wq == 0 || P->jobs == P->max_jobs) && (Ww == 0 || P->jobs || P->working) &&
         P->working == R && (P->front == NULL) == (P->jobs == 0) && (P->rear == NULL) == (P->jobs == 0);
}
static void havoc_shared (void)
{
  P->jobs = vf_u32 (); P->working = vf_u16 (); P->next_id = vf_u32 ();
  Wj = vf_below (1u << 20); Aj = vf_below (1u << 20); Wq = vf_below (1u << 20); Ww = vf_below (1u << 20); R = P->working;
  J1.function = job_fn; J1.arg = (void*) (uintptr_t) vf_u32 (); J1.priority = vf_i32 (); J1.id = vf_u32 ();
  J2.function = job_fn; J2.priority = vf_i32 (); J3.function = job_fn; J3.priority = vf_i32 (); J3.prev = NULL;
  /* the queue: its first job and, opaque, whatever follows */
  P->front = P->rear = NULL; J1.prev = J2.prev = NULL;
  if (P->jobs) { P->front = &J1; P->rear = &J1; }
  if (P->jobs > 1) { J1.prev = &J2; P->rear = &J2; }
  if (P->jobs > 2) { J2.prev = &J3; P->rear = &J3; }   /* the last one, of any number */
  P->cache = NULL; cache_at_lock = vf_bool ();
  if (cache_at_lock) { P->cache = &C1; C1.prev = NULL; }
  VF_ASSUME (J1.priority >= -1 && J2.priority >= -1 && J3.priority >= -1 && J1.priority >= J2.priority && J2.priority >= J3.priority);   /* -1 is no priority */
  VF_ASSUME (monitor_ok () && R >= my_running && Aj + R + Wj < 60000u);
  if (role == WORKER && !my_running) VF_ASSUME (Aj > 0);   /* this thread itself is on the way */
  if (quiet) VF_ASSUME (Wj == 0);
  jobs_at_lock = P->jobs; next_at_lock = P->next_id; working_at_lock = P->working; first_at_lock = J1;
}
static void poison (void) { P->jobs = vf_u32 (); P->working = vf_u16 (); P->front = P->rear = P->cache = (iot_job_t*) (uintptr_t) 1; }
static void check_added (void);
static int vf_lock (void)
{
  VF_ASSERT (!held, "no double lock");
  held = true; sections++; havoc_shared ();
  if (my_running)   /* the job of this worker is complete: from here on it is no longer running one */
  {
    VF_ASSERT (runs == 1, "the job taken has been run");
    R--; Aj++; my_running = 0; runs = 0;
  }
  return 0;
}
static int vf_unlock (void)
{
  VF_ASSERT (held, "only a held mutex is released");
  if (role == WORKER && jobs_at_lock && P->jobs == jobs_at_lock - 1u)   /* this worker took a job */
  {
    VF_ASSERT (state_at_lock == IOT_COMPONENT_RUNNING, "jobs are only taken while the pool runs");
    VF_ASSERT (P->front == first_at_lock.prev && (P->jobs || P->rear == NULL), "the front of the queue is taken and nothing else");
    R++; Aj--; my_running = 1; taken = (uint32_t) (uintptr_t) first_at_lock.arg; runs = 0;
  }
  else if (role == WORKER) VF_ASSERT (P->jobs == jobs_at_lock && P->front == (P->jobs ? &J1 : NULL), "nothing else happens to the queue");
  if (role == OUTSIDE) check_added ();
  VF_ASSERT (P->working == R, "the pool counts the threads that run a job");
  VF_ASSERT (monitor_ok (), "nobody is left blocked who could go on, and the queue is consistent and within its maximum");
  held = false; poison ();
  return 0;
}
static int vf_wait (pthread_cond_t * c)
{
  VF_ASSERT (held, "waiting with the mutex held");
  waits++;
  if (c == &P->job_cond)
  {
    VF_ASSERT (role == WORKER && my_running == 0 && P->jobs == 0, "a worker only waits while there is no job");
    VF_ASSERT (!deleted_set, "no worker waits for jobs of a deleted pool");
    Aj--; Wj++;
  }
  else if (c == &P->queue_cond) { VF_ASSERT (P->jobs == P->max_jobs, "a producer only waits while the queue is full"); Wq++; }
  else if (c == &P->work_cond) { VF_ASSERT (P->jobs || P->working, "nobody waits for completion that has been reached"); Ww++; }
  else VF_ASSERT (0, "a condition of the pool");
  VF_ASSERT (monitor_ok (), "nobody is left blocked who could go on");
#if !defined (MODULAR) || defined (VF_NATIVE)
  if (waits == 2) VF_STOP ();
#endif
  havoc_shared ();
  return 0;
}
static int vf_wake (pthread_cond_t * c, bool all)
{
  if (c == &P->job_cond)
  {
    if (all) { Aj += Wj; Wj = 0; if (held && state_at_lock == IOT_COMPONENT_STOPPED) quiet = true; }
    else if (Wj) { Wj--; Aj++; }
  }
  else
  {
    uint32_t * w = c == &P->queue_cond ? &Wq : &Ww;
    VF_ASSERT (c == &P->queue_cond || c == &P->work_cond, "a condition of the pool");
    if (all) *w = 0; else if (*w) (*w)--;
  }
  return 0;
}
/* the component, by its contract */
static iot_component_state_t any_state (void) { uint32_t s = vf_below (5); return s == 0 ? IOT_COMPONENT_INITIAL : (iot_component_state_t) (1u << (s - 1)); }
iot_component_state_t iot_component_lock (iot_component_t * c) { vf_lock (); return state_at_lock; }
iot_component_state_t iot_component_unlock (iot_component_t * c) { vf_unlock (); return state_at_lock; }
static int rounds;
iot_component_state_t iot_component_wait_and_lock (iot_component_t * c, uint32_t states)
{
  vf_lock ();
  VF_ASSERT (role == WORKER && my_running == 0 && states == (IOT_COMPONENT_DELETED | IOT_COMPONENT_RUNNING), "a worker that waits for the pool to run or to be deleted");
#if !defined (MODULAR) || defined (VF_NATIVE)
  if (++rounds == 3) VF_STOP ();
#endif
  state_at_lock = vf_bool () ? IOT_COMPONENT_RUNNING : IOT_COMPONENT_DELETED;
  return state_at_lock;
}
iot_component_state_t iot_component_wait (iot_component_t * c, uint32_t states) { VF_ASSERT (0, "not used"); return states; }
bool iot_component_set_running (iot_component_t * c) { VF_ASSERT (!held, "not under the lock"); starts++; state_at_lock = IOT_COMPONENT_RUNNING; return true; }
bool iot_component_set_stopped (iot_component_t * c) { VF_ASSERT (!held, "not under the lock"); stops++; state_at_lock = IOT_COMPONENT_STOPPED; return true; }
bool iot_component_set_deleted (iot_component_t * c) { VF_ASSERT (!held, "not under the lock"); VF_ASSERT (quiet && stops, "the pool is stopped and no worker is left waiting for a job when it is deleted"); deleted_set = true; leave_jobs (); return true; }
bool iot_component_set_starting (iot_component_t * c) { return true; }
static bool last_ref; static int inits;
void iot_component_add_ref (iot_component_t * c) {}
bool iot_component_dec_ref (iot_component_t * c) { return last_ref; }
void iot_component_init (iot_component_t * c, const iot_component_factory_t * f, iot_component_start_fn_t start, iot_component_stop_fn_t stop) { inits++; c->start_fn = start; c->stop_fn = stop; }
void iot_component_fini (iot_component_t * c) { finis++; }
iot_component_t * iot_container_find_component (iot_container_t * c, const char * n) { return NULL; }
static int64_t cfg [5]; static int ncfg;
const char * iot_data_string_map_get_string (const iot_data_t * m, const char * k) { return NULL; }
int64_t iot_data_string_map_get_i64 (const iot_data_t * m, const char * k, int64_t d) { return d; }
void iot_logger_add_ref (iot_logger_t * l) {}
void iot_logger_free (iot_logger_t * l) {}
int iot_thread_get_priority (pthread_t t) { return vf_i32 (); }
bool iot_thread_set_priority (pthread_t t, int p) { VF_ASSERT (!held, "not under the lock"); return vf_bool (); }
static uint32_t made, target, refuse_at; static uint32_t n_created;
bool iot_thread_create (pthread_t * tid, iot_thread_fn_t fn, void * arg, int priority, int affinity, iot_logger_t * logger)
{
  if (made == refuse_at) return false;
  iot_thread_t * th = arg;
  VF_ASSERT (fn == iot_threadpool_thread && tid == &th->tid && th->id == made && th->pool != NULL, "each thread has its own record");
  made++; *tid = (pthread_t) made;
  return true;
}
static int sleeps;
static void others_go_on (void) { if (++sleeps == 3) VF_STOP (); if (deleted_set) { if (n_created) n_created--; } else if (n_created < made) n_created++; }
void iot_wait_usecs (uint64_t u) { others_go_on (); }
void iot_wait_msecs (uint64_t u) { others_go_on (); }
void iot_log__log (iot_logger_t * l, iot_loglevel_t lv, ...) {}
static uint32_t vf_created (void) { return n_created; }
static int created_delta;
static void vf_created_add (int d) { VF_ASSERT (!held, "not under the lock"); created_delta += d; }
static uint16_t vf_id_add (volatile void * p, uint32_t v) { if (P && (volatile char*) p == (volatile char*) &P->created) vf_created_add (1); return 1; }
/* a job runs unlocked, once, with its argument */
static void * job_fn (void * arg)
{
  VF_ASSERT (!held, "a job runs without the lock");
  runs++; arg_seen = arg;
  VF_ASSERT (runs == 1 && (uint32_t) (uintptr_t) arg == taken && my_running == 1, "the job taken from the front is run once with its argument");
  return NULL;
}
static void setup (role_t r)
{
  P = &pool; role = r; held = false;
  uint32_t max = vf_u32 (); VF_ASSUME (max >= 1);
  *(uint32_t*) &pool.max_jobs = max;
  me.pool = P; me.id = vf_u16 (); g_th = &me; state_at_lock = any_state ();
  poison ();
}

/*@ LOOP t_thread src=src/c/threadpool.c fn=iot_threadpool_thread loop=1
@inv !held && my_running == 0 && (void*) th == g_th
@havoc priority = vf_i32 (); runs = 0; waits = 0;
@frame pool, comp, tid
@*/
/*@ OBL T01.worker_all class=contract inject=t_thread defs=-DMODULAR unwind=4 fns=iot_threadpool_thread
*/
/*@ OBL T01.worker class=bounded unwind=5 fns=iot_threadpool_thread bound="2 rounds of the worker; queue, counters and other threads arbitrary"
*/
void h_worker (void)
{
  setup (WORKER);
  me.pending_delete = vf_bool ();
  bool pending = me.pending_delete;
  iot_threadpool_thread (&me);
  VF_ASSERT (!held && state_at_lock == IOT_COMPONENT_DELETED && me.deleted, "a worker ends only when the pool is deleted, and says so");
  VF_ASSERT (created_delta == 0, "a worker is counted from its start to its end");
  VF_ASSERT (finis == (pending ? 1 : 0) && freed_pool == finis, "the pool is released by the worker that freed it, and by no other");
  VF_REACH ("end");
}
/*@ LOOP t_add src=src/c/threadpool.c fn=iot_threadpool_add_work loop=1
@inv held && monitor_ok ()
@havoc havoc_shared (); waits = 0;
@frame pool, func, arg, prio
@*/
/*@ LOOP t_wait src=src/c/threadpool.c fn=iot_threadpool_wait loop=1
@inv held && monitor_ok ()
@havoc havoc_shared (); waits = 0;
@frame pool
@*/
static uint32_t nodes (void) { return jobs_at_lock > 3 ? 3 : jobs_at_lock; }
static bool no_prio (int p) { return p == IOT_THREAD_NO_PRIORITY; }
static int want_pos; static int my_prio; static bool added_ok;
static iot_job_t * const old [3] = { &J1, &J2, &J3 };
static uint32_t adds; static void * add_arg;
static void check_added (void)
{
  if (P->jobs == jobs_at_lock) return;
  VF_ASSERT (P->jobs == jobs_at_lock + 1u && adds == 0, "a job is added once");
  adds++;
  uint32_t n = nodes (), k = 0;
  if (no_prio (my_prio)) k = n;
  else while (k < n && !no_prio (old[k]->priority) && old[k]->priority >= my_prio) k++;
  iot_job_t * it = P->front, * last = NULL;
  for (uint32_t i = 0; i <= n && i < 4; i++)
  {
    VF_ASSERT (it != NULL, "no job is lost");
    if (i == k) VF_ASSERT (it != &J1 && it != &J2 && it != &J3 && it->function == job_fn && it->arg == add_arg && it->priority == my_prio, "the new job stands behind those of its own or a higher priority and before the others");
    else VF_ASSERT (it == old[i < k ? i : i - 1], "the other jobs keep their order");
    last = it; it = it->prev;
  }
  VF_ASSERT (it == NULL && P->rear == last, "the queue ends at its rear");
}
/*@ OBL T01.add_all class=contract inject=t_add,t_wait defs=-DMODULAR unwind=6 fns=iot_threadpool_add_work
*/
/*@ OBL T01.add class=bounded unwind=6 fns=iot_threadpool_add_work,iot_threadpool_try_work,iot_threadpool_add_work_locked bound="up to 3 queued jobs for their order, any number for all else; one wait of the caller"
*/
void h_add (void)
{
  setup (OUTSIDE);
  my_prio = vf_i32 (); VF_ASSUME (my_prio >= -1);
  add_arg = (void*) (uintptr_t) vf_u32 ();
#ifdef MODULAR
  iot_threadpool_add_work (P, job_fn, add_arg, my_prio); bool r = true;
#else
  bool r = true;
  if (vf_bool ()) iot_threadpool_add_work (P, job_fn, add_arg, my_prio);
  else
  {
    r = iot_threadpool_try_work (P, job_fn, add_arg, my_prio);
    VF_ASSERT (waits == 0 && r == (jobs_at_lock < P->max_jobs), "a job is refused exactly when the queue is full");
  }
#endif
  VF_ASSERT (!held && adds == (r ? 1 : 0) && runs == 0, "an accepted job is queued once, a refused one not at all");
  VF_REACH ("end");
}
/*@ OBL T01.wait_all class=contract inject=t_wait,t_add defs=-DMODULAR unwind=6 fns=iot_threadpool_wait
*/
/*@ OBL T01.wait class=bounded unwind=6 fns=iot_threadpool_wait,iot_threadpool_start,iot_threadpool_stop bound="one wait of the caller"
*/
void h_wait (void)
{
  setup (OUTSIDE);
  uint32_t op = vf_below (3);
#ifdef MODULAR
  op = 0;
#endif
  if (op == 0)
  {
    iot_threadpool_wait (P);
    VF_ASSERT (jobs_at_lock == 0 && working_at_lock == 0, "waiting ends when there is no job left and none is running");
  }
  else if (op == 1) { iot_threadpool_stop (P); VF_ASSERT (stops == 1 && starts == 0 && quiet, "stopping stops the pool and then wakes its workers"); }
  else { iot_threadpool_start (P); VF_ASSERT (starts == 1 && stops == 0, "starting starts the pool"); }
  VF_ASSERT (!held && adds == 0 && runs == 0, "the queue is unchanged");
  VF_REACH ("end");
}
/*@ OBL T01.alloc class=bounded unwind=5 fns=iot_threadpool_alloc bound="up to 2 threads, of which any may fail to start; at most 2 rounds of waiting for them"
*/
void h_alloc (void)
{
  uint16_t n = (uint16_t) vf_below (3); uint32_t max = vf_u32 ();
  refuse_at = vf_below (4); VF_ASSUME (refuse_at <= 2);
  if (vf_bool ()) refuse_at = 100;
  iot_threadpool_t * p = iot_threadpool_alloc (n, max, vf_i32 (), vf_i32 (), NULL);
  VF_ASSERT (p->max_jobs == (max ? max : UINT32_MAX) && p->jobs == 0 && p->working == 0 && p->front == NULL && p->rear == NULL && p->cache == NULL, "a new pool is empty");
  VF_ASSERT (p->threads == n && made == (n < refuse_at ? n : refuse_at) && n_created == made && inits == 1, "and has its threads, all of them running");
  VF_REACH ("end");
}
static iot_job_t * some_jobs (void) { iot_job_t * j = NULL; uint32_t n = vf_below (3); for (uint32_t i = 0; i < n; i++) { iot_job_t * k = vf_malloc (sizeof (*k)); k->prev = j; j = k; } return j; }
static void leave_jobs (void) { P->cache = some_jobs (); P->front = some_jobs (); }
/*@ OBL T01.free class=bounded unwind=6 fns=iot_threadpool_free,iot_threadpool_final_free,iot_threadpool_stop bound="pools of up to 2 threads, 0 to 2 jobs left and cached, freed by one of its workers or by another thread"
*/
void h_free (void)
{
  setup (OUTSIDE);
  uint32_t n = vf_below (3), self = vf_below (3);
  pool.threads = (uint16_t) n; made = n_created = n;
  pool.thread_array = vf_calloc (2, sizeof (iot_thread_t));
  pool.thread_array[0].tid = 1; pool.thread_array[1].tid = 2; my_tid = self < n ? self + 1 : 9;
  last_ref = vf_bool ();
  iot_threadpool_free (P);
  if (last_ref)
  {
    VF_ASSERT (deleted_set && !held, "the pool is deleted");
    VF_ASSERT (n_created == (self < n ? 1 : 0), "all other workers have ended");
    for (uint32_t i = 0; i < n; i++) if (self < n) VF_ASSERT (pool.thread_array[i].pending_delete == (i == self), "the worker that freed the pool finishes the deletion");
    VF_ASSERT (freed_pool == (self < n ? 0 : 1) && live == (self < n ? 1 : 0), "everything is released, once");
  }
  else VF_ASSERT (!deleted_set && freed_pool == 0 && stops == 0, "a pool with references left goes on");
  VF_REACH ("end");
}
