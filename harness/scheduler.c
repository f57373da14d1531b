/* S01: the scheduler.
 * Monitor method (see queue.c): 3 schedules in any state that satisfies the invariant, other threads may
 * do anything allowed to them while the lock is free, the clock only goes forward. The maps by their
 * contract (D07), component, thread pool and thread functions by theirs (K01, T01). */
#include "vf.h"
#include "iot/os.h"
#include "iot/data.h"
#include "iot/container.h"
#include "iot/component.h"
#include "iot/scheduler.h"
#include "iot/thread.h"
#include "iot/time.h"
static int vf_lock (void); static int vf_unlock (void);
static int vf_timedwait (pthread_cond_t * c, const struct timespec * t); static int vf_wake (pthread_cond_t * c);
#define pthread_mutex_lock(m) vf_lock ()
#define pthread_mutex_unlock(m) vf_unlock ()
#define pthread_cond_timedwait(c, m, t) vf_timedwait (c, t)
#define pthread_cond_wait(c, m) vf_timedwait (c, NULL)
#define pthread_cond_signal(c) vf_wake (c)      /* the scheduler thread may not be the one signalled */
#define pthread_cond_broadcast(c) vf_broadcast (c)
static int vf_broadcast (pthread_cond_t * c);
static void vf_free (void * p);
#define free(p) vf_free (p)
static void * g_sch; static bool held;
static bool thread_loop_ok (void); static bool freeing (void);
#undef atomic_fetch_add
#undef atomic_fetch_sub
#define atomic_fetch_add(p, v) vf_fetch_add ((volatile uint64_t*) (p), v)
#define atomic_fetch_sub(p, v) vf_fetch_sub ((volatile uint64_t*) (p), v)
static uint64_t vf_fetch_add (volatile uint64_t * p, uint64_t v);
static uint64_t vf_fetch_sub (volatile uint64_t * p, uint64_t v);
#include "src/c/scheduler.c"
#undef free
#define NS 3
typedef enum { QUEUE, IDLE, GONE } where_t;
static iot_schedule_t * S [NS];
static where_t where [NS];          /* ghost: in the queue, in the idle map, or deleted by its user */
static bool freed [NS];
static uint64_t key_start [NS], key_id [NS]; static bool in_queue [NS], in_idle [NS];   /* the maps */
static iot_scheduler_t * SCH;
static uint64_t maps [2];
#define QMAP ((iot_data_t*) &maps[0])
#define IMAP ((iot_data_t*) &maps[1])
static uint64_t now, section_start; static bool blocked; static uint64_t blocked_until;
static uint64_t start0 [NS], repeat0 [NS]; static where_t where0 [NS]; static int64_t refs0 [NS];
static uint32_t mine [NS];          /* references the thread under consideration holds (a job handed on takes its own along) */
static int threads, f0; static bool is_thread; static int sections, rounds, waits, ran [NS], took; static bool due0 [NS];
static iot_component_state_t cstate; static bool free_phase;
static uint64_t tick (void) { uint64_t n = vf_u64 (); VF_ASSUME (n >= now && n < (1ull << 33)); now = n; return n; }
uint64_t iot_time_nsecs (void) { return tick (); }
static int which_start (const void * p) { for (int i = 0; i < NS; i++) if (p == (const void*) &S[i]->start_key) return i; return -1; }
static int which_id (const void * p) { for (int i = 0; i < NS; i++) if (p == (const void*) &S[i]->id_key) return i; return -1; }
static int which_self (const void * p) { for (int i = 0; i < NS; i++) if (p == (const void*) &S[i]->self_static) return i; return -1; }
static int which (const void * p) { for (int i = 0; i < NS; i++) if (p == (const void*) S[i]) return i; return -1; }
static iot_schedule_t * fresh;
iot_data_t * iot_data_alloc_const_ui64 (iot_data_static_t * d, uint64_t v)
{
  int i = which_start (d), j = which_id (d);
  if (i < 0 && j < 0) return (iot_data_t*) d;   /* a schedule being created */
  VF_ASSERT (held, "schedules change under the lock");
  if (i >= 0) { VF_ASSERT (!in_queue[i], "the due time of a queued schedule is not changed in place"); key_start[i] = v; }
  else key_id[j] = v;
  return (iot_data_t*) d;
}
iot_data_t * iot_data_alloc_const_pointer (iot_data_static_t * d, const void * v) { return (iot_data_t*) d; }
static int front (void) { int f = -1; for (int i = 0; i < NS; i++) if (in_queue[i] && (f < 0 || key_start[i] < key_start[f])) f = i; return f; }
const void * iot_data_map_start_pointer (iot_data_t * m) { VF_ASSERT ((held || free_phase) && m == QMAP, "the queue is read under the lock"); int f = front (); return f < 0 ? NULL : S[f]; }
const iot_data_t * iot_data_map_get (const iot_data_t * m, const iot_data_t * key)
{
  VF_ASSERT (held, "the maps are read under the lock");
  if (m == QMAP) { int k = which_start (key); VF_ASSERT (k >= 0, "the queue is keyed by due time"); for (int i = 0; i < NS; i++) if (in_queue[i] && key_start[i] == key_start[k]) return (const iot_data_t*) &S[i]->self_static; }
  else { int k = which_id (key); if (k >= 0 && in_idle[k]) return (const iot_data_t*) &S[k]->self_static; }
  return NULL;
}
static int created_idle;
void iot_data_map_add (iot_data_t * m, iot_data_t * key, iot_data_t * val)
{
  int v = which_self (val);
  VF_ASSERT (held, "the maps change under the lock");
  if (v < 0) { VF_ASSERT (m == IMAP, "a new schedule is idle"); created_idle++; return; }
  if (m == QMAP)
  {
    VF_ASSERT (which_start (key) == v && !in_queue[v], "a schedule is queued once, by its due time");
    for (int i = 0; i < NS; i++) VF_ASSERT (!in_queue[i] || key_start[i] != key_start[v], "due times are distinct");
    in_queue[v] = true;
  }
  else { VF_ASSERT (m == IMAP && which_id (key) == v && !in_idle[v], "a schedule is idle once, by its id"); in_idle[v] = true; }
}
bool iot_data_map_remove (iot_data_t * m, const iot_data_t * key)
{
  VF_ASSERT (held || freeing (), "the maps change under the lock");
  if (m == QMAP)
  {
    int k = which_start (key); VF_ASSERT (k >= 0, "the queue is keyed by due time");
    for (int i = 0; i < NS; i++) if (in_queue[i] && key_start[i] == key_start[k]) { VF_ASSERT (i == k, "no other schedule is removed"); in_queue[i] = false; return true; }
    return false;
  }
  int k = which_id (key); VF_ASSERT (k >= 0, "the idle map is keyed by id");
  bool was = in_idle[k]; in_idle[k] = false;
  return was;
}
static bool deleting;
static bool live_ok (int i)
{
  if (where[i] == GONE) return !in_queue[i] && !in_idle[i];
  return in_queue[i] == (where[i] == QUEUE) && in_idle[i] == (where[i] == IDLE) && S[i]->scheduled == (where[i] == QUEUE) && S[i]->start == key_start[i] && S[i]->refs >= 1;
}
static bool monitor_ok (void)
{
  for (int i = 0; i < NS; i++) if (!live_ok (i)) return false;
  for (int i = 0; i < NS; i++) for (int j = 0; j < i; j++) if (in_queue[i] && in_queue[j] && key_start[i] == key_start[j]) return false;
  int f = front ();
  if (blocked && cstate == IOT_COMPONENT_RUNNING && f >= 0 && blocked_until > key_start[f]) return false;
  return true;
}
static void obs (void)
{
  section_start = now; f0 = front ();
  for (int i = 0; i < NS; i++) { where0[i] = where[i]; if (!freed[i]) { start0[i] = S[i]->start; repeat0[i] = S[i]->repeat; refs0[i] = S[i]->refs; } }
}
/* what other threads may have done: any schedule added, removed, reset; deleted if it belongs to them; runs begun and ended */
static void havoc_shared (void)
{
  for (int i = 0; i < NS; i++)
  {
    if (freed[i]) continue;
    uint32_t w = vf_below (3); int64_t r = (int64_t) vf_below (6);
    if (where[i] == GONE || (i == 0 && !is_thread)) { if (where[i] == GONE) w = GONE; else VF_ASSUME (w != GONE); }   /* schedule 0 belongs to the caller under consideration */
    if (w == GONE && where[i] != GONE && !mine[i]) { where[i] = GONE; in_queue[i] = in_idle[i] = false; freed[i] = true; free (S[i]); continue; }
    where[i] = (where_t) w; in_queue[i] = w == QUEUE; in_idle[i] = w == IDLE;
    VF_ASSUME (r >= (int64_t) mine[i] + (w == GONE ? 0 : 1));
    S[i]->refs = r; S[i]->scheduled = w == QUEUE;
    uint64_t st = vf_u64 (); VF_ASSUME (st < (1ull << 33)); S[i]->start = st; key_start[i] = st;
    S[i]->repeat = vf_u64 (); S[i]->dropped = vf_u64 ();
  }
  if (!is_thread) { blocked = vf_bool (); blocked_until = vf_u64 (); }
  tick ();
  VF_ASSUME (monitor_ok ());
  obs ();
}
static int vf_lock (void) { VF_ASSERT (!held, "no double lock"); held = true; sections++; havoc_shared (); return 0; }
static void thread_step (void);
static void user_step (void);
static int vf_unlock (void)
{
  VF_ASSERT (held, "only a held mutex is released");
  if (is_thread) thread_step (); else user_step ();
  VF_ASSERT (monitor_ok (), "every schedule is in exactly one of the sets, by distinct due times, and the scheduler does not sleep past the earliest");
  held = false;
  return 0;
}
static int vf_timedwait (pthread_cond_t * c, const struct timespec * t)
{
  VF_ASSERT (is_thread && held && c == &SCH->component.cond && t, "the scheduler waits with its mutex held, for a limited time");
  VF_ASSERT (t->tv_nsec >= 0 && t->tv_nsec < 1000000000 && t->tv_sec >= 0, "a proper time");
  uint64_t until = (uint64_t) t->tv_sec * 1000000000u + (uint64_t) t->tv_nsec;
  int f = front ();
  VF_ASSERT (f < 0 || until <= key_start[f], "the scheduler never sleeps past the earliest due time");
  VF_ASSERT (took == 0, "nothing taken is left unfinished");
  havoc_shared ();
  uint32_t s = vf_below (4);
  SCH->component.state = cstate = s == 0 ? IOT_COMPONENT_STOPPED : s == 1 ? IOT_COMPONENT_DELETED : IOT_COMPONENT_RUNNING;
  return 0;
}
static int vf_broadcast (pthread_cond_t * c) { VF_ASSERT (c == &SCH->component.cond, "the condition of the scheduler"); blocked = false; return 0; }
static int vf_wake (pthread_cond_t * c) { if (vf_bool ()) blocked = false; return 0; }
static void vf_free (void * p)
{
  int i = which (p);
  if (i >= 0) { VF_ASSERT (where[i] == GONE && !freed[i], "a schedule is released once, after it was deleted"); freed[i] = true; }
  free (p);
}
iot_component_state_t iot_component_lock (iot_component_t * c) { vf_lock (); return cstate; }
iot_component_state_t iot_component_unlock (iot_component_t * c) { iot_component_state_t s = cstate; vf_unlock (); return s; }
iot_component_state_t iot_component_wait_and_lock (iot_component_t * c, uint32_t states)
{
  VF_ASSERT (is_thread && states == (IOT_COMPONENT_DELETED | IOT_COMPONENT_RUNNING), "the scheduler thread waits to run or to end");
#if !defined (MODULAR) || defined (VF_NATIVE)
  if (++rounds == 2) VF_STOP ();
#endif
  vf_lock ();
  SCH->component.state = cstate = vf_bool () ? IOT_COMPONENT_RUNNING : IOT_COMPONENT_DELETED;
  return cstate;
}
void iot_component_init (iot_component_t * c, const iot_component_factory_t * f, iot_component_start_fn_t a, iot_component_stop_fn_t b) {}
static int order [4]; static uint32_t norder; static bool last_ref;
void iot_component_fini (iot_component_t * c) { order[norder++ & 3] = 3; }
void iot_component_add_ref (iot_component_t * c) {}
bool iot_component_dec_ref (iot_component_t * c) { return last_ref; }
bool iot_component_set_running (iot_component_t * c) { return true; }
bool iot_component_set_stopped (iot_component_t * c) { order[norder++ & 3] = 1; return true; }
bool iot_component_set_deleted (iot_component_t * c) { order[norder++ & 3] = 2; return true; }
iot_component_t * iot_container_find_component (iot_container_t * c, const char * n) { return NULL; }
const char * iot_data_string_map_get_string (const iot_data_t * m, const char * k) { return NULL; }
int64_t iot_data_string_map_get_i64 (const iot_data_t * m, const char * k, int64_t d) { return d; }
void iot_logger_add_ref (iot_logger_t * l) {}
void iot_logger_free (iot_logger_t * l) {}
void iot_log__log (iot_logger_t * l, iot_loglevel_t lv, ...) {}
void iot_wait_usecs (uint64_t u) {}
void iot_wait_msecs (uint64_t u) {}
iot_data_t * iot_data_alloc_map (iot_data_type_t t) { return QMAP; }
/* one pass over a map while it is being emptied */
static bool freeing (void) { return free_phase; }
static int at_i = -1; static const iot_data_t * at_map;
void iot_data_map_iter (const iot_data_t * m, iot_data_map_iter_t * it) { at_i = -1; at_map = m; }
bool iot_data_map_iter_next (iot_data_map_iter_t * it) { for (int i = at_i + 1; i < NS; i++) if (at_map == QMAP ? in_queue[i] : in_idle[i]) { at_i = i; return true; } at_i = -1; return false; }
const iot_data_t * iot_data_map_iter_key (const iot_data_map_iter_t * it) { return at_map == QMAP ? (const iot_data_t*) &S[at_i]->start_key : (const iot_data_t*) &S[at_i]->id_key; }
const void * iot_data_map_iter_pointer_value (const iot_data_map_iter_t * it) { int i = at_i; where[i] = GONE; return S[i]; }
static int map_frees;
void iot_data_free (iot_data_t * d) { for (int i = 0; i < NS; i++) VF_ASSERT (d == QMAP ? !in_queue[i] : !in_idle[i], "a map is emptied before it is released"); map_frees++; }
static int pool_frees; static uint64_t a_pool;
void iot_threadpool_free (iot_threadpool_t * p) { pool_frees++; }
void iot_threadpool_add_ref (iot_threadpool_t * p) {}
static void * job (void * arg)
{
  uint32_t i = (uint32_t) (uintptr_t) arg;
  VF_ASSERT (i < NS, "the function runs with its argument"); ran[i]++;
  return NULL;
}
static bool accepted;
static void start_run (int i)
{
  VF_ASSERT (i >= 0 && mine[i] == 1 && took == i + 1, "what is run is the schedule taken, with a reference of its own");
}
/* handed on: runs at any later moment, at once included */
static bool hand_on (iot_thread_fn_t fn, void * arg)
{
  int i = which (arg);
  start_run (i);
  if (vf_bool ()) return false;
  mine[i] = 0; accepted = true;
  if (vf_bool ()) fn (arg); else ran[i]++;
  return true;
}
bool iot_threadpool_try_work (iot_threadpool_t * p, void * (*fn) (void*), void * arg, int prio) { VF_ASSERT (p == (iot_threadpool_t*) &a_pool && prio == S[which (arg)]->priority, "the pool and priority of the schedule"); return hand_on (fn, arg); }
bool iot_thread_create (pthread_t * tid, iot_thread_fn_t fn, void * arg, int prio, int aff, iot_logger_t * l) { if (which (arg) < 0) { threads++; return true; } return hand_on (fn, arg); }
static void * callback (void * arg)
{
  VF_ASSERT (!held, "callbacks run without the lock");
  return NULL;
}
static void free_cb (void * arg) {}
/* make the three schedules */
static void setup (bool th)
{
  static iot_scheduler_t sch; SCH = &sch; g_sch = SCH; is_thread = th; held = false;
  sch.queue = QMAP; sch.idle = IMAP;
  uint32_t s = vf_below (3); sch.component.state = cstate = s == 0 ? IOT_COMPONENT_STOPPED : s == 1 ? IOT_COMPONENT_RUNNING : IOT_COMPONENT_INITIAL;
  now = vf_u64 (); VF_ASSUME (now < (1ull << 32));
  for (int i = 0; i < NS; i++)
  {
    S[i] = malloc (sizeof (iot_schedule_t));
    S[i]->function = job; S[i]->arg = (void*) (uintptr_t) i;
    S[i]->run_cb = vf_bool () ? callback : NULL; S[i]->abort_cb = vf_bool () ? callback : NULL; S[i]->free_cb = vf_bool () ? free_cb : NULL;
    S[i]->threadpool = vf_bool () ? (iot_threadpool_t*) &a_pool : NULL; S[i]->priority = i;
    S[i]->period = vf_u64 (); VF_ASSUME (S[i]->period < (1ull << 32));
    S[i]->concurrent = vf_bool (); S[i]->sync = vf_bool (); if (S[i]->sync) VF_ASSUME (!S[i]->concurrent);
    S[i]->id = key_id[i] = (uint64_t) i; where[i] = IDLE; in_idle[i] = true; S[i]->scheduled = false; S[i]->refs = 1; S[i]->start = key_start[i] = 0;
  }
}

static uint64_t vf_fetch_add (volatile uint64_t * p, uint64_t v)
{
  for (int i = 0; i < NS; i++) if (!freed[i] && (volatile void*) p == (volatile void*) &S[i]->refs)
  {
    VF_ASSERT (is_thread && held && took == 0 && v == 1, "the scheduler takes one schedule at a time");
    VF_ASSERT (cstate == IOT_COMPONENT_RUNNING && front () == i && S[i]->start < now, "a schedule is taken when it is the first, is due, and the scheduler runs");
    VF_ASSERT (S[i]->concurrent || S[i]->refs == 1, "a schedule that is still running is only run again if it is concurrent");
    took = i + 1; mine[i]++; ran[i] = 0; accepted = false;
  }
  uint64_t o = *p; *p = o + v;
  return o;
}
static uint64_t vf_fetch_sub (volatile uint64_t * p, uint64_t v)
{
  for (int i = 0; i < NS; i++) if (!freed[i] && (volatile void*) p == (volatile void*) &S[i]->refs && mine[i]) mine[i] -= (uint32_t) v;
  uint64_t o = *p; *p = o - v;
  return o;
}
static bool same (int i) { return where[i] == where0[i] && (where[i] == QUEUE ? in_queue[i] : !in_queue[i]) && (where[i] == IDLE ? in_idle[i] : !in_idle[i]) && (freed[i] || where[i] == GONE || (S[i]->start == start0[i] && S[i]->repeat == repeat0[i])); }
/* where the maps say a schedule is now */
static void settle (int i) { if (where[i] != GONE) where[i] = in_queue[i] ? QUEUE : IDLE; }
static void thread_step (void)
{
  int i = took ? took - 1 : f0;
  for (int k = 0; k < NS; k++) if (k != i) VF_ASSERT (same (k), "no other schedule is touched");
  if (cstate != IOT_COMPONENT_RUNNING) { VF_ASSERT (took == 0 && (i < 0 || same (i)), "a scheduler that does not run changes nothing"); return; }
  if (i < 0 || mine[i]) return;   /* nothing queued, or a callback in between */
  if (took == 0 && start0[i] >= section_start && same (i)) return;   /* may not have been due yet */
  if (took == 0) VF_ASSERT (start0[i] < now && refs0[i] > 1 && !S[i]->concurrent, "a schedule that is due is run, unless it is still running");
  if (took) VF_ASSERT (ran[i] == (accepted ? 1 : ran[i]) && ran[i] <= 1, "a run taken is run once");
  if (took && where0[i] != QUEUE) VF_ASSERT (same (i), "a schedule removed or deleted meanwhile is left alone");
  else
  {
    bool last = repeat0[i] == 1;
    VF_ASSERT (S[i]->repeat == (repeat0[i] ? repeat0[i] - 1 : 0), "one repetition less");
    settle (i);
    VF_ASSERT (where[i] == (last ? IDLE : QUEUE), "after the last repetition it is idle, before it is queued again");
    if (!last) VF_ASSERT (S[i]->start >= section_start + S[i]->period && S[i]->start <= now + S[i]->period + (NS - 1), "next due one period after this run");
  }
  took = 0;
}
static void user_step (void) { if (deleting) where[0] = GONE; for (int i = 0; i < NS; i++) settle (i); }
static bool thread_loop_ok (void) { return !held && took == 0 && mine[0] == 0 && mine[1] == 0 && mine[2] == 0; }
/*@ LOOP s_thread src=src/c/scheduler.c fn=iot_scheduler_thread loop=1
@inv thread_loop_ok () && (void*) scheduler == g_sch
@havoc havoc_shared ();
@*/
/*@ OBL S01.thread_all class=bounded inject=s_thread defs=-DMODULAR unwind=5 flags="--object-bits 14" timeout=400 cost=20 fns=iot_scheduler_thread bound="3 schedules; any number of rounds of the scheduler thread, from any state"
*/
/*@ OBL S01.thread class=bounded unwind=5 flags="--object-bits 14" timeout=400 cost=20 fns=iot_scheduler_thread bound="3 schedules; one round of the scheduler thread"
*/
void h_thread (void)
{
  setup (true);
  iot_scheduler_thread (SCH);
  VF_ASSERT (!held && cstate == IOT_COMPONENT_DELETED, "the scheduler thread ends when the scheduler is deleted");
  VF_REACH ("end");
}
/*@ OBL S01.user class=bounded unwind=5 split=4 flags="--object-bits 14" timeout=400 cost=10 fns=iot_schedule_add,iot_schedule_remove,iot_schedule_reset,iot_schedule_delete,iot_schedule_queue_add,iot_schedule_queue_remove,iot_schedule_queue_update,iot_schedule_idle_add,iot_schedule_idle_remove bound="3 schedules in any state"
*/
void h_user (void)
{
  uint32_t op = PART % 4u;
  setup (false);
  if (op == 0)
  {
    bool r = iot_schedule_add (SCH, S[0]);
    VF_ASSERT (r == (where0[0] == IDLE) && where[0] == QUEUE, "an idle schedule becomes active, an active one stays so");
    VF_ASSERT (S[0]->start >= start0[0] && S[0]->start <= start0[0] + (r ? NS - 1 : 0), "its due time is kept, but for making it distinct");
  }
  else if (op == 1)
  {
    bool r = iot_schedule_remove (SCH, S[0]);
    VF_ASSERT (r == (where0[0] == QUEUE) && where[0] == IDLE && S[0]->start == start0[0], "an active schedule becomes idle, an idle one stays so");
  }
  else if (op == 2)
  {
    uint64_t d = vf_u64 (); VF_ASSUME (d < (1ull << 32));
    iot_schedule_reset (SCH, S[0], d);
    VF_ASSERT (where[0] == where0[0] && S[0]->start >= section_start + S[0]->period + d && S[0]->start <= now + S[0]->period + d + (where[0] == QUEUE ? NS - 1 : 0), "due again after one period and the delay");
  }
  else
  {
    deleting = true;
    iot_schedule_delete (SCH, S[0]);
    VF_ASSERT (!in_queue[0] && !in_idle[0] && freed[0] == (refs0[0] == 1), "gone, and released unless it is running");
    VF_ASSERT (freed[0] || S[0]->refs == refs0[0] - 1, "one reference less");
  }
  VF_ASSERT (!held && sections == 1, "one lock section");
  if (op != 3) VF_ASSERT (S[0]->repeat == repeat0[0] && S[0]->refs == refs0[0], "nothing else of it changes");
  for (int i = 1; i < NS; i++) VF_ASSERT (same (i), "no other schedule is touched");
  VF_REACH ("end");
}
/*@ OBL S01.create class=proved unwind=5 flags="--object-bits 14" fns=iot_schedule_create,iot_schedule_set_sync,iot_schedule_set_concurrent,iot_schedule_id,iot_schedule_dropped,iot_schedule_add_run_callback,iot_schedule_add_abort_callback
*/
void h_create (void)
{
  setup (false);
  uint64_t period = vf_u64 (), delay = vf_u64 (), repeat = vf_u64 (), t0 = now; VF_ASSUME (delay < (1ull << 62));
  iot_schedule_t * s = iot_schedule_create (SCH, job, free_cb, (void*) (uintptr_t) 2, period, delay, repeat, NULL, 7);
  VF_ASSERT (!held && created_idle == 1, "a new schedule is idle");
  VF_ASSERT (s->period == period && s->repeat == repeat && s->start >= t0 + delay && s->start <= now + delay && !s->scheduled && s->refs == 1 && s->priority == 7 && s->function == job && s->free_cb == free_cb, "and is as asked for");
  bool c = vf_bool (), y = vf_bool ();
  if (vf_bool ()) { iot_schedule_set_concurrent (s, c); bool r = iot_schedule_set_sync (s, y); VF_ASSERT (r == !(c && y), "refused exactly in conflict"); }
  else { iot_schedule_set_sync (s, y); iot_schedule_set_concurrent (s, c); }
  VF_ASSERT (!(s->sync && s->concurrent), "never both synchronous and concurrent");
  iot_schedule_add_run_callback (SCH, S[0], callback); iot_schedule_add_abort_callback (SCH, S[0], callback);
  VF_ASSERT (S[0]->run_cb == callback && S[0]->abort_cb == callback && !held, "callbacks are set");
  VF_REACH ("end");
}
/*@ OBL S01.free class=bounded unwind=8 flags="--object-bits 14" timeout=400 fns=iot_scheduler_free,iot_scheduler_free_schedules,iot_schedule_free bound="3 schedules, each active, idle or gone"
*/
void h_free (void)
{
  static uint64_t dummy;
  setup (false);
  is_thread = false;
  held = true; havoc_shared (); held = false;
  for (int i = 0; i < NS; i++) if (!freed[i]) { VF_ASSUME (where[i] != GONE); S[i]->refs = 1; }
  free_phase = true; last_ref = vf_bool ();
  bool was_gone[NS]; for (int i = 0; i < NS; i++) was_gone[i] = freed[i];
  iot_scheduler_t * sch = malloc (sizeof (*sch)); sch->queue = QMAP; sch->idle = IMAP; sch->logger = NULL; SCH = sch;
  iot_scheduler_free (sch);
  if (last_ref)
  {
    VF_ASSERT (order[0] == 1 && order[1] == 2 && order[2] == 3 && norder == 3 && map_frees == 2, "stopped, deleted, then released");
    for (int i = 0; i < NS; i++) VF_ASSERT (freed[i], "every schedule is released");
  }
  else { VF_ASSERT (norder == 0 && map_frees == 0, "a scheduler with references left goes on"); free (sch); }
  VF_REACH ("end");
}
