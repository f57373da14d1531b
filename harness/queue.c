/* Q01: the blocking queue.
 * Monitor method: whenever the mutex is taken (or a wait returns) the shared state is any state that
 * satisfies the monitor invariant; whenever it is given up (or a wait begins) the invariant must hold.
 * Ghost state counts the threads blocked on each condition (W) and those notified but not yet running (N).
 *   consumers: somebody blocked un-notified  =>  the queue runs and there are no more elements than notified consumers
 *   producers: somebody blocked un-notified  =>  the queue runs, is limited, and there are no more free places than notified producers
 * so a waiter can only stay blocked while there is nothing for it to do. */
#include "vf.h"
#include "iot/data.h"
static int vf_lock (pthread_mutex_t * m);
static int vf_unlock (pthread_mutex_t * m);
static int vf_wait (pthread_cond_t * c, pthread_mutex_t * m);
static int vf_wake (pthread_cond_t * c, bool all);
#define pthread_mutex_lock(m) vf_lock (m)
#define pthread_mutex_unlock(m) vf_unlock (m)
#define pthread_cond_wait(c, m) vf_wait (c, m)
#define pthread_cond_signal(c) vf_wake (c, false)
#define pthread_cond_broadcast(c) vf_wake (c, true)
#define pthread_mutex_init(m, a) 0
#define pthread_mutex_destroy(m) 0
#define pthread_cond_init(c, a) 0
#define pthread_cond_destroy(c) 0
/* the list of elements, by the contracts of the list functions (proved for D05) */
static int held;
static uint64_t slots [8];
void iot_data_list_empty (iot_data_t * l) { VF_ASSERT (held, "elements are only touched under the lock"); VF_ASSERT (0, "a queue is never emptied behind its users"); }
#define ELEM(i) ((iot_data_t*) &slots[i])
#ifdef SEQ
static iot_data_t * dq [8]; static uint32_t lo, hi;   /* sequential histories: the elements themselves */
#define LEN() (hi - lo)
static iot_data_t * g_pop (bool head) { VF_ASSERT (held, "elements are only touched under the lock"); if (hi == lo) return NULL; return head ? dq[lo++] : dq[--hi]; }
static void g_push (bool head, iot_data_t * d)
{
  VF_ASSERT (held, "elements are only touched under the lock");
  if (head) dq[--lo] = d; else dq[hi++] = d;
}
#else
static uint32_t g_len; static int nops; static iot_data_t * popped, * pushed;
static struct iot_queue_t * g_q; static void full_check (void);
#define LEN() g_len
static iot_data_t * g_pop (bool head)
{
  VF_ASSERT (held && nops == 0, "an element is taken once, under the lock");
  if (g_len == 0) return NULL;
  g_len--; nops++;
  popped = ELEM (vf_bool () ? 1 : 2);
  return popped;
}
static void g_push (bool head, iot_data_t * d)
{
  VF_ASSERT (held && nops == 0, "an element is added once, under the lock");
  full_check ();
  g_len++; nops++; pushed = d;
}
#endif
iot_data_t * iot_data_alloc_list (void) { return ELEM (7); }
void iot_data_free (iot_data_t * d) {}
uint32_t iot_data_list_length (const iot_data_t * l) { VF_ASSERT (held, "elements are only touched under the lock"); return LEN (); }
iot_data_t * iot_data_list_tail_pop (iot_data_t * l) { return g_pop (false); }
iot_data_t * iot_data_list_head_pop (iot_data_t * l) { return g_pop (true); }
void iot_data_list_head_push (iot_data_t * l, iot_data_t * d) { g_push (true, d); }
void iot_data_list_tail_push (iot_data_t * l, iot_data_t * d) { g_push (false, d); }
#ifndef SEQ
static uint32_t W_in, N_in, W_out, N_out;   /* producers and consumers blocked / notified */
static bool final_running; static uint32_t final_max;
static uint32_t waits, unlocks, max_at_lock, len_at_lock; static bool run_at_lock;
static bool in_dequeue (iot_data_t * result);
static bool in_enqueue (void);
static void havoc_shared (void);
#endif
#include "src/c/queue.c"

#ifdef SEQ
static int vf_lock (pthread_mutex_t * m) { VF_ASSERT (!held, "no double lock"); held = 1; return 0; }
static int vf_unlock (pthread_mutex_t * m) { VF_ASSERT (held, "unlock of a held mutex"); held = 0; return 0; }
static int vf_wait (pthread_cond_t * c, pthread_mutex_t * m) { VF_ASSERT (0, "a single thread never blocks while there is something to take, room, or after a stop"); VF_STOP (); return 0; }
static int vf_wake (pthread_cond_t * c, bool all) { return 0; }
/*@ OBL Q01.fifo class=bounded defs=-DSEQ unwind=9 split=8 cost=5 fns=iot_queue_alloc,iot_queue_enqueue,iot_queue_try_enqueue,iot_queue_dequeue,iot_queue_try_dequeue,iot_queue_setmaxsize,iot_queue_stop,iot_queue_size,iot_queue_maxsize bound="every history of 6 operations by one thread"
*/
void h_fifo (void)
{
  for (uint32_t first = 0; first < 8; first++)
  {
    if (!VF_MINE (first)) continue;
    lo = hi = 4; held = 0;   /* room on both sides */
    lo = hi = 4;
    iot_data_t * model [6]; uint32_t in = 0, out = 0, max = vf_below (4); bool running = true;
    iot_queue_t * q = iot_queue_alloc (max);
    for (int step = 0; step < 6; step++)
    {
      uint32_t op = step == 0 ? first : vf_below (8);
      uint32_t len = in - out; bool room = max == 0 || len < max;
      if (op <= 1 && in < 3)
      {
        iot_data_t * e = ELEM (in);
        if (op == 0) { bool r = iot_queue_try_enqueue (q, e); VF_ASSERT (r == room, "an element is refused exactly when the queue is full"); if (r) model[in++] = e; }
        else if (room) { iot_queue_enqueue (q, e); model[in++] = e; }
        else if (!running) iot_queue_enqueue (q, e);   /* full and stopped: returns */
      }
      else if (op == 2) { iot_data_t * e = iot_queue_try_dequeue (q); VF_ASSERT (e == (len ? model[out] : NULL), "elements leave in the order they entered"); if (len) out++; }
      else if (op == 3) { if (len || !running) { iot_data_t * e = iot_queue_dequeue (q); VF_ASSERT (e == (len ? model[out] : NULL), "elements leave in the order they entered"); if (len) out++; } }
      else if (op == 4) { max = vf_below (4); iot_queue_setmaxsize (q, max); }
      else if (op == 5) { iot_queue_stop (q); running = false; }
      VF_ASSERT (iot_queue_size (q) == in - out && iot_queue_maxsize (q) == max, "size and maximum are reported");
      VF_ASSERT (!held, "no function keeps the lock");
    }
    iot_queue_free (q);
  }
  VF_REACH ("end");
}
#else
static uint32_t places (uint32_t max, uint32_t len) { return max > len ? max - len : 0; }
static bool monitor_ok (uint32_t len)
{
  return (W_out == 0 || (g_q->running && len <= N_out)) &&
         (W_in == 0 || (g_q->running && g_q->maxsize != 0 && places (g_q->maxsize, len) <= N_in));
}
static void full_check (void) { VF_ASSERT (g_q->maxsize == 0 || g_len < g_q->maxsize, "an element is only added below the maximum"); }
static void havoc_shared (void)
{
  g_len = vf_u32 (); g_q->maxsize = vf_u32 (); g_q->running = vf_bool ();
  W_in = vf_u32 (); N_in = vf_u32 (); W_out = vf_u32 (); N_out = vf_u32 ();
  VF_ASSUME (W_in < (1u << 24) && N_in < (1u << 24) && W_out < (1u << 24) && N_out < (1u << 24) && g_len < (1u << 31));
  VF_ASSUME (monitor_ok (g_len));
  max_at_lock = g_q->maxsize; len_at_lock = g_len; run_at_lock = g_q->running;
}
static void poison (void) { g_q->maxsize = vf_u32 (); g_q->running = vf_bool (); }
/* the state inside the loops: a thread that has just been notified is no longer counted in N */
static bool in_dequeue (iot_data_t * result)
{
  uint32_t all = g_len + (uint32_t) nops;
  return held && nops == (result ? 1 : 0) && (!result || popped == result) && (result || g_len == 0) &&
         (W_out == 0 || (g_q->running && g_len <= N_out)) && (W_in == 0 || (g_q->running && g_q->maxsize != 0 && places (g_q->maxsize, all) <= N_in)) &&
         len_at_lock == all && run_at_lock == g_q->running && g_len < (1u << 31);
}
static bool in_enqueue (void)
{
  return held && nops == 0 && len_at_lock == g_len && run_at_lock == g_q->running && max_at_lock == g_q->maxsize && g_len < (1u << 31) &&
         (W_out == 0 || (g_q->running && g_len <= N_out)) && (W_in == 0 || (g_q->running && g_q->maxsize != 0 && places (g_q->maxsize, g_len) <= N_in + 1u));
}
static int vf_lock (pthread_mutex_t * m)
{
  VF_ASSERT (m == &g_q->mtx && !held, "the mutex of the queue is taken once");
  held = 1; havoc_shared ();
  return 0;
}
static int vf_unlock (pthread_mutex_t * m)
{
  VF_ASSERT (m == &g_q->mtx && held, "only a held mutex is released");
  VF_ASSERT (monitor_ok (g_len), "nobody is left blocked who could go on");
  held = 0; unlocks++; final_running = g_q->running; final_max = g_q->maxsize;
  poison ();
  return 0;
}
static int vf_wait (pthread_cond_t * c, pthread_mutex_t * m)
{
  VF_ASSERT (m == &g_q->mtx && held && nops == 0, "waiting with the mutex held, before taking or adding");
  VF_ASSERT (c == &g_q->added || c == &g_q->removed, "a condition of the queue");
  VF_ASSERT (g_q->running, "nothing blocks once the queue is stopped");
  bool out = (c == &g_q->added);
  if (out) { VF_ASSERT (g_len == 0, "a consumer waits only while the queue is empty"); W_out++; }
  else { VF_ASSERT (g_q->maxsize != 0 && g_len >= g_q->maxsize, "a producer waits only while the queue is full"); W_in++; }
  VF_ASSERT (monitor_ok (g_len), "nobody is left blocked who could go on");
  waits++;
#if !defined (MODULAR) || defined (VF_NATIVE)
  if (waits == 3) VF_STOP ();
#endif
  havoc_shared ();
  /* this thread returns: notified, or for no reason */
  if (vf_bool ()) { if (out) { VF_ASSUME (N_out > 0); N_out--; } else { VF_ASSUME (N_in > 0); N_in--; } }
  else { if (out) { VF_ASSUME (W_out > 0); W_out--; } else { VF_ASSUME (W_in > 0); W_in--; } }
  return 0;
}
static int vf_wake (pthread_cond_t * c, bool all)
{
  VF_ASSERT (c == &g_q->added || c == &g_q->removed, "a condition of the queue");
  uint32_t * w = c == &g_q->added ? &W_out : &W_in, * n = c == &g_q->added ? &N_out : &N_in;
  if (all) { *n += *w; *w = 0; }
  else if (*w) { (*w)--; (*n)++; }
  return 0;
}
static void setup (void)
{
  static iot_queue_t q; g_q = &q; q.queue = ELEM (7); held = 0; nops = 0; poison ();
}
/*@ LOOP q_deq src=src/c/queue.c fn=iot_queue_dequeue loop=1
@inv q == g_q && in_dequeue (result)
@havoc nops = 0; havoc_shared (); if (N_out > 0 && vf_bool ()) N_out--; result = g_pop (false);
@*/
/*@ LOOP q_enq src=src/c/queue.c fn=iot_queue_enqueue loop=1
@inv q == g_q && in_enqueue ()
@havoc nops = 0; havoc_shared (); if (N_in > 0 && vf_bool ()) N_in--;
@frame element
@*/
/*@ OBL Q01.deq_all class=contract inject=q_deq,q_enq defs=-DMODULAR unwind=3 fns=iot_queue_dequeue
*/
/*@ OBL Q01.deq class=bounded unwind=5 fns=iot_queue_dequeue bound="at most 2 waits of the thread itself; state of the queue and of all other threads arbitrary"
*/
void h_deq (void)
{
  setup ();
  iot_data_t * r = iot_queue_dequeue (g_q);
  VF_ASSERT (!held && nops == (r ? 1 : 0) && (!r || r == popped), "the element taken is the one returned, and nothing else is taken");
  VF_ASSERT (r || (!run_at_lock && len_at_lock == 0), "nothing is returned only by an empty, stopped queue");
  VF_REACH ("end");
}
/*@ OBL Q01.enq_all class=contract inject=q_deq,q_enq defs=-DMODULAR unwind=3 fns=iot_queue_enqueue
*/
/*@ OBL Q01.enq class=bounded unwind=5 fns=iot_queue_enqueue bound="at most 2 waits of the thread itself; state of the queue and of all other threads arbitrary"
*/
void h_enq (void)
{
  setup ();
  iot_queue_enqueue (g_q, ELEM (3));
  VF_ASSERT (!held && (nops == 0 || pushed == ELEM (3)), "the element is added once");
  VF_ASSERT (nops == 1 || (!run_at_lock && max_at_lock && len_at_lock >= max_at_lock), "an element is dropped only by a full, stopped queue");
  VF_REACH ("end");
}
/*@ OBL Q01.try class=proved unwind=3 fns=iot_queue_try_enqueue,iot_queue_try_dequeue
*/
void h_try (void)
{
  setup ();
  if (vf_bool ())
  {
    bool r = iot_queue_try_enqueue (g_q, ELEM (3));
    VF_ASSERT (!held && nops == (r ? 1 : 0) && (!r || pushed == ELEM (3)) && unlocks == 1 && waits == 0, "the element is added once, without waiting");
    VF_ASSERT (r == (max_at_lock == 0 || len_at_lock < max_at_lock), "refused exactly when full");
  }
  else
  {
    iot_data_t * r = iot_queue_try_dequeue (g_q);
    VF_ASSERT (!held && nops == (r ? 1 : 0) && (!r || r == popped) && unlocks == 1 && waits == 0, "an element is taken once, without waiting");
    VF_ASSERT ((r != NULL) == (len_at_lock != 0), "nothing exactly when empty");
  }
  VF_REACH ("end");
}
/*@ OBL Q01.admin class=proved unwind=3 fns=iot_queue_stop,iot_queue_setmaxsize,iot_queue_size,iot_queue_maxsize
*/
void h_admin (void)
{
  setup ();
  uint32_t op = vf_below (4), m = vf_u32 ();
  if (op == 0) iot_queue_stop (g_q);
  else if (op == 1) iot_queue_setmaxsize (g_q, m);
  else if (op == 2) { uint32_t r = iot_queue_size (g_q); VF_ASSERT (r == len_at_lock, "the size is that of one moment"); }
  else { uint32_t r = iot_queue_maxsize (g_q); VF_ASSERT (r == max_at_lock, "the maximum is that of one moment"); }
  VF_ASSERT (!held && unlocks == 1 && nops == 0, "one lock section");
  if (op == 0) VF_ASSERT (!final_running && W_in == 0 && W_out == 0, "a stop wakes everybody");
  else VF_ASSERT (final_running == run_at_lock, "only stop stops");
  VF_ASSERT (final_max == (op == 1 ? m : max_at_lock), "only setmaxsize sets the maximum");
  VF_REACH ("end");
}
#endif
