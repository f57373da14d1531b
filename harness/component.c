/* K01: component life cycle.
 * Monitor method (see queue.c). Ghost: W is the number of threads blocked, not yet notified, in a wait
 * for a state of the mask M, an arbitrary fixed mask. Invariant: W > 0 => the state is not in M. */
#include "vf.h"
#include "iot/os.h"
#include "iot/container.h"
#include "iot/component.h"
#include "iot/thread.h"
static iot_component_t comp;
static int held, wakes; static uint32_t W, M, at_lock, at_unlock, sections, waits;
static bool monitor_ok (void) { return W == 0 || (comp.state & M) == 0; }
static bool valid_state (uint32_t s) { return s == 0 || s == 1 || s == 2 || s == 4 || s == 8; }
static void havoc_shared (void)
{
  uint32_t s = vf_u32 ();
  VF_ASSUME (valid_state (s));
  VF_ASSUME (at_lock != IOT_COMPONENT_DELETED || !sections || s == IOT_COMPONENT_DELETED);   /* what the other threads do is bound by the same property */
  comp.state = (iot_component_state_t) s; at_lock = s;
  W = vf_below (1000);
  VF_ASSUME (monitor_ok ());
}
static int vf_lock (pthread_mutex_t * m) { VF_ASSERT (m == &comp.mutex && !held, "the mutex of the component is taken once"); held = 1; havoc_shared (); sections++; return 0; }
static int vf_unlock (pthread_mutex_t * m)
{
  VF_ASSERT (m == &comp.mutex && held, "only a held mutex is released");
  VF_ASSERT (monitor_ok (), "nobody is left waiting for the state entered");
  held = 0; at_unlock = comp.state;
  { uint32_t s = vf_u32 (); VF_ASSUME (valid_state (s)); comp.state = (iot_component_state_t) s; }   /* no longer ours */
  return 0;
}
static uint32_t my_mask;
static int vf_wait (pthread_cond_t * c, pthread_mutex_t * m)
{
  VF_ASSERT (c == &comp.cond && m == &comp.mutex && held, "waiting on the component with its mutex held");
  VF_ASSERT ((comp.state & my_mask) == 0, "no wait for a state that is already there");
  if (my_mask == M) W++;
  VF_ASSERT (monitor_ok (), "nobody is left waiting for the state entered");
  waits++;
#if !defined (MODULAR) || defined (VF_NATIVE)
  if (waits == 3) VF_STOP ();
#endif
  havoc_shared ();
  return 0;
}
/* a signal may go to a thread that waits for something else */
static int vf_signal (pthread_cond_t * c) { VF_ASSERT (c == &comp.cond, "the condition of the component"); if (W && vf_bool ()) W--; return 0; }
static int vf_broadcast (pthread_cond_t * c) { VF_ASSERT (c == &comp.cond, "the condition of the component"); W = 0; wakes++; return 0; }
#define pthread_mutex_lock(m) vf_lock (m)
#define pthread_mutex_unlock(m) vf_unlock (m)
#define pthread_cond_wait(c, m) vf_wait (c, m)
#define pthread_cond_signal(c) vf_signal (c)
#define pthread_cond_broadcast(c) vf_broadcast (c)
#define pthread_mutex_init(m, a) 0
#define pthread_mutex_destroy(m) (destroyed_m++, 0)
#define pthread_cond_init(c, a) 0
#define pthread_cond_destroy(c) (destroyed_c++, 0)
static int destroyed_m, destroyed_c;
/* reference count: other holders add and release at any moment in between, but only references they hold;
 * seen from here the count is any value that contains this caller's own reference as long as it has it */
static uint32_t mine, before_sub; static int subs;
static void interfere (void)
{
  uint32_t n = vf_u32 ();
  VF_ASSUME (n >= mine && n < (1u << 30));
  if (mine == 0 && atomic_load (&comp.refs) == 0) return;   /* nobody has a reference any more */
  atomic_store (&comp.refs, n);
}
static uint32_t vf_sub (iot_component_t * c, uint32_t v)
{
  VF_ASSERT (mine == 1 && subs == 0, "one reference is released, once");
  interfere ();
  before_sub = atomic_load (&comp.refs);
  atomic_store (&comp.refs, before_sub - v); mine -= v; subs++;
  interfere ();
  return before_sub;
}
static uint32_t vf_add (iot_component_t * c, uint32_t v)
{
  interfere ();
  uint32_t old = atomic_load (&comp.refs);
  atomic_store (&comp.refs, old + v); mine += v;
  interfere ();
  return old;
}
static uint32_t vf_load (void) { interfere (); return comp.refs; }
#undef atomic_fetch_sub
#undef atomic_fetch_add
#undef atomic_load
#define atomic_fetch_sub(p, v) vf_sub (&comp, v)
#define atomic_fetch_add(p, v) vf_add (&comp, v)
#define atomic_load(p) vf_load ()
void iot_mutex_init (pthread_mutex_t * m) {}
const iot_container_config_t * iot_container_get_config (void) { return NULL; }
static const char * state_name_seen;
static uint64_t some [4];
iot_data_t * iot_data_alloc_map (iot_data_type_t t) { return (iot_data_t*) &some[0]; }
iot_data_t * iot_data_alloc_string (const char * s, iot_data_ownership_t o) { VF_ASSERT (held, "the component is read under its lock"); if (s == state_name_seen) {} state_name_seen = (s && (s[0] == 'I' || s[0] == 'S' || s[0] == 'R' || s[0] == 'D' || s[0] == 'U')) ? s : state_name_seen; return (iot_data_t*) &some[1]; }
void iot_data_map_add (iot_data_t * m, iot_data_t * k, iot_data_t * v) {}
iot_data_t * iot_data_add_ref (const iot_data_t * d) { return (iot_data_t*) d; }
iot_data_consts_t iot_data_consts;
#include "src/c/component.c"

static void start (iot_component_t * c) {}
static void stop (iot_component_t * c) {}
static void fresh (void)
{
  held = 0; sections = waits = 0; M = vf_u32 (); comp.state = IOT_COMPONENT_INITIAL;
  { uint32_t s = vf_u32 (); VF_ASSUME (valid_state (s)); comp.state = (iot_component_state_t) s; }
}
/*@ OBL K01.set class=proved unwind=3 fns=iot_component_set_state,iot_component_set_running,iot_component_set_stopped,iot_component_set_deleted,iot_component_set_starting
*/
void h_set (void)
{
  fresh ();
  uint32_t op = vf_below (4), to = op == 0 ? IOT_COMPONENT_RUNNING : op == 1 ? IOT_COMPONENT_STOPPED : op == 2 ? IOT_COMPONENT_DELETED : IOT_COMPONENT_STARTING;
  bool r = op == 0 ? iot_component_set_running (&comp) : op == 1 ? iot_component_set_stopped (&comp) : op == 2 ? iot_component_set_deleted (&comp) : iot_component_set_starting (&comp);
  bool allowed = op == 2 ? at_lock != IOT_COMPONENT_RUNNING : at_lock != IOT_COMPONENT_DELETED;
  VF_ASSERT (!held && sections == 1 && waits == 0, "one lock section, no wait");
  VF_ASSERT (at_unlock == (allowed ? to : at_lock), "only the documented transitions: deleted is final, a running component is not deleted");
  VF_ASSERT (r == (at_unlock != at_lock), "true exactly when the state changed");
  VF_REACH ("end");
}
/*@ LOOP k_wait src=src/c/component.c fn=iot_component_wait_and_lock loop=1
@inv component == &comp && held && monitor_ok () && states == my_mask
@havoc havoc_shared ();
@*/
/*@ OBL K01.wait_all class=contract inject=k_wait defs=-DMODULAR unwind=3 fns=iot_component_wait,iot_component_wait_and_lock,iot_component_lock,iot_component_unlock
*/
/*@ OBL K01.wait class=bounded unwind=5 fns=iot_component_wait,iot_component_wait_and_lock,iot_component_lock,iot_component_unlock bound="at most 2 waits of the thread itself; state and other threads arbitrary"
*/
void h_wait (void)
{
  fresh ();
  uint32_t op = vf_below (3); my_mask = vf_u32 ();
  if (op == 0)
  {
    uint32_t s = iot_component_wait (&comp, my_mask);
    VF_ASSERT ((s & my_mask) != 0 && s == at_lock && s == at_unlock && !held, "a wait returns with a requested state, which the component had");
  }
  else if (op == 1)
  {
    uint32_t s = iot_component_wait_and_lock (&comp, my_mask);
    VF_ASSERT ((s & my_mask) != 0 && s == comp.state && held, "the requested state still holds, and the lock is kept");
    VF_ASSERT (iot_component_unlock (&comp) == s && !held, "the state left in is reported");
  }
  else
  {
    uint32_t s = iot_component_lock (&comp);
    VF_ASSERT (s == comp.state && held && waits == 0, "the lock is kept with the state reported");
    iot_component_unlock (&comp);
    VF_ASSERT (!held && at_unlock == s, "unlocking changes nothing");
  }
  VF_REACH ("end");
}
/*@ OBL K01.refs class=proved unwind=3 fns=iot_component_init,iot_component_add_ref,iot_component_dec_ref
*/
void h_refs (void)
{
  iot_component_init (&comp, NULL, start, stop);
  VF_ASSERT (comp.refs == 1 && comp.start_fn == start && comp.stop_fn == stop && comp.state == IOT_COMPONENT_INITIAL, "a new component has one reference");
  mine = 1; subs = 0;
  if (vf_bool ()) { iot_component_add_ref (&comp); VF_ASSERT (mine == 2 && subs == 0, "one reference more"); }
  else
  {
    bool last = iot_component_dec_ref (&comp);
    VF_ASSERT (mine == 0 && subs == 1, "one reference less");
    VF_ASSERT (last == (before_sub == 1), "told of the last reference exactly when this was it, whatever the others do meanwhile");
  }
  VF_REACH ("end");
}
/*@ OBL K01.read class=proved unwind=30 fns=iot_component_read,iot_component_state_name,iot_component_fini
*/
void h_read (void)
{
  static iot_component_factory_t f = { .type = "type", .category = "category" };
  fresh ();
  comp.factory = &f; comp.name = malloc (1); comp.name[0] = 0;
  iot_component_read (&comp);
  VF_ASSERT (!held && sections == 1 && at_unlock == at_lock, "one lock section, nothing changed");
  const char * want = at_lock == 0 ? "Initial" : at_lock == 1 ? "Stopped" : at_lock == 2 ? "Running" : at_lock == 4 ? "Deleted" : "Starting";
  VF_ASSERT (state_name_seen && strcmp (state_name_seen, want) == 0, "the state reported is that of the moment of reading");
  VF_REACH ("end");
}
