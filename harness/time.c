/* M01: time and wait functions. The system clock returns anything; other threads move the last timestamp forward at any moment. */
#include "vf.h"
static int vf_clock (int id, struct timespec * t);
static int vf_sleep (const struct timespec * t, struct timespec * rem);
#define clock_gettime(id, t) vf_clock (id, t)
#define nanosleep(t, r) vf_sleep (t, r)
#include "iot/os.h"
#include <stdatomic.h>
static uint64_t vf_load (volatile uint64_t * p);
static bool vf_cas (volatile uint64_t * p, uint64_t * expect, uint64_t v, bool weak);
#undef atomic_load
#undef atomic_store
#undef atomic_exchange
#undef atomic_fetch_add
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_strong
#define atomic_load(p) vf_load ((volatile uint64_t*) (p))
#define atomic_store(p, v) vf_store ((volatile uint64_t*) (p), v)
#define atomic_exchange(p, v) vf_exchange ((volatile uint64_t*) (p), v)
#define atomic_fetch_add(p, v) vf_exchange ((volatile uint64_t*) (p), vf_load ((volatile uint64_t*) (p)) + (v))
static void vf_store (volatile uint64_t * p, uint64_t v);
static uint64_t vf_exchange (volatile uint64_t * p, uint64_t v);
#define atomic_compare_exchange_weak(p, e, v) vf_cas ((volatile uint64_t*) (p), e, v, true)
#define atomic_compare_exchange_strong(p, e, v) vf_cas ((volatile uint64_t*) (p), e, v, false)
#include "src/c/time.c"
#define LIM (1ull << 62)
static uint64_t secs, nanos; static int reads;
static int vf_clock (int id, struct timespec * t)
{
  uint64_t s = vf_u64 (), n = vf_u64 ();
  VF_ASSUME (s < (1ull << 32) && n < 1000000000u);
  VF_ASSERT (id == CLOCK_REALTIME, "the system clock is read");
  secs = s; nanos = n; reads++; t->tv_sec = (time_t) s; t->tv_nsec = (long) n;
  return 0;
}
/* the last timestamp: ours[] the values this thread put there; everybody only moves it forward */
static uint64_t last, floor_; static int puts_, fails; static uint64_t put_v;
static void others (volatile uint64_t * p)
{
  uint64_t n = vf_u64 ();
  VF_ASSUME (n >= last && n < LIM);
  last = n; *p = n;
}
static uint64_t vf_load (volatile uint64_t * p) { others (p); return last; }
static void put (volatile uint64_t * p, uint64_t v)
{
  VF_ASSERT (v > last, "the timestamp taken is after every timestamp given out before");
  last = v; *p = v; put_v = v; puts_++;
}
static void vf_store (volatile uint64_t * p, uint64_t v) { others (p); put (p, v); }
static uint64_t vf_exchange (volatile uint64_t * p, uint64_t v) { others (p); uint64_t o = last; put (p, v); return o; }
static bool vf_cas (volatile uint64_t * p, uint64_t * e, uint64_t v, bool weak)
{
  others (p);
  if (last == *e && !(weak && vf_bool ())) { put (p, v); return true; }
  /* from here on the loop is where it was at its start: any last timestamp, any result so far */
  if (++fails == 3) VF_STOP ();
  *e = last;
  return false;
}
/*@ OBL M01.nsecs class=proved unwind=6 solver=cvc5 fns=iot_time_nsecs
*/
void h_nsecs (void)
{
  uint64_t before = vf_u64 (); VF_ASSUME (before < LIM); last = before;
  uint64_t r = iot_time_nsecs ();
  VF_ASSERT (puts_ == 1 && r == put_v, "each call takes one timestamp and returns it");
  VF_ASSERT (r > before, "it is after those of all calls completed before");
  VF_ASSERT (reads == 1 && r >= secs * 1000000000u + nanos, "and not before the clock");
  VF_REACH ("end");
}
/*@ OBL M01.seq class=bounded unwind=6 fns=iot_time_nsecs bound="three calls in a row, the first on the initial state"
*/
void h_seq (void)
{
  uint64_t a = iot_time_nsecs ();
  fails = 0; uint64_t b = iot_time_nsecs ();
  fails = 0; uint64_t c = iot_time_nsecs ();
  VF_ASSERT (a < b && b < c, "strictly increasing");
  VF_REACH ("end");
}
/*@ OBL M01.units class=proved unwind=2 solver=cvc5 fns=iot_time_msecs,iot_time_usecs,iot_time_secs timeout=200
*/
void h_units (void)
{
  uint32_t op = vf_below (3);
  if (op == 0) VF_ASSERT (iot_time_secs () == secs, "seconds");
  else if (op == 1) { uint64_t r = iot_time_msecs (); VF_ASSERT (r == secs * 1000u + nanos / 1000000u, "milliseconds"); }
  else { uint64_t r = iot_time_usecs (); VF_ASSERT (r == secs * 1000000u + nanos / 1000u, "microseconds"); }
  VF_ASSERT (reads == 1, "of one reading of the clock");
  VF_REACH ("end");
}
/* sleeping: may be interrupted at any moment, with any rest left */
static uint64_t want_s, want_n, rest_s, rest_n; static int sleeps; static bool begun, slept;
static int vf_sleep (const struct timespec * t, struct timespec * rem)
{
  VF_ASSERT (t->tv_sec >= 0 && t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "a valid time to sleep");
  VF_ASSERT (!slept, "the time is slept once");
  if (!begun) { want_s = (uint64_t) t->tv_sec; want_n = (uint64_t) t->tv_nsec; begun = true; }
  else VF_ASSERT ((uint64_t) t->tv_sec == rest_s && (uint64_t) t->tv_nsec == rest_n, "an interrupted sleep goes on with the rest");
  if (vf_bool ())
  {
    rest_s = vf_u64 (); rest_n = vf_u64 ();
    VF_ASSUME (rest_n < 1000000000u && (rest_s < (uint64_t) t->tv_sec || (rest_s == (uint64_t) t->tv_sec && rest_n <= (uint64_t) t->tv_nsec)));
    if (rem) { rem->tv_sec = (time_t) rest_s; rem->tv_nsec = (long) rest_n; }
    if (++sleeps == 3) VF_STOP ();   /* as at the start: any rest */
    errno = EINTR;
    return -1;
  }
  slept = true;
  return 0;
}
/*@ OBL M01.wait class=proved unwind=6 solver=cvc5 fns=iot_wait,iot_wait_secs,iot_wait_msecs,iot_wait_usecs timeout=200
*/
void h_wait (void)
{
  uint64_t n = vf_u64 (); VF_ASSUME (n < (1ull << 63));
  uint32_t op = vf_below (3);
  if (op == 0) iot_wait_secs (n);
  else if (op == 1) iot_wait_msecs (n);
  else iot_wait_usecs (n);
  VF_ASSERT (begun && slept, "the time has been slept");
  if (op == 0) VF_ASSERT (want_s == n && want_n == 0, "all the seconds and no more");
  else if (op == 1) VF_ASSERT (want_s == n / 1000u && want_n == n % 1000u * 1000000u, "all the milliseconds and no more");
  else VF_ASSERT (want_s == n / 1000000u && want_n == n % 1000000u * 1000u, "all the microseconds and no more");
  VF_REACH ("end");
}
