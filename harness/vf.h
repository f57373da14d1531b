/* Verification harness support: one source, two uses.
 *   CBMC  (default)     : vf_in() is symbolic, VF_ASSERT is a proof obligation.
 *   native (-DVF_NATIVE): vf_in() reads the witness, VF_ASSERT aborts: replay of a
 *                         counterexample against the real code under ASan/UBSan.
 */
#ifndef VF_H
#define VF_H
#define _GNU_SOURCE 1
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <strings.h>
#include <ctype.h>
#include <limits.h>
#include <float.h>
#include <math.h>
#include <errno.h>
#include <time.h>
#include <stdarg.h>
#include <unistd.h>
#include <wchar.h>
#include <uchar.h>
#include <dirent.h>
#include <regex.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <sys/stat.h>
#include "iot/os.h"   /* includes assert.h for the last time */

#ifdef VF_NATIVE
/* ------------------------------------------------------------------ native */
extern uint64_t vf_in (void);
extern void vf_fail (const char * msg, const char * file, int line);
#define VF_ASSERT(c, msg) do { if (!(c)) vf_fail (msg, __FILE__, __LINE__); } while (0)
#define VF_ASSUME(c) do { if (!(c)) { printf ("VF: assumption not met by the witness: %s\n", #c); fflush (stdout); _Exit (77); } } while (0)
#define VF_REACH(msg) ((void) 0)
#define __CPROVER_same_object(a, b) (labs ((const char*) (a) - (const char*) (b)) < 4096)
#define VF_NEXT() ((void) 0)
#define VF_STOP() do { printf ("VF: path ends\n"); fflush (stdout); _Exit (0); } while (0)
#undef assert
#define assert(c) do { if (!(c)) vf_fail ("assert (" #c ") in the code under test", __FILE__, __LINE__); } while (0)
#else
/* -------------------------------------------------------------------- CBMC */
#define VF_ASSERT(c, msg) __CPROVER_assert ((c), msg)
#define VF_ASSUME(c) __CPROVER_assume (c)
#define VF_REACH(msg) __CPROVER_assert (0, "VFREACH " msg)
#define VF_STOP() __CPROVER_assume (0)
/* between shapes: nothing that was released is still in reach, forget the verifier's record of it
 * (the record is what detects use after release; its cost grows with everything ever released) */
#define VF_NEXT() do { __CPROVER_deallocated = 0; __CPROVER_dead_object = 0; } while (0)
extern uint64_t nondet_vf_u64 (void);
uint64_t vf_input;
static inline uint64_t vf_in (void) { uint64_t v = nondet_vf_u64 (); vf_input = v; return v; }
#undef assert
#define assert(c) __CPROVER_assert ((c), "assert (" #c ") in the code under test")
#endif

static inline uint64_t vf_u64 (void) { return vf_in (); }
static inline int64_t vf_i64 (void) { return (int64_t) vf_in (); }
static inline uint32_t vf_u32 (void) { return (uint32_t) vf_in (); }
static inline int32_t vf_i32 (void) { return (int32_t) vf_in (); }
static inline uint16_t vf_u16 (void) { return (uint16_t) vf_in (); }
static inline int16_t vf_i16 (void) { return (int16_t) vf_in (); }
static inline uint8_t vf_u8 (void) { return (uint8_t) vf_in (); }
static inline int8_t vf_i8 (void) { return (int8_t) vf_in (); }
static inline char vf_char (void) { return (char) vf_in (); }
static inline bool vf_bool (void) { return (vf_in () & 1u) != 0; }
static inline float vf_f32 (void) { union { uint32_t u; float f; } x; x.u = vf_u32 (); return x.f; }
static inline double vf_f64 (void) { union { uint64_t u; double f; } x; x.u = vf_in (); return x.f; }
#ifndef PARTS
#define PART 0
#define PARTS 1
#endif
/* enumeration of shapes, divided over PARTS obligations */
static inline bool vf_mine (uint32_t i) { if (i % PARTS != PART) return false; VF_NEXT (); return true; }
#define VF_MINE(i) vf_mine (i)
/* a value below n */
#ifdef VF_NATIVE /* a witness of the verifier is in range; random inputs are brought into it */
static inline uint32_t vf_below (uint32_t n) { return (uint32_t) vf_in () % n; }
static inline uint32_t vf_range (uint32_t lo, uint32_t hi) { uint32_t v = (uint32_t) vf_in (); return v >= lo && v <= hi ? v : lo + v % (hi - lo + 1); }
#else
static inline uint32_t vf_below (uint32_t n) { uint32_t v = (uint32_t) vf_in (); VF_ASSUME (v < n); return v; }
static inline uint32_t vf_range (uint32_t lo, uint32_t hi) { uint32_t v = (uint32_t) vf_in (); VF_ASSUME (v >= lo && v <= hi); return v; }
#endif
static inline void vf_bytes (void * p, size_t n) { for (size_t vf_i = 0; vf_i < n; vf_i++) ((uint8_t*) p)[vf_i] = vf_u8 (); }
/* arbitrary C string of length below cap (cap bytes of storage) */
static inline size_t vf_string (char * p, size_t cap)
{
  size_t len = (size_t) vf_below ((uint32_t) cap);
  for (size_t vf_i = 0; vf_i + 1 < cap; vf_i++)
  {
    char c = vf_char ();
    if (vf_i < len) { VF_ASSUME (c != 0); p[vf_i] = c; }
    else p[vf_i] = 0;
  }
  p[cap - 1] = 0;
  return len;
}
/* an exactly sized heap copy, so that any read beyond it is detected */
static inline void * vf_exact (const void * src, size_t n)
{
  uint8_t * p = malloc (n ? n : 1u);
  for (size_t vf_i = 0; vf_i < n; vf_i++) p[vf_i] = ((const uint8_t*) src)[vf_i];
  return p;
}
#endif
