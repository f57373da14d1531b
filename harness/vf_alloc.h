/* Allocation with ghost accounting.  Including this before a repository source file
 * routes its allocation calls here; vf_live counts the live allocations.
 * Under CBMC the fixed size blocks get the struct type they are used as (the solver
 * then works on fields and not on byte arrays); sizes and zeroing are unchanged. */
#ifndef VF_ALLOC_H
#define VF_ALLOC_H
#include "vf.h"
static long vf_live = 0;
static const int type = -1;   /* seen by allocation sites without a local named type */
extern void * vf_realloc_typed (const char * fn, void * p, size_t s);
extern void * vf_calloc_typed (const char * fn, int type, size_t n, size_t s);

static void * vf_calloc (const char * fn, int ty, size_t n, size_t s)
{
  vf_live++;
#ifdef VF_NATIVE
  return calloc (n, s);
#else
#ifdef VF_TYPED
  void * t = vf_calloc_typed (fn, ty, n, s);
  if (t) return t;
#endif
  uint8_t * p = malloc (n * s);
  __CPROVER_array_set (p, 0);
  return p;
#endif
}
static void * vf_malloc (size_t s)
{
  vf_live++;
  return malloc (s);
}
static void * vf_realloc (const char * fn, void * p, size_t s)
{
  if (p == NULL) vf_live++;
#ifdef VF_NATIVE
  void * q = malloc (s);   /* always move: stale pointers into the old block are then detected */
  if (p)
  {
    extern size_t malloc_usable_size (void *);
    extern size_t __sanitizer_get_allocated_size (const volatile void *);
    size_t o = __sanitizer_get_allocated_size (p);
    memcpy (q, p, o < s ? o : s);
    free (p);
  }
  return q;
#else
#ifdef VF_TYPED
  void * t = vf_realloc_typed (fn, p, s);
  if (t) return t;
#endif
  uint8_t * q = malloc (s);
  if (p)
  {
    size_t o = __CPROVER_OBJECT_SIZE (p);
    size_t m = o < s ? o : s;
    memcpy (q, p, m);
    free (p);
  }
  return q;
#endif
}
static void vf_free (void * p)
{
  if (p) vf_live--;
  free (p);
}
static char * vf_strdup (const char * s)
{
  size_t n = strlen (s) + 1;
  char * p = vf_malloc (n);
  memcpy (p, s, n);
  return p;
}
static char * vf_strndup (const char * s, size_t max)
{
  size_t n = 0;
  while (n < max && s[n]) n++;
  char * p = vf_malloc (n + 1);
  memcpy (p, s, n);
  p[n] = 0;
  return p;
}
#define calloc(n, s) vf_calloc (__func__, (int) type, n, s)
#define malloc(s) vf_malloc (s)
#define realloc(p, s) vf_realloc (__func__, p, s)
#define free(p) vf_free (p)
#undef strdup
#undef strndup
#define strdup(s) vf_strdup (s)
#define strndup(s, n) vf_strndup (s, n)
#endif
