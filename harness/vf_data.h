/* The real data.c, hash.c, base64.c in one translation unit. */
#ifndef VF_DATA_H
#define VF_DATA_H
#define VF_TYPED
#include "vf_alloc.h"
#include "iot/data.h"
#include "iot/hash.h"
#include "iot/base64.h"
#include "iot/uuid.h"
static inline int vf_atexit (void (*fn) (void)) { return 0; }
#define atexit(f) vf_atexit (f)
#ifndef VF_NATIVE
/* clearing slots of a vector: as pointers, not as bytes */
static inline void * vf_memset (const char * fn, void * p, int c, size_t n)
{
  if (c == 0 && fn[9] == 'v' && fn[16] == 'r' && n % sizeof (void*) == 0)   /* iot_data_vector_resize */
  {
    for (size_t vf_i = 0; vf_i < n / sizeof (void*); vf_i++) ((iot_data_t**) p)[vf_i] = NULL;
    return p;
  }
  if (c == 0 && n == sizeof (iot_data_static_t) && fn[9] == 'a' && fn[15] == 'c')   /* iot_data_alloc_const_* */
  {
    typedef __typeof__ (((iot_data_static_t*) 0)[0][0]) elem_t;
    for (size_t vf_i = 0; vf_i < n / sizeof (elem_t); vf_i++) ((elem_t*) p)[vf_i] = (elem_t) { 0 };
    return p;
  }
  return memset (p, c, n);
}
#define memset(p, c, n) vf_memset (__func__, p, c, n)
/* comparing or copying no bytes is defined even for null pointers (as in C2y and in every libc) */
static inline int vf_memcmp (const void * a, const void * b, size_t n) { return n ? memcmp (a, b, n) : 0; }
#define memcmp(a, b, n) vf_memcmp (a, b, n)
static inline void * vf_memcpy (void * a, const void * b, size_t n) { return n ? memcpy (a, b, n) : a; }
#define memcpy(a, b, n) vf_memcpy (a, b, n)
#endif
#include "src/c/data.c"
#include "src/c/hash.c"
#ifdef VF_WITH_BASE64
#include "src/c/base64.c"
#endif
#undef atexit
#ifndef VF_NATIVE
#undef memset
#undef memcmp
#undef memcpy
#endif

#ifndef VF_NATIVE
/* typed blocks for the fixed size allocations of data.c; NULL: not recognised */
void * vf_calloc_typed (const char * fn, int ty, size_t n, size_t s)
{
#undef malloc
  if (s == sizeof (iot_data_t*) && fn[9] == 'a' && fn[15] == 'v')   /* iot_data_alloc_vector */
  {
    iot_data_t ** p = malloc (n * sizeof (iot_data_t*));
    for (size_t vf_i = 0; vf_i < n; vf_i++) p[vf_i] = NULL;
    return p;
  }
  if (s != IOT_DATA_BLOCK_SIZE || n != 1) return NULL;
  if (fn[4] == 'e' && fn[5] == 'l' && fn[6] == 'e') { iot_element_t * p = malloc (sizeof (*p)); *p = (iot_element_t) { 0 }; return p; }
  if (fn[4] == 'n' && fn[5] == 'o' && fn[6] == 'd') { iot_node_t * p = malloc (sizeof (*p)); *p = (iot_node_t) { 0 }; return p; }
  switch (ty)
  {
    case IOT_DATA_LIST: { iot_data_list_t * p = malloc (sizeof (*p)); *p = (iot_data_list_t) { 0 }; return p; }
    case IOT_DATA_MAP: { iot_data_map_t * p = malloc (sizeof (*p)); *p = (iot_data_map_t) { 0 }; return p; }
    case IOT_DATA_VECTOR: { iot_data_vector_t * p = malloc (sizeof (*p)); *p = (iot_data_vector_t) { 0 }; return p; }
    case IOT_DATA_BINARY:
    case IOT_DATA_ARRAY: { iot_data_array_t * p = malloc (sizeof (*p)); *p = (iot_data_array_t) { 0 }; return p; }
    case IOT_DATA_POINTER: { iot_data_pointer_t * p = malloc (sizeof (*p)); *p = (iot_data_pointer_t) { 0 }; return p; }
    default:
      if (ty >= 0 && ty <= IOT_DATA_STRING) { iot_data_value_t * p = malloc (sizeof (*p)); *p = (iot_data_value_t) { 0 }; return p; }
      break;
  }
#define malloc(s) vf_malloc (s)
  return NULL;
}
void * vf_realloc_typed (const char * fn, void * p, size_t s)
{
#undef malloc
#undef free
  if (s % sizeof (iot_data_t*) == 0 && fn[9] == 'v' && fn[16] == 'r')   /* iot_data_vector_resize */
  {
    size_t n = s / sizeof (iot_data_t*);
    iot_data_t ** q = malloc (n * sizeof (iot_data_t*));
    if (p)
    {
      size_t o = __CPROVER_OBJECT_SIZE (p) / sizeof (iot_data_t*);
      for (size_t vf_i = 0; vf_i < o && vf_i < n; vf_i++) q[vf_i] = ((iot_data_t**) p)[vf_i];
      free (p);
    }
    return q;
  }
#define malloc(s) vf_malloc (s)
#define free(p) vf_free (p)
  return NULL;
}
#endif

/* every fixed size block individually from the heap (thread policy of the library) */
static inline void vf_data_init (void) { iot_data_alloc_heap (true); }
#endif
