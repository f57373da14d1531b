/* D11: storage of text of arbitrary length; the libc text functions and iot_hash by contract */
#include "vf.h"
#ifndef VF_NATIVE
static const char * any_src; static size_t any_len; static uint32_t any_hash; static char * any_dst; static int any_copies;
static size_t any_strlen (const char * s) { assert (s == any_src); return any_len; }
static char * any_strcpy (char * d, const char * s)
{
  assert (s == any_src);
  VF_ASSERT (__CPROVER_w_ok (d, any_len + 1), "the storage chosen holds the whole text and its end");
  any_dst = d; any_copies++;
  return d;
}
static char * any_strdup (const char * s);
#include "iot/hash.h"
#define VF_TYPED
#include "vf_alloc.h"
#undef strdup
#define strdup(s) any_strdup (s)
#define strlen(s) any_strlen (s)
#define strcpy(d, s) any_strcpy (d, s)
#define iot_hash(s) any_iot_hash (s)
static uint32_t any_iot_hash (const char * s) { assert (s == any_src); return any_hash; }
#define VF_ANY_DATA
#include "iot/data.h"
#include "iot/uuid.h"
#include "src/c/data.c"
static char * any_strdup (const char * s)
{
  assert (s == any_src);
  any_dst = malloc (any_len + 1); any_copies++;
  return any_dst;
}
void * vf_calloc_typed (const char * fn, int ty, size_t n, size_t s)
{
#undef malloc
  if (ty == IOT_DATA_STRING && s == IOT_DATA_BLOCK_SIZE) { iot_data_value_t * p = malloc (sizeof (*p)); *p = (iot_data_value_t) { 0 }; return p; }
  return NULL;
}
void * vf_realloc_typed (const char * fn, void * p, size_t s) { return NULL; }

/*@ OBL D11.any_copy prop=D11,D04 class=proved unwind=2 flags="--object-bits 12 --unwindset iot_data_free:1" fns=iot_data_alloc_string,iot_data_string,iot_data_free
*/
void h_any_copy (void)
{
  char src;
  any_src = &src; any_hash = vf_u32 (); any_len = (size_t) vf_u64 ();
  VF_ASSUME (any_len < ((size_t) 1 << 40));
  iot_data_alloc_heap (true);
  uint32_t own = vf_below (3);
  iot_data_ownership_t o = own == 0 ? IOT_DATA_COPY : own == 1 ? IOT_DATA_TAKE : IOT_DATA_REF;
  iot_data_t * d = iot_data_alloc_string (any_src, o);
  VF_ASSERT (iot_data_type (d) == IOT_DATA_STRING && d->hash == any_hash && iot_data_ref_count (d) == 1, "a string value with the hash of the text");
  if (o == IOT_DATA_COPY)
  {
    VF_ASSERT (any_copies == 1 && iot_data_string (d) == any_dst && any_dst != any_src, "a copied text is in its own storage, whatever its length");
    iot_data_free (d);
    VF_ASSERT (vf_live == 0, "which is released with the value, exactly once");
  }
  else
  {
    VF_ASSERT (any_copies == 0 && iot_data_string (d) == any_src, "taken and referenced text is used in place");
    if (o == IOT_DATA_REF) { iot_data_free (d); VF_ASSERT (vf_live == 0, "a referenced text is not released"); }
  }
  VF_REACH ("end");
}
#endif
