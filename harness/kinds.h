/* One value of every kind (type, ownership, shape), contents from KV; building the same kind twice
 * gives equal but separate values. */
#ifndef KINDS_H
#define KINDS_H
#include "vf_data.h"
static uint64_t KV [8];
static void kv_any (void) { for (int i = 0; i < 8; i++) KV[i] = vf_u64 (); }
static const char kt_short [] = "ab", kt_mid [] = "twenty characters ab", kt_long [] = "a text that does not fit into one block of the allocator";
static const char kk_a [] = "a", kk_b [] = "b", kk_c [] = "c";
static char kbuf_ref [4] = { 1, 2, 3, 4 };
static uint16_t karr_ref [2] = { 7, 9 };
static int kpayload;
static int kfreed;
static void kfree_fn (void * p) { VF_ASSERT (p == &kpayload, "the release function gets the payload"); kfreed++; }
static float kf32 (uint64_t v) { union { uint32_t u; float f; } x; x.u = (uint32_t) v; return x.f; }
static double kf64 (uint64_t v) { union { uint64_t u; double f; } x; x.u = v; return x.f; }
static char * kdup (const char * s, size_t n) { char * p = malloc (n); for (size_t i = 0; i < n; i++) p[i] = s[i]; return p; }
static iot_data_t * ki32 (int i) { return iot_data_alloc_i32 ((int32_t) KV[i]); }

#define KINDS 36
#define K_POINTER 22
static iot_data_t * mk (int k)
{
  iot_data_t * d, * e;
  switch (k)
  {
    case 0: return iot_data_alloc_i8 ((int8_t) KV[0]);
    case 1: return iot_data_alloc_ui8 ((uint8_t) KV[0]);
    case 2: return iot_data_alloc_i16 ((int16_t) KV[0]);
    case 3: return iot_data_alloc_ui16 ((uint16_t) KV[0]);
    case 4: return iot_data_alloc_i32 ((int32_t) KV[0]);
    case 5: return iot_data_alloc_ui32 ((uint32_t) KV[0]);
    case 6: return iot_data_alloc_i64 ((int64_t) KV[0]);
    case 7: return iot_data_alloc_ui64 (KV[0]);
    case 8: return iot_data_alloc_f32 (kf32 (KV[0]));
    case 9: return iot_data_alloc_f64 (kf64 (KV[0]));
    case 10: return iot_data_alloc_bool (true);
    case 11: return iot_data_alloc_null ();
    case 12: return iot_data_alloc_string (kt_short, IOT_DATA_REF);
    case 13: return iot_data_alloc_string (kt_short, IOT_DATA_COPY);
    case 14: return iot_data_alloc_string (kt_mid, IOT_DATA_COPY);
    case 15: return iot_data_alloc_string (kt_long, IOT_DATA_COPY);
    case 16: return iot_data_alloc_string (kdup (kt_mid, sizeof (kt_mid)), IOT_DATA_TAKE);
    case 17: return iot_data_alloc_array (kbuf_ref, 3, IOT_DATA_INT8, IOT_DATA_COPY);
    case 18: return iot_data_alloc_array (karr_ref, 2, IOT_DATA_UINT16, IOT_DATA_REF);
    case 19: return iot_data_alloc_array (kdup (kbuf_ref, 4), 1, IOT_DATA_INT32, IOT_DATA_TAKE);
    case 20: return iot_data_alloc_array (NULL, 0, IOT_DATA_FLOAT32, IOT_DATA_COPY);
    case 21: return iot_data_alloc_binary (kbuf_ref, 4, IOT_DATA_COPY);
    case 22: return iot_data_alloc_pointer (&kpayload, kfree_fn);
    case 23: return iot_data_alloc_list ();
    case 24: d = iot_data_alloc_list (); iot_data_list_tail_push (d, ki32 (1)); iot_data_list_tail_push (d, iot_data_alloc_string (kt_mid, IOT_DATA_COPY)); iot_data_list_tail_push (d, ki32 (2)); return d;
    case 25: d = iot_data_alloc_typed_list (IOT_DATA_INT32); iot_data_list_tail_push (d, ki32 (1)); iot_data_list_tail_push (d, ki32 (2)); return d;
    case 26: return iot_data_alloc_vector (0);
    case 27: d = iot_data_alloc_vector (3); iot_data_vector_add (d, 0, ki32 (1)); iot_data_vector_add (d, 2, iot_data_alloc_string (kt_short, IOT_DATA_COPY)); return d;
    case 28: d = iot_data_alloc_typed_vector (2, IOT_DATA_INT32); iot_data_vector_add (d, 0, ki32 (1)); iot_data_vector_add (d, 1, ki32 (2)); return d;
    case 29: return iot_data_alloc_map (IOT_DATA_STRING);
    case 30: d = iot_data_alloc_typed_map (IOT_DATA_STRING, IOT_DATA_INT32); iot_data_map_add (d, iot_data_alloc_string (kk_b, IOT_DATA_REF), ki32 (1)); iot_data_map_add (d, iot_data_alloc_string (kk_a, IOT_DATA_COPY), ki32 (2)); return d;
    case 31: d = iot_data_alloc_map (IOT_DATA_UINT8); iot_data_map_add (d, iot_data_alloc_ui8 (4), ki32 (1)); iot_data_map_add (d, iot_data_alloc_ui8 (2), iot_data_alloc_bool (false)); iot_data_map_add (d, iot_data_alloc_ui8 (3), iot_data_alloc_list ()); return d;
    /* nested */
    case 32: d = iot_data_alloc_vector (2); e = iot_data_alloc_vector (1); iot_data_vector_add (e, 0, ki32 (1)); iot_data_vector_add (d, 0, e); e = iot_data_alloc_list (); iot_data_list_head_push (e, ki32 (2)); iot_data_vector_add (d, 1, e); return d;
    case 33: d = iot_data_alloc_map (IOT_DATA_STRING); e = iot_data_alloc_map (IOT_DATA_INT32); iot_data_map_add (e, iot_data_alloc_i32 (5), ki32 (1)); iot_data_map_add (d, iot_data_alloc_string (kk_c, IOT_DATA_REF), e); return d;
    case 34: d = iot_data_alloc_list (); e = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (e, iot_data_alloc_string (kk_a, IOT_DATA_REF), ki32 (1)); iot_data_list_head_push (d, e); iot_data_list_head_push (d, iot_data_alloc_array (karr_ref, 2, IOT_DATA_UINT16, IOT_DATA_COPY)); return d;
    default: d = iot_data_alloc_map (IOT_DATA_MULTI); e = iot_data_alloc_vector (2); iot_data_vector_add (e, 1, iot_data_alloc_null ()); iot_data_map_add (d, iot_data_alloc_i32 (1), e); iot_data_map_add (d, iot_data_alloc_string (kk_a, IOT_DATA_REF), ki32 (3)); return d;
  }
}

/* equal content, independently of iot_data_compare and iot_data_hash */
static bool same_bytes (const void * a, const void * b, size_t n)
{
  const uint8_t * p = a, * q = b;
  bool r = true;
  for (size_t i = 0; i < n; i++) r = r && p[i] == q[i];
  return r;
}
static bool same (const iot_data_t * a, const iot_data_t * b)
{
  if (a == b) return true;
  if (!a || !b) return false;
  iot_typecode_t ta, tb;
  iot_data_typecode (a, &ta); iot_data_typecode (b, &tb);
  if (ta.type != tb.type || ta.element_type != tb.element_type || ta.key_type != tb.key_type) return false;
  switch (ta.type)
  {
    case IOT_DATA_INT8: return iot_data_i8 (a) == iot_data_i8 (b);
    case IOT_DATA_UINT8: return iot_data_ui8 (a) == iot_data_ui8 (b);
    case IOT_DATA_INT16: return iot_data_i16 (a) == iot_data_i16 (b);
    case IOT_DATA_UINT16: return iot_data_ui16 (a) == iot_data_ui16 (b);
    case IOT_DATA_INT32: return iot_data_i32 (a) == iot_data_i32 (b);
    case IOT_DATA_UINT32: return iot_data_ui32 (a) == iot_data_ui32 (b);
    case IOT_DATA_INT64: return iot_data_i64 (a) == iot_data_i64 (b);
    case IOT_DATA_UINT64: return iot_data_ui64 (a) == iot_data_ui64 (b);
    case IOT_DATA_FLOAT32: { float x = iot_data_f32 (a), y = iot_data_f32 (b); return same_bytes (&x, &y, 4); }
    case IOT_DATA_FLOAT64: { double x = iot_data_f64 (a), y = iot_data_f64 (b); return same_bytes (&x, &y, 8); }
    case IOT_DATA_BOOL: return iot_data_bool (a) == iot_data_bool (b);
    case IOT_DATA_NULL: return true;
    case IOT_DATA_POINTER: return iot_data_pointer (a) == iot_data_pointer (b);
    case IOT_DATA_STRING: return strcmp (iot_data_string (a), iot_data_string (b)) == 0;
    case IOT_DATA_ARRAY: case IOT_DATA_BINARY:
      return iot_data_array_length (a) == iot_data_array_length (b) && same_bytes (iot_data_address (a), iot_data_address (b), iot_data_array_size (a));
    case IOT_DATA_LIST:
    {
      iot_data_list_iter_t i, j;
      iot_data_list_iter (a, &i); iot_data_list_iter (b, &j);
      if (iot_data_list_length (a) != iot_data_list_length (b)) return false;
      bool r = true;
      for (uint32_t n = iot_data_list_length (a); n > 0; n--)
      {
        iot_data_list_iter_next (&i); iot_data_list_iter_next (&j);
        r = r & same (iot_data_list_iter_value (&i), iot_data_list_iter_value (&j));
      }
      return r;
    }
    case IOT_DATA_VECTOR:
    {
      if (iot_data_vector_size (a) != iot_data_vector_size (b)) return false;
      bool r = true;
      for (uint32_t n = 0; n < iot_data_vector_size (a); n++) r = r & same (iot_data_vector_get (a, n), iot_data_vector_get (b, n));
      return r;
    }
    default:
    {
      iot_data_map_iter_t i, j;
      iot_data_map_iter (a, &i); iot_data_map_iter (b, &j);
      if (iot_data_map_size (a) != iot_data_map_size (b)) return false;
      bool r = true;
      for (uint32_t n = iot_data_map_size (a); n > 0; n--)
      {
        iot_data_map_iter_next (&i); iot_data_map_iter_next (&j);
        r = r & same (iot_data_map_iter_key (&i), iot_data_map_iter_key (&j)) & same (iot_data_map_iter_value (&i), iot_data_map_iter_value (&j));
      }
      return r;
    }
  }
}
/* some later change to a value, as far as its kind can be changed; false if it cannot */
static bool change (iot_data_t * d)
{
  if (d->constant) return false;
  switch (iot_data_type (d))
  {
    case IOT_DATA_LIST:
    {
      iot_data_list_tail_push (d, ki32 (6));
      iot_data_free (iot_data_list_head_pop (d));
      return true;
    }
    case IOT_DATA_VECTOR:
      if (iot_data_vector_size (d) > 1) iot_data_vector_add (d, 1, ki32 (6));
      iot_data_vector_resize (d, iot_data_vector_size (d) + 1);
      return true;
    case IOT_DATA_MAP:
    {
      iot_data_map_iter_t i;
      iot_data_map_iter (d, &i);
      if (iot_data_map_size (d) > 0)
      {
        iot_data_map_iter_next (&i);
        iot_data_t * k = iot_data_add_ref (iot_data_map_iter_key (&i));
        iot_data_map_remove (d, k);
        iot_data_map_add (d, k, ki32 (6));
      }
      return true;
    }
    case IOT_DATA_ARRAY: case IOT_DATA_BINARY:
      if (!d->release) return false;   /* referenced buffers stay the caller's */
      ((uint8_t*) iot_data_address (d))[0] ^= 1;
      return true;
    case IOT_DATA_STRING:
      if (!d->release) return false;
      ((char*) iot_data_string (d))[0] ^= 1;
      return true;
    case IOT_DATA_POINTER: return false;
    default:
      if (iot_data_type (d) >= IOT_DATA_BOOL) return false;
      iot_data_increment (d);
      return true;
  }
}
static const iot_data_t * klist_end (const iot_data_t * d, bool head)
{
  iot_data_list_iter_t i;
  iot_data_list_iter (d, &i);
  head ? iot_data_list_iter_prev (&i) : iot_data_list_iter_next (&i);
  return iot_data_list_iter_value (&i);
}
/* the change applied to the first container or element inside, so that sharing below the top shows */
static bool change_inside (iot_data_t * d)
{
  switch (iot_data_type (d))
  {
    case IOT_DATA_LIST: return iot_data_list_length (d) && change ((iot_data_t*) klist_end (d, true));
    case IOT_DATA_VECTOR: return iot_data_vector_size (d) && iot_data_vector_get (d, 0) && change ((iot_data_t*) iot_data_vector_get (d, 0));
    case IOT_DATA_MAP: return iot_data_map_size (d) && change ((iot_data_t*) iot_data_map_start (d));
    default: return false;
  }
}
#endif
