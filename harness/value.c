/* D01: hash and equality; D04: release exactly once */
#include "vf.h"
#include <stdatomic.h>
#ifdef INTERFERE
/* dropping a reference that is not the last one: other holders may drop theirs at any later moment,
 * so the value may be gone as soon as the count has been decreased */
static void * gone; static uint32_t seen_old; static int subs;
static uint32_t vf_fetch_sub (_Atomic uint32_t * p, uint32_t v);
#undef atomic_fetch_sub
#undef atomic_fetch_sub_explicit
#define atomic_fetch_sub(p, v) vf_fetch_sub (p, v)
#define atomic_fetch_sub_explicit(p, v, o) vf_fetch_sub (p, v)
#endif
#include "kinds.h"

/*@ OBL D01.scalar prop=D01,D12 class=proved unwind=12 flags="--object-bits 12 --unwindset iot_data_free:1,iot_data_hash:1" fns=iot_data_increment,iot_data_decrement,iot_data_alloc_i8,iot_data_alloc_ui8,iot_data_alloc_i16,iot_data_alloc_ui16,iot_data_alloc_i32,iot_data_alloc_ui32,iot_data_alloc_i64,iot_data_alloc_ui64,iot_data_alloc_f32,iot_data_alloc_f64,iot_data_alloc_const_i8,iot_data_alloc_const_ui8,iot_data_alloc_const_i16,iot_data_alloc_const_ui16,iot_data_alloc_const_i32,iot_data_alloc_const_ui32,iot_data_alloc_const_i64,iot_data_alloc_const_ui64,iot_data_equal,iot_data_hash
*/
static iot_data_t * again (const iot_data_t * d)   /* a fresh value of the same content */
{
  switch (iot_data_type (d))
  {
    case IOT_DATA_INT8: KV[0] = (uint64_t) iot_data_i8 (d); break;
    case IOT_DATA_UINT8: KV[0] = iot_data_ui8 (d); break;
    case IOT_DATA_INT16: KV[0] = (uint64_t) iot_data_i16 (d); break;
    case IOT_DATA_UINT16: KV[0] = iot_data_ui16 (d); break;
    case IOT_DATA_INT32: KV[0] = (uint64_t) iot_data_i32 (d); break;
    case IOT_DATA_UINT32: KV[0] = iot_data_ui32 (d); break;
    case IOT_DATA_INT64: KV[0] = (uint64_t) iot_data_i64 (d); break;
    case IOT_DATA_UINT64: KV[0] = iot_data_ui64 (d); break;
    case IOT_DATA_FLOAT32: { union { uint32_t u; float f; } x; x.f = iot_data_f32 (d); KV[0] = x.u; break; }
    default: { union { uint64_t u; double f; } x; x.f = iot_data_f64 (d); KV[0] = x.u; break; }
  }
  return mk ((int) iot_data_type (d));
}
void h_scalar (void)
{
  vf_data_init ();
  iot_data_static_t st;
  for (int k = 0; k < 10; k++)
  {
    kv_any ();
    iot_data_t * x = mk (k), * y;
    bool nan = (k == 8 && iot_data_f32 (x) != iot_data_f32 (x)) || (k == 9 && iot_data_f64 (x) != iot_data_f64 (x));
    switch (k)
    {
      case 0: y = iot_data_alloc_const_i8 (&st, iot_data_i8 (x)); break;
      case 1: y = iot_data_alloc_const_ui8 (&st, iot_data_ui8 (x)); break;
      case 2: y = iot_data_alloc_const_i16 (&st, iot_data_i16 (x)); break;
      case 3: y = iot_data_alloc_const_ui16 (&st, iot_data_ui16 (x)); break;
      case 4: y = iot_data_alloc_const_i32 (&st, iot_data_i32 (x)); break;
      case 5: y = iot_data_alloc_const_ui32 (&st, iot_data_ui32 (x)); break;
      case 6: y = iot_data_alloc_const_i64 (&st, iot_data_i64 (x)); break;
      case 7: y = iot_data_alloc_const_ui64 (&st, iot_data_ui64 (x)); break;
      default: y = again (x); break;
    }
    VF_ASSERT (nan || (iot_data_equal (x, y) && iot_data_equal (y, x)), "constant and allocated values of the same content are equal");
    VF_ASSERT (iot_data_hash (x) == iot_data_hash (y), "and hash alike");
    if (k >= 8) iot_data_free (y);
    for (int i = 0; i < 2; i++)
    {
      i ? iot_data_decrement (x) : iot_data_increment (x);
      nan = (k == 8 && iot_data_f32 (x) != iot_data_f32 (x)) || (k == 9 && iot_data_f64 (x) != iot_data_f64 (x));
      y = again (x);
      VF_ASSERT (nan || iot_data_equal (x, y), "an incremented or decremented value equals a fresh one");
      VF_ASSERT (iot_data_hash (x) == iot_data_hash (y), "and hashes like it");
      iot_data_free (y);
      if (i == 0) iot_data_increment (x);
    }
    iot_data_free (x);
  }
  VF_ASSERT (vf_live == 0, "everything is released");
  VF_REACH ("end");
}

/* equal exactly when the content is the same */
/*@ OBL D01.differ prop=D01,D02 class=bounded light=1 split=8 unwind=64 cost=4 flags="--object-bits 14" fns=iot_data_equal,iot_data_compare,iot_data_hash bound="two values of each of 34 kinds with independent arbitrary contents (hash collisions included)"
*/
void h_differ (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (int k = 0; k < KINDS; k++)
  {
    if (k == 8 || k == 9) continue;   /* D02 */
    if (!VF_MINE (code++)) continue;
    kv_any ();
    iot_data_t * a = mk (k);
    kv_any ();
    iot_data_t * b = mk (k);
    bool eq = same (a, b);
    VF_ASSERT (iot_data_equal (a, b) == eq && iot_data_equal (b, a) == eq, "equal exactly when the content is the same");
    VF_ASSERT ((iot_data_compare (a, b) == 0) == eq, "compared as equal exactly when the content is the same");
    if (eq) VF_ASSERT (iot_data_hash (a) == iot_data_hash (b), "equal values hash alike");
    iot_data_free (a); iot_data_free (b);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}
/* containers of two elements in either order, same elements on both sides: equal hashes, different content */
/*@ OBL D01.order prop=D01 class=bounded light=1 unwind=12 flags="--object-bits 14" fns=iot_data_equal,iot_data_hash bound="lists, vectors and maps of two elements, all contents, elements exchanged"
*/
void h_order (void)
{
  vf_data_init ();
  kv_any ();
  bool eq = (int32_t) KV[1] == (int32_t) KV[2];
  iot_data_t * a = iot_data_alloc_list (), * b = iot_data_alloc_list ();
  iot_data_list_tail_push (a, ki32 (1)); iot_data_list_tail_push (a, ki32 (2));
  iot_data_list_tail_push (b, ki32 (2)); iot_data_list_tail_push (b, ki32 (1));
  VF_ASSERT (iot_data_equal (a, b) == eq, "lists in another order differ");
  iot_data_t * c = iot_data_alloc_vector (2), * d = iot_data_alloc_vector (2);
  iot_data_vector_add (c, 0, ki32 (1)); iot_data_vector_add (c, 1, ki32 (2));
  iot_data_vector_add (d, 0, ki32 (2)); iot_data_vector_add (d, 1, ki32 (1));
  VF_ASSERT (iot_data_equal (c, d) == eq, "vectors in another order differ");
  iot_data_t * e = iot_data_alloc_map (IOT_DATA_UINT8), * f = iot_data_alloc_map (IOT_DATA_UINT8);
  iot_data_map_add (e, iot_data_alloc_ui8 (0), ki32 (1)); iot_data_map_add (e, iot_data_alloc_ui8 (1), ki32 (2));
  iot_data_map_add (f, iot_data_alloc_ui8 (1), ki32 (1)); iot_data_map_add (f, iot_data_alloc_ui8 (0), ki32 (2));
  VF_ASSERT (iot_data_equal (e, f) == eq, "maps with exchanged values differ");
  iot_data_t * g = iot_data_alloc_vector (2), * h = iot_data_alloc_vector (2);
  iot_data_vector_add (g, 0, ki32 (1)); iot_data_vector_add (h, 1, ki32 (1));
  VF_ASSERT (!iot_data_equal (g, h) && !iot_data_equal (h, g), "an empty slot is not an element");
  VF_ASSERT (!iot_data_equal (a, c) && !iot_data_equal (a, NULL) && !iot_data_equal (NULL, a) && iot_data_equal (NULL, NULL), "values of different types differ");
  VF_REACH ("end");
}

/* ---------------------------------------------------------------- D04 */
/*@ OBL D04.held prop=D04 class=bounded split=8 unwind=64 cost=4 flags="--object-bits 14" fns=iot_data_free,iot_data_add_ref,iot_data_ref_count bound="one value of each of 36 kinds; every reference count (containers: 1 to 3)"
*/
void h_held (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (int k = 0; k < KINDS; k++)
  {
    if (!VF_MINE (code++)) continue;
    kv_any ();
    long live = vf_live;
    kfreed = 0;
    iot_data_t * m = mk (k);
    iot_data_t * x = mk (k);
    long held = vf_live;
    bool constant = x->constant;
    uint32_t n = k <= K_POINTER ? vf_range (2, 0xfffffffeu) : 2;
    if (!constant) atomic_store (&x->refs, n);
    VF_ASSERT (iot_data_add_ref (x) == x && (constant || iot_data_ref_count (x) == n + 1), "taking a reference counts it");
    iot_data_free (x);
    VF_ASSERT (constant || iot_data_ref_count (x) == n, "dropping a reference counts it");
    iot_data_free (x);
    VF_ASSERT (constant || iot_data_ref_count (x) == n - 1, "dropping a reference counts it");
    VF_ASSERT (vf_live == held && kfreed == 0 && same (x, m), "nothing is released and the value stays readable while a reference is held");
    if (!constant) atomic_store (&x->refs, 1u);
    iot_data_free (x);
    VF_ASSERT (kfreed == (k == K_POINTER), "the payload is released exactly once, with the last reference");
    iot_data_free (m);
    VF_ASSERT (vf_live == live, "everything is released exactly once");
    if (constant) VF_ASSERT (same (x, m), "constants are never released");
  }
  iot_data_free (NULL);
  VF_ASSERT (iot_data_add_ref (NULL) == NULL && iot_data_ref_count (NULL) == 0, "no value, no reference");
  VF_REACH ("end");
}
/* a value held by two containers and the caller, released in any order */
/*@ OBL D04.shared prop=D04 class=bounded split=8 unwind=64 cost=4 flags="--object-bits 14" fns=iot_data_free,iot_data_add_ref bound="one value of each of 6 kinds shared by a list, a vector, a map and the caller, released in 6 orders"
*/
void h_shared (void)
{
  static const uint8_t ks [6] = { 4, 14, 19, 22, 24, 31 };
  static const uint8_t orders [6][4] = { { 0, 1, 2, 3 }, { 3, 2, 1, 0 }, { 1, 3, 0, 2 }, { 2, 0, 3, 1 }, { 3, 0, 1, 2 }, { 1, 2, 3, 0 } };
  vf_data_init ();
  uint32_t code = 0;
  for (int k = 0; k < 6; k++) for (int o = 0; o < 6; o++)
  {
    if (!VF_MINE (code++)) continue;
    kv_any ();
    kfreed = 0;
    iot_data_t * m = mk (ks[k]);
    iot_data_t * h [4];
    h[0] = mk (ks[k]);
    h[1] = iot_data_alloc_list (); iot_data_list_tail_push (h[1], iot_data_add_ref (h[0]));
    h[2] = iot_data_alloc_vector (1); iot_data_vector_add (h[2], 0, iot_data_add_ref (h[0]));
    h[3] = iot_data_alloc_map (IOT_DATA_UINT8); iot_data_map_add (h[3], iot_data_alloc_ui8 (1), iot_data_add_ref (h[0]));
    iot_data_t * x = h[0];
    VF_ASSERT (iot_data_ref_count (x) == 4, "four references");
    for (int i = 0; i < 4; i++)
    {
      VF_ASSERT (same (x, m) && kfreed == 0, "readable while any reference is held");
      iot_data_free (h[orders[o][i]]);
    }
    VF_ASSERT (kfreed == (ks[k] == K_POINTER), "released with the last reference");
    iot_data_free (m);
    VF_ASSERT (vf_live == 0, "everything is released exactly once");
  }
  VF_REACH ("end");
}

#ifdef INTERFERE
static uint32_t vf_fetch_sub (_Atomic uint32_t * p, uint32_t v)
{
  uint32_t old = *p;
  *p = old - v;
  if (gone && (char*) p == (char*) &((iot_data_t*) gone)->refs)
  {
    subs++; seen_old = old;
    if (old > 1u && vf_bool ())   /* the other holders drop theirs before this thread goes on */
    {
#undef free
      free (gone);
#define free(p) vf_free (p)
    }
  }
  return old;
}
/* with other threads dropping their references at the same time: whoever takes the count to zero
 * releases, everybody else does not touch the value again */
/*@ OBL D04.threads prop=D04 class=bounded defs=-DINTERFERE split=4 unwind=64 flags="--object-bits 14" fns=iot_data_free bound="one value of each of 12 kinds, every reference count, interference at the decrement"
*/
void h_threads (void)
{
  static const uint8_t ks [12] = { 0, 5, 9, 12, 13, 14, 15, 17, 22, 23, 26, 29 };
  vf_data_init ();
  uint32_t code = 0;
  for (int k = 0; k < 12; k++)
  {
    if (!VF_MINE (code++)) continue;
    kv_any ();
    iot_data_t * x = mk (ks[k]);
    uint32_t n = vf_range (1, 0xffffffffu);
    atomic_store (&x->refs, n);
    long live = vf_live;
    gone = x; subs = 0; kfreed = 0;
    iot_data_free (x);
    gone = NULL;
    VF_ASSERT (subs == 1 && seen_old == n, "one reference is dropped, by one atomic step");
    VF_ASSERT ((n == 1) == (vf_live < live), "released exactly by the one that dropped the last reference");
    VF_ASSERT (kfreed == (n == 1 && ks[k] == K_POINTER), "and its payload too");
  }
  VF_REACH ("end");
}
#endif

/*@ OBL D04.const prop=D04 class=proved unwind=8 flags="--object-bits 12 --unwindset iot_data_free:1,iot_data_copy:1" fns=iot_data_free,iot_data_copy,iot_data_alloc_const_pointer,iot_data_alloc_const_list,iot_data_alloc_bool,iot_data_alloc_null
*/
void h_const (void)
{
  vf_data_init ();
  iot_data_static_t st, su;
  iot_data_list_static_t sl;
  iot_data_t * c [5];
  uint64_t v = vf_u64 ();
  c[0] = iot_data_alloc_const_ui64 (&st, v);
  c[1] = iot_data_alloc_const_pointer (&su, &kpayload);
  c[2] = iot_data_alloc_bool (vf_bool ());
  c[3] = iot_data_alloc_null ();
  c[4] = iot_data_alloc_const_list (&sl);
  VF_ASSERT (vf_live == 0, "constants allocate nothing");
  for (int i = 0; i < 5; i++)
  {
    for (int j = 0; j < 3; j++) iot_data_free (c[i]);
    VF_ASSERT (iot_data_copy (c[i]) == c[i], "constants are shared by copies");
  }
  VF_ASSERT (iot_data_ui64 (c[0]) == v && iot_data_pointer (c[1]) == &kpayload && iot_data_type (c[2]) == IOT_DATA_BOOL && iot_data_type (c[3]) == IOT_DATA_NULL && iot_data_list_length (c[4]) == 0, "and never released");
  VF_ASSERT (vf_live == 0, "no allocation and no release");
  VF_REACH ("end");
}
