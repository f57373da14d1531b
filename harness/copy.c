/* D08: copies are equal and independent */
#include "kinds.h"

/*@ OBL D08.copy prop=D08,D01,D04 class=bounded split=8 unwind=64 cost=4 timeout=200 flags="--object-bits 14" fns=iot_data_copy,iot_data_equal,iot_data_hash,iot_data_free bound="one value of each of 36 kinds (type, ownership, shape up to 3 elements and 2 levels), all scalar contents, 3 histories each"
*/
void h_copy (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (int k = 0; k < KINDS; k++) for (int op = 0; op < 3; op++)
  {
    if (!VF_MINE (code++)) continue;
    kv_any ();
    iot_data_t * x = mk (k), * m = mk (k), * c = iot_data_copy (x);
    VF_ASSERT (same (c, m), "a copy has the content and the type information of its source");
    VF_ASSERT (same (x, m), "copying does not change the source");
    bool shared = x->constant || iot_data_type (x) == IOT_DATA_POINTER;
    VF_ASSERT ((c == x) == shared, "only constants and pointer values are shared by a copy");
    if (!shared) VF_ASSERT (iot_data_ref_count (c) == 1 && iot_data_ref_count (x) == 1, "the copy holds its own reference");
    if (k != 8 && k != 9) VF_ASSERT (iot_data_equal (c, x) && iot_data_equal (x, c) && iot_data_hash (c) == iot_data_hash (m), "a copy compares equal and has the same hash");
    switch (op)
    {
      case 0: iot_data_free (x); VF_ASSERT (same (c, m), "a copy survives the release of its source"); iot_data_free (c); break;
      case 1: change_inside (c); if (!shared) change (c); VF_ASSERT (same (x, m), "changing a copy does not affect the source"); iot_data_free (c); VF_ASSERT (same (x, m), "releasing a copy does not affect the source"); iot_data_free (x); break;
      default: change_inside (x); if (!shared) change (x); VF_ASSERT (same (c, m), "changing the source does not affect a copy"); iot_data_free (x); iot_data_free (c); break;
    }
    iot_data_free (m);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}

/*@ OBL D08.shallow prop=D08,D01,D04 class=bounded split=4 unwind=64 cost=4 timeout=200 flags="--object-bits 14" fns=iot_data_shallow_copy,iot_data_free bound="one value of each of 36 kinds, all scalar contents, 2 histories each"
*/
void h_shallow (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (int k = 0; k < KINDS; k++) for (int op = 0; op < 2; op++)
  {
    if (!VF_MINE (code++)) continue;
    kv_any ();
    iot_data_t * x = mk (k), * m = mk (k);
    uint32_t refs = iot_data_ref_count (x);
    iot_data_t * c = iot_data_shallow_copy (x);
    VF_ASSERT (same (c, m) && same (x, m), "a shallow copy has the content of its source, which is unchanged");
    if (k != 8 && k != 9) VF_ASSERT (iot_data_equal (c, x) && iot_data_hash (c) == iot_data_hash (m), "a shallow copy compares equal and has the same hash");
    if (iot_data_type (x) >= IOT_DATA_LIST || iot_data_type (x) == IOT_DATA_VECTOR || iot_data_type (x) == IOT_DATA_MAP)
    {
      if (iot_data_type (x) == IOT_DATA_VECTOR) for (uint32_t i = 0; i < iot_data_vector_size (x); i++) VF_ASSERT (iot_data_vector_get (x, i) == iot_data_vector_get (c, i), "elements are shared");
      if (iot_data_type (x) == IOT_DATA_LIST && iot_data_list_length (x)) VF_ASSERT (klist_end (x, true) == klist_end (c, true) && klist_end (x, false) == klist_end (c, false), "elements are shared");
      if (iot_data_type (x) == IOT_DATA_MAP) VF_ASSERT (iot_data_map_start (x) == iot_data_map_start (c) && iot_data_map_end (x) == iot_data_map_end (c), "elements are shared");
      VF_ASSERT (c != x && iot_data_ref_count (c) == 1 && iot_data_ref_count (x) == 1, "a new container");
      if (op) { change (c); VF_ASSERT (same (x, m), "changing a shallow copy does not affect the source"); iot_data_free (c); VF_ASSERT (same (x, m), "nor does releasing it"); iot_data_free (x); }
      else { change (x); VF_ASSERT (same (c, m), "changing the source does not affect a shallow copy"); iot_data_free (x); VF_ASSERT (same (c, m), "nor does releasing it"); iot_data_free (c); }
    }
    else
    {
      VF_ASSERT (c == x && iot_data_ref_count (x) == refs + 1, "other values are shared by reference");
      iot_data_free (x);
      VF_ASSERT (same (c, m), "readable while a reference is held");
      iot_data_free (c);
    }
    iot_data_free (m);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}

/*@ OBL D08.meta prop=D08,D04 class=bounded split=4 unwind=64 cost=4 timeout=200 flags="--object-bits 14" fns=iot_data_copy,iot_data_set_metadata,iot_data_get_metadata,iot_data_free bound="one value of each of 34 kinds with one metadata entry"
*/
void h_meta (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (int k = 0; k < KINDS; k++) for (int op = 0; op < 2; op++)
  {
    if (k == 10 || k == 11) continue;   /* constants */
    if (!VF_MINE (code++)) continue;
    kv_any ();
    iot_data_t * x = mk (k), * key = iot_data_alloc_string (kk_a, IOT_DATA_REF), * v = ki32 (5);
    VF_ASSERT (iot_data_get_metadata (x, key) == NULL, "no metadata at first");
    iot_data_set_metadata (x, v, key);
    VF_ASSERT (iot_data_get_metadata (x, key) == v, "metadata is found under its key");
    iot_data_t * c = iot_data_copy (x);
    VF_ASSERT (iot_data_get_metadata (c, key) == v, "a copy carries the metadata");
    iot_data_free (op ? c : x);
    VF_ASSERT (iot_data_get_metadata (op ? x : c, key) == v && iot_data_i32 (v) == (int32_t) KV[5], "metadata stays readable while either holds it");
    iot_data_free (op ? x : c);
    iot_data_free (key);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}

/* every value of every scalar type: loop free, so the result holds without bound */
/*@ OBL D08.scalar prop=D08,D01 class=proved unwind=12 flags="--object-bits 12 --unwindset iot_data_free:2,iot_data_copy:1,iot_node_free:1" fns=iot_data_copy,iot_data_equal,iot_data_hash
*/
void h_scalar (void)
{
  vf_data_init ();
  for (int k = 0; k < 10; k++)
  {
    kv_any ();
    iot_data_t * x = mk (k);
    iot_data_t * c = iot_data_copy (x);
    VF_ASSERT (c != x && same (c, x) && iot_data_hash (c) == iot_data_hash (x) && iot_data_ref_count (c) == 1 && iot_data_ref_count (x) == 1, "a copy is a new equal value");
    VF_ASSERT ((k == 8 && iot_data_f32 (x) != iot_data_f32 (x)) || (k == 9 && iot_data_f64 (x) != iot_data_f64 (x)) || iot_data_equal (c, x), "and compares equal (NaN equals nothing)");
    iot_data_increment (c);
    iot_data_free (c);
    iot_data_free (x);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}

/* every kind inside every container: no part of a copy that can be changed is shared with the source */
static iot_data_t * wrap (int c, int k)
{
  iot_data_t * d;
  switch (c)
  {
    case 0: d = iot_data_alloc_list (); iot_data_list_tail_push (d, ki32 (3)); iot_data_list_tail_push (d, mk (k)); return d;
    case 1: d = iot_data_alloc_vector (2); iot_data_vector_add (d, 0, ki32 (3)); iot_data_vector_add (d, 1, mk (k)); return d;
    default: d = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (d, iot_data_alloc_string (kk_a, IOT_DATA_REF), mk (k)); iot_data_map_add (d, iot_data_alloc_string (kk_b, IOT_DATA_REF), ki32 (3)); return d;
  }
}
static iot_data_t * inner (int c, iot_data_t * d)
{
  switch (c)
  {
    case 0: return (iot_data_t*) klist_end (d, false);
    case 1: return (iot_data_t*) iot_data_vector_get (d, 1);
    default: return (iot_data_t*) iot_data_map_start (d);
  }
}
/*@ OBL D08.nested prop=D08 class=bounded split=8 unwind=64 cost=4 timeout=200 flags="--object-bits 14" fns=iot_data_copy bound="every kind that can be changed, inside a list, a vector and a map of two elements, changed in the copy or in the source"
*/
void h_nested (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (int k = 0; k < KINDS; k++) for (int c = 0; c < 3; c++) for (int op = 0; op < 2; op++)
  {
    if ((k >= 1 && k <= 9 && k != 4) || k == 10 || k == 11 || k == 12 || k == 14 || k == 15 || k == 18 || k == 20 || k == K_POINTER) continue;
    if (!VF_MINE (code++)) continue;
    kv_any ();
    iot_data_t * x = wrap (c, k), * m = wrap (c, k), * y = iot_data_copy (x);
    VF_ASSERT (same (y, m), "a copy has the content of its source");
    iot_data_t * in = inner (c, op ? y : x);
    change_inside (in); change (in);
    VF_ASSERT (same (op ? x : y, m), "changing a part of one does not affect the other");
    iot_data_free (x); iot_data_free (y); iot_data_free (m);
  }
  VF_REACH ("end");
}
