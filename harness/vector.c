/* D06: vectors against the mathematical array */
#include "vf_data.h"

#define MAXN 8
typedef struct { iot_data_t * v [MAXN]; uint32_t n; } arr_t;

static bool is_same (const iot_data_t * d, const void * arg) { return d == arg; }
static void arr_check (const iot_data_t * vec, const arr_t * s)
{
  iot_data_vector_iter_t it;
  iot_data_iter_t git;
  VF_ASSERT (iot_data_vector_size (vec) == s->n && iot_data_length (vec) == s->n, "size is that of the array");
  for (uint32_t i = 0; i < s->n; i++) VF_ASSERT (iot_data_vector_get (vec, i) == s->v[i], "the element at each index");
  VF_ASSERT (iot_data_vector_get_pointer (vec, s->n) == NULL, "no pointer beyond the end");
  for (int round = 0; round < 2; round++)   /* an iterator that reached the end starts again */
  {
    if (round == 0) { iot_data_vector_iter (vec, &it); iot_data_iter (vec, &git); }
    VF_ASSERT (iot_data_vector_iter_value (&it) == NULL && iot_data_vector_iter_index (&it) == s->n, "no value before the first step");
    VF_ASSERT (iot_data_vector_iter_has_next (&it) == (s->n > 0) && iot_data_iter_has_next (&git) == (s->n > 0), "has_next at the start");
    for (uint32_t i = 0; i < s->n; i++)
    {
      VF_ASSERT (iot_data_vector_iter_next (&it) && iot_data_iter_next (&git), "forward iteration visits every index");
      VF_ASSERT (iot_data_vector_iter_index (&it) == i && iot_data_vector_iter_value (&it) == s->v[i] && iot_data_iter_value (&git) == s->v[i], "forward iteration order");
      VF_ASSERT (iot_data_vector_iter_has_next (&it) == (i + 1 < s->n) && iot_data_iter_has_next (&git) == (i + 1 < s->n), "has_next while positioned");
    }
    VF_ASSERT (!iot_data_vector_iter_next (&it) && !iot_data_iter_next (&git), "forward iteration ends after the last index");
    VF_ASSERT (iot_data_vector_iter_value (&it) == NULL, "no value after the end");
  }
  iot_data_vector_iter (vec, &it);
  iot_data_iter (vec, &git);
  for (uint32_t i = s->n; i > 0; i--)
  {
    VF_ASSERT (iot_data_vector_iter_prev (&it) && iot_data_iter_prev (&git), "backward iteration visits every index");
    VF_ASSERT (iot_data_vector_iter_value (&it) == s->v[i - 1] && iot_data_iter_value (&git) == s->v[i - 1] && iot_data_vector_iter_index (&it) == i - 1, "backward iteration order");
  }
  VF_ASSERT (!iot_data_vector_iter_prev (&it) && !iot_data_iter_prev (&git), "backward iteration ends after the first index");
}
static void arr_hash (const iot_data_t * vec, const arr_t * s)
{
  iot_data_t * other = iot_data_alloc_vector (s->n);
  for (uint32_t i = 0; i < s->n; i++) if (s->v[i]) iot_data_vector_add (other, i, iot_data_alloc_i32 (iot_data_i32 (s->v[i])));
  VF_ASSERT (iot_data_hash (vec) == iot_data_hash (other), "a vector hashes like a freshly built vector of the same elements");
  VF_ASSERT (iot_data_equal (vec, other), "a vector equals a freshly built vector of the same elements");
  iot_data_free (other);
}
static iot_data_t * build (arr_t * s, uint32_t n, uint32_t mask)
{
  iot_data_t * vec = iot_data_alloc_vector (n);
  s->n = n;
  for (uint32_t i = 0; i < n; i++)
  {
    s->v[i] = (mask >> i) & 1u ? iot_data_alloc_i32 (vf_i32 ()) : NULL;
    if (s->v[i]) iot_data_vector_add (vec, i, s->v[i]);
  }
  return vec;
}
#define OPS 17
static bool apply (iot_data_t * vec, arr_t * s, uint32_t op)
{
  iot_data_t * x;
  iot_data_vector_iter_t it;
  switch (op)
  {
    case 0: case 1: case 2:   /* store */
      if (op >= s->n) return false;
      x = iot_data_alloc_i32 (vf_i32 ());
      iot_data_vector_add (vec, op, x);
      s->v[op] = x;
      break;
    case 3: case 4:   /* clear a slot */
      if (op - 3 >= s->n) return false;
      iot_data_vector_add (vec, op - 3, NULL);
      s->v[op - 3] = NULL;
      break;
    case 5: case 6: case 7: case 8: case 9:   /* resize */
      iot_data_vector_resize (vec, op - 5);
      for (uint32_t i = s->n; i < op - 5; i++) s->v[i] = NULL;
      s->n = op - 5;
      break;
    case 10:   /* compact */
    {
      uint32_t n = 0;
      for (uint32_t i = 0; i < s->n; i++) if (s->v[i]) s->v[n++] = s->v[i];
      s->n = n;
      VF_ASSERT (iot_data_vector_compact (vec) == n, "compaction reports the number of elements");
      break;
    }
    case 11: case 12: case 13:   /* replace during iteration */
    {
      uint32_t pos = op - 11;
      if (pos >= s->n) return false;
      x = iot_data_alloc_i32 (vf_i32 ());
      iot_data_vector_iter (vec, &it);
      VF_ASSERT (iot_data_vector_iter_replace_value (&it, x) == NULL, "nothing is replaced before the first step");
      for (uint32_t i = 0; i <= pos; i++) iot_data_vector_iter_next (&it);
      iot_data_t * old = iot_data_vector_iter_replace_value (&it, x);
      VF_ASSERT (old == s->v[pos], "replacing returns the old element");
      iot_data_free (old);
      s->v[pos] = x;
      break;
    }
    case 14:   /* search */
      for (uint32_t i = 0; i < s->n; i++) if (s->v[i]) VF_ASSERT (iot_data_vector_find (vec, is_same, s->v[i]) == s->v[i], "search finds a present element");
      VF_ASSERT (iot_data_vector_find (vec, is_same, vec) == NULL, "search does not find an absent element");
      break;
    case 15: iot_data_hash (vec); break;
    default:   /* replace by a shared value */
      if (s->n < 2 || !s->v[0]) return false;
      iot_data_vector_add (vec, 1, iot_data_add_ref (s->v[0]));
      s->v[1] = s->v[0];
      break;
  }
  return true;
}

/*@ OBL D06.ops prop=D06,D04,D01 class=bounded split=24 unwind=70 cost=5 flags="--object-bits 14" fns=iot_data_vector_add,iot_data_vector_get,iot_data_vector_resize,iot_data_vector_compact,iot_data_vector_iter_replace_value,iot_data_vector_find,iot_data_vector_iter_next,iot_data_vector_iter_prev,iot_data_vector_iter_has_next bound="every operation on every vector of up to 3 slots, every pattern of empty slots, all values"
*/
/*@ OBL D06.ops4 prop=D06,D04,D01 class=bounded tier=thorough split=24 unwind=70 cost=5 defs="-DNLO=4 -DNHI=4" flags="--object-bits 14" fns=iot_data_vector_add,iot_data_vector_resize,iot_data_vector_compact bound="every operation on every vector of 4 slots, every pattern of empty slots, all values"
*/
#ifndef NLO
#define NLO 0
#define NHI 3
#endif
void h_ops (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (uint32_t n = NLO; n <= NHI; n++) for (uint32_t mask = 0; mask < (1u << n); mask++) for (uint32_t op = 0; op < OPS; op++)
  {
    if (!VF_MINE (code++)) continue;
    arr_t s;
    iot_data_t * vec = build (&s, n, mask);
    if (apply (vec, &s, op)) { arr_check (vec, &s); arr_hash (vec, &s); }
    iot_data_free (vec);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}
/*@ OBL D06.pairs prop=D06 class=bounded light=1 split=16 unwind=70 cost=5 flags="--object-bits 14" fns=iot_data_vector_add,iot_data_vector_resize,iot_data_vector_compact,iot_data_vector_iter_replace_value bound="every pair of operations on a full and a sparse vector of 3 slots, all values"
*/
/*@ OBL D06.pairs_safe prop=D06,D04,D01 class=bounded tier=thorough split=64 unwind=70 cost=5 defs=-DALLMASKS flags="--object-bits 14" fns=iot_data_vector_add,iot_data_vector_resize,iot_data_vector_compact,iot_data_vector_iter_replace_value bound="every pair of operations on every vector of 3 slots, all values"
*/
#ifdef ALLMASKS
#define STEP 1
#else
#define STEP 2
#endif
void h_pairs (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (uint32_t mask = 5; mask <= 7; mask += STEP) for (uint32_t op = 0; op < OPS; op++) for (uint32_t op2 = 0; op2 < OPS; op2++)
  {
    if (!VF_MINE (code++)) continue;
    arr_t s;
    iot_data_t * vec = build (&s, 3, mask);
    if (apply (vec, &s, op) && apply (vec, &s, op2)) { arr_check (vec, &s); arr_hash (vec, &s); }
    iot_data_free (vec);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}

/*@ OBL D06.compact prop=D06 class=bounded split=8 unwind=70 cost=3 flags="--object-bits 14" fns=iot_data_vector_compact,iot_data_vector_resize bound="every pattern of empty slots in vectors of up to 6 slots"
*/
void h_compact (void)
{
  vf_data_init ();
  for (uint32_t n = 5; n <= 6; n++) for (uint32_t mask = 0; mask < (1u << n); mask++)
  {
    if (!VF_MINE (mask)) continue;
    arr_t s;
    iot_data_t * vec = build (&s, n, mask);
    apply (vec, &s, 10);
    for (uint32_t i = 0; i < s.n; i++) VF_ASSERT (iot_data_vector_get (vec, i) == s.v[i], "compaction keeps the elements in order");
    VF_ASSERT (iot_data_vector_size (vec) == s.n, "compaction drops the empty slots");
    iot_data_vector_resize (vec, 6);
    for (uint32_t i = 0; i < 6; i++) VF_ASSERT (iot_data_vector_get (vec, i) == (i < s.n ? s.v[i] : NULL), "growing afterwards adds empty slots");
    iot_data_free (vec);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}

/* conversion to an array or typed vector; element: 0 empty, 1 int32, 2 text, 3 double, 4 nested vector of an int16 and an empty slot, 5 bool */
#define KINDS 6
static iot_data_t * kind (uint32_t k)
{
  switch (k)
  {
    case 1: return iot_data_alloc_i32 (vf_i32 ());
    case 2: return iot_data_alloc_string ("ab", IOT_DATA_REF);
    case 3: return iot_data_alloc_ui64 (vf_u64 ());
    case 4: { iot_data_t * v = iot_data_alloc_vector (3); iot_data_vector_add (v, 0, iot_data_alloc_i16 (vf_i16 ())); iot_data_vector_add (v, 2, iot_data_alloc_string ("x", IOT_DATA_REF)); return v; }
    case 5: return iot_data_alloc_bool (true);
    default: return NULL;
  }
}
static const iot_data_t * leaf (const iot_data_t * v, bool recurse) { return (v && iot_data_type (v) == IOT_DATA_VECTOR && recurse) ? iot_data_vector_get (v, 0) : v; }
/*@ OBL D06.convert prop=D06,D04 class=bounded light=1 split=12 unwind=40 cost=4 flags="--object-bits 14" fns=iot_data_vector_to_array,iot_data_vector_to_vector,iot_data_vector_element_count,iot_data_vector_elements,iot_data_vector_copy_to_array,iot_data_vector_copy_to_vector bound="vectors of 3 slots, each empty, integer, text, boolean or a nested vector; target types int8, int32, uint64, bool"
*/
void h_convert (void)
{
  vf_data_init ();
  static const uint8_t to [4] = { IOT_DATA_INT8, IOT_DATA_INT32, IOT_DATA_UINT64, IOT_DATA_BOOL };
  uint32_t code = 0;
  for (uint32_t a = 0; a < KINDS; a++) for (uint32_t b = 0; b < KINDS; b++) for (uint32_t r = 0; r < 2; r++)
  {
    uint32_t c = (a + b + 1) % KINDS, ti = (a + 2 * b) % 4;
    if (!VF_MINE (code++)) continue;
    iot_data_type_t t = (iot_data_type_t) to [ti];
    uint32_t ts = iot_data_type_size (t);
    uint32_t k [3] = { a, b, c };
    iot_data_t * vec = iot_data_alloc_vector (3);
    uint8_t exp [3 * 8];
    uint32_t n = 0, vecs = 0, ints = 0;
    for (uint32_t i = 0; i < 3; i++)
    {
      iot_data_t * e = kind (k[i]);
      if (e) iot_data_vector_add (vec, i, e);
      if (k[i] == 4 && !r) vecs++;
      if (k[i] == 4 && r) vecs = vecs;
      if (k[i] == 1) ints++;
      const iot_data_t * l = leaf (e, r);
      iot_data_union_t out = { .ui64 = 0 };
      if (l && iot_data_cast (l, t, &out)) { memcpy (exp + n * ts, &out, ts); n++; }
    }
    VF_ASSERT (iot_data_vector_element_count (vec, IOT_DATA_VECTOR, r) == vecs, "count of nested vectors");
    VF_ASSERT (iot_data_vector_element_count (vec, IOT_DATA_INT32, r) == ints, "count of integers");
    iot_data_t * arr = iot_data_vector_to_array (vec, t, r);
    VF_ASSERT (iot_data_type (arr) == IOT_DATA_ARRAY && iot_data_array_type (arr) == t && iot_data_array_length (arr) == n, "the convertible elements, as the requested type");
    if (n) VF_ASSERT (memcmp (iot_data_address (arr), exp, n * ts) == 0, "in order");
    iot_data_t * tv = iot_data_vector_to_vector (vec, t, r);
    VF_ASSERT (iot_data_vector_type (tv) == t && iot_data_vector_size (tv) == n, "the convertible elements, as a typed vector");
    for (uint32_t i = 0; i < 3; i++) if (i < n) VF_ASSERT (iot_data_type (iot_data_vector_get (tv, i)) == t && memcmp (iot_data_address (iot_data_vector_get (tv, i)), exp + i * ts, ts) == 0, "typed elements in order");
    iot_data_free (tv);
    iot_data_free (arr);
    iot_data_free (vec);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}

/*@ OBL D06.dims prop=D06,D04 class=bounded split=6 unwind=40 cost=3 flags="--object-bits 14" fns=iot_data_vector_dimensions,iot_data_vector_depth,iot_data_vector_dims bound="vectors of up to 2 rows of up to 2 elements, one level deeper for one of them"
*/
void h_dims (void)
{
  vf_data_init ();
  uint32_t code = 0;
  /* rows: number of rows; w0, w1: their widths (3: not a vector, 4: a row holding one vector of one element) */
  for (uint32_t rows = 0; rows <= 2; rows++) for (uint32_t w0 = 0; w0 < 5; w0++) for (uint32_t w1 = 0; w1 < 5; w1++)
  {
    if (rows < 2 && w1) continue;
    if (rows == 0 && w0) continue;
    if (!VF_MINE (code++)) continue;
    uint32_t w [2] = { w0, w1 };
    iot_data_t * vec = iot_data_alloc_vector (rows);
    for (uint32_t i = 0; i < rows; i++)
    {
      iot_data_t * row;
      if (w[i] == 3) row = iot_data_alloc_i32 (1);
      else
      {
        row = iot_data_alloc_vector (w[i] == 4 ? 1 : w[i]);
        if (w[i] == 4) { iot_data_t * in = iot_data_alloc_vector (1); iot_data_vector_add (in, 0, iot_data_alloc_i32 (2)); iot_data_vector_add (row, 0, in); }
        else for (uint32_t j = 0; j < w[i]; j++) iot_data_vector_add (row, j, iot_data_alloc_i32 (2));
      }
      iot_data_vector_add (vec, i, row);
    }
    uint32_t total = 77;
    iot_data_t * d = iot_data_vector_dimensions (vec, &total);
    if (rows == 0 || w0 == 3 || (rows == 2 && w1 == 3))
    {
      VF_ASSERT (d && iot_data_array_length (d) == 1 && *(const uint32_t*) iot_data_address (d) == rows && total == rows, "a vector with an element that is not a vector has one dimension");
    }
    else if (rows == 1 || w0 == w1)
    {
      if (w0 && w0 != 4)
      {
        VF_ASSERT (d && iot_data_array_length (d) == 2, "two dimensions");
        VF_ASSERT (((const uint32_t*) iot_data_address (d))[0] == rows && ((const uint32_t*) iot_data_address (d))[1] == w0 && total == rows * w0, "sizes of the dimensions and total");
      }
      if (w0 == 4)
      {
        VF_ASSERT (d && iot_data_array_length (d) == 3, "three dimensions");
        VF_ASSERT (((const uint32_t*) iot_data_address (d))[0] == rows && ((const uint32_t*) iot_data_address (d))[1] == 1 && ((const uint32_t*) iot_data_address (d))[2] == 1 && total == rows, "sizes of the dimensions and total");
      }
    }
    else if (w0 && w1 && w0 < 3 && w1 < 3) VF_ASSERT (d == NULL && total == 0, "rows of different lengths have no dimensions");
    iot_data_free (d);
    iot_data_free (vec);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}

/*@ OBL D06.typed class=bounded unwind=12 fns=iot_data_alloc_typed_vector,iot_data_vector_type,iot_data_vector_get_pointer,iot_data_vector_iter_string_value,iot_data_vector_iter_pointer_value,iot_data_vector_iter_string bound="vectors of 2 elements"
*/
void h_typed (void)
{
  vf_data_init ();
  iot_data_vector_iter_t it;
  iot_data_t * v = iot_data_alloc_typed_vector (2, IOT_DATA_STRING);
  VF_ASSERT (iot_data_type (v) == IOT_DATA_VECTOR && iot_data_vector_type (v) == IOT_DATA_STRING && iot_data_vector_size (v) == 2, "typed vector");
  iot_data_vector_add (v, 1, iot_data_alloc_string ("ab", IOT_DATA_REF));
  iot_data_vector_add (v, 0, iot_data_alloc_string ("c", IOT_DATA_COPY));
  VF_ASSERT (iot_data_vector_get_pointer (v, 0) == NULL && iot_data_vector_get_pointer (v, vf_u32 ()) == NULL, "text is no pointer");
  iot_data_vector_iter (v, &it);
  VF_ASSERT (iot_data_vector_iter_string (&it) == NULL && iot_data_vector_iter_string_value (&it) == NULL && iot_data_vector_iter_pointer_value (&it) == NULL, "no value before the first step");
  iot_data_vector_iter_next (&it);
  VF_ASSERT (strcmp (iot_data_vector_iter_string (&it), "c") == 0 && strcmp (iot_data_vector_iter_string_value (&it), "c") == 0, "text of the first");
  iot_data_vector_iter_next (&it);
  VF_ASSERT (strcmp (iot_data_vector_iter_string (&it), "ab") == 0, "text of the second");
  iot_data_free (v);
  v = iot_data_alloc_vector (1);
  VF_ASSERT (iot_data_vector_type (v) == IOT_DATA_MULTI && iot_data_vector_get_pointer (v, 0) == NULL, "empty slot");
  iot_data_vector_iter (v, &it);
  iot_data_vector_iter_next (&it);
  VF_ASSERT (iot_data_vector_iter_string_value (&it) == NULL && iot_data_vector_iter_pointer_value (&it) == NULL, "empty slot during iteration");
  iot_data_vector_add (v, 0, iot_data_alloc_pointer (&it, NULL));
  VF_ASSERT (iot_data_vector_get_pointer (v, 0) == &it && iot_data_vector_iter_pointer_value (&it) == &it, "pointer");
  iot_data_free (v);
  VF_ASSERT (vf_live == 0, "everything is released");
  VF_REACH ("end");
}

#ifdef LOCAL
/* contracts for vectors of any size */
/*@ OBL D06.any_size class=proved defs=-DLOCAL unwind=12 cost=2 flags="--object-bits 14 --unwindset iot_data_free:1,iot_data_hash:1,iot_node_free:1,iot_node_delete:1" fns=iot_data_vector_add,iot_data_vector_get,iot_data_vector_iter_replace_value,iot_data_vector_iter_value,iot_data_vector_size
*/
void h_any_size (void)
{
  vf_data_init ();
  iot_data_vector_t v = { 0 };
  v.base.type = IOT_DATA_VECTOR; v.base.element_type = IOT_DATA_MULTI; v.base.refs = 1; v.base.hash = vf_u32 (); v.base.rehash = vf_bool ();
  bool r0 = v.base.rehash; uint32_t h0 = v.base.hash;
  v.size = vf_range (1, 1u << 20);
  iot_data_t ** slots = (malloc) (v.size * sizeof (iot_data_t*));
  v.values = slots;
  uint32_t i = vf_below (v.size), k = vf_below (v.size);
  bool had = vf_bool (), iter = vf_bool ();
  iot_data_t * old = had ? iot_data_alloc_i32 (vf_i32 ()) : NULL, * x = iot_data_alloc_i32 (vf_i32 ());
  v.values[i] = old;
  iot_data_t * other = v.values[k];
  long live = vf_live;
  if (iter)
  {
    iot_data_vector_iter_t it = { &v, i };
    VF_ASSERT (iot_data_vector_iter_replace_value (&it, x) == old, "replacing returns the old element");
    VF_ASSERT (iot_data_vector_iter_value (&it) == x, "and stores the new one");
    iot_data_free (old);
  }
  else iot_data_vector_add (&v.base, i, x);
  VF_ASSERT (iot_data_vector_get (&v.base, i) == x, "the element is stored at its index");
  if (k != i) VF_ASSERT (iot_data_vector_get (&v.base, k) == other, "no other element changes");
  VF_ASSERT (vf_live == live - (had ? 1 : 0), "exactly the old element is released");
  VF_ASSERT (had || r0 ? v.base.rehash : (v.base.rehash || v.base.hash == (h0 ^ iot_data_hash (x))), "the hash covers the new element");
  VF_REACH ("end");
}
/*@ OBL D06.any_iter class=proved defs=-DLOCAL unwind=4 fns=iot_data_vector_iter,iot_data_vector_iter_next,iot_data_vector_iter_prev,iot_data_vector_iter_has_next,iot_data_vector_iter_index
*/
void h_any_iter (void)
{
  iot_data_vector_t v = { 0 };
  v.base.type = IOT_DATA_VECTOR;
  v.size = vf_range (0, UINT32_MAX);
  iot_data_vector_iter_t it;
  iot_data_vector_iter (&v.base, &it);
  VF_ASSERT (iot_data_vector_iter_index (&it) == v.size, "starts outside");
  uint32_t at = vf_range (0, v.size);
  it._index = at;
  bool has = iot_data_vector_iter_has_next (&it);
  iot_data_vector_iter_t n = it, p = it;
  VF_ASSERT (iot_data_vector_iter_next (&n) == has, "has_next tells whether a step succeeds");
  VF_ASSERT (iot_data_vector_iter_index (&n) == (at < v.size ? at + 1 : 0), "a step forward moves to the following index, from outside to the first");
  VF_ASSERT (has == (iot_data_vector_iter_index (&n) < v.size), "a step succeeds inside the vector");
  bool pr = iot_data_vector_iter_prev (&p);
  VF_ASSERT (iot_data_vector_iter_index (&p) == (at > 0 ? at - 1 : v.size) && pr == (iot_data_vector_iter_index (&p) < v.size), "a step backward moves to the preceding index, from the first to outside");
  VF_REACH ("end");
}
#endif
