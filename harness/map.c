/* D07: maps against the mathematical dictionary.  Keys are concrete (they decide the shape of the
 * tree, which is enumerated), stored values are arbitrary. */
#include "vf_data.h"

#define UNIV 9
typedef struct { iot_data_t * v [UNIV]; uint32_t n; } dict_t;   /* v[k]: value stored under key k */

#ifdef TEXTKEYS
/* separate arrays: the addresses of string literals are not known to differ */
static const char n0 [] = "", n1 [] = "a", n2 [] = "aa", n3 [] = "ab", n4 [] = "b", n5 [] = "ba", n6 [] = "c", n7 [] = "cd", n8 [] = "ce";
static const char * const names [UNIV] = { n0, n1, n2, n3, n4, n5, n6, n7, n8 };
#define KEYTYPE IOT_DATA_STRING
static iot_data_t * key (uint32_t k) { return iot_data_alloc_string (names[k], IOT_DATA_REF); }
static bool key_is (const iot_data_t * d, uint32_t k) { return strcmp (iot_data_string (d), names[k]) == 0; }
#else
#define KEYTYPE IOT_DATA_INT32
static iot_data_t * key (uint32_t k) { return iot_data_alloc_i32 ((int32_t) k - 4); }
static bool key_is (const iot_data_t * d, uint32_t k) { return iot_data_i32 (d) == (int32_t) k - 4; }
#endif

static void dict_check (iot_data_t * map, const dict_t * s, uint32_t univ)
{
  VF_ASSERT (iot_data_map_size (map) == s->n && iot_data_length (map) == s->n, "size is the number of distinct keys");
  const iot_data_t * first = NULL, * last = NULL;
  for (uint32_t k = 0; k < univ; k++)
  {
    iot_data_t * x = key (k);
    VF_ASSERT (iot_data_map_get (map, x) == s->v[k], "a lookup returns the value last stored under the key, or nothing");
    iot_data_free (x);
    if (s->v[k]) { if (!first) first = s->v[k]; last = s->v[k]; }
  }
  VF_ASSERT (iot_data_map_start (map) == first && iot_data_map_end (map) == last, "first and last entries are those of the smallest and largest keys");
  iot_data_map_iter_t it;
  iot_data_iter_t git;
  iot_data_map_iter (map, &it);
  iot_data_iter (map, &git);
  VF_ASSERT (iot_data_map_iter_key (&it) == NULL && iot_data_map_iter_value (&it) == NULL, "no entry before the first step");
  VF_ASSERT (iot_data_map_iter_has_next (&it) == (s->n > 0) && iot_data_iter_has_next (&git) == (s->n > 0), "has_next at the start");
  uint32_t seen = 0;
  for (uint32_t k = 0; k < univ; k++)
  {
    if (!s->v[k]) continue;
    VF_ASSERT (iot_data_map_iter_next (&it) && iot_data_iter_next (&git), "forward iteration visits every key");
    VF_ASSERT (key_is (iot_data_map_iter_key (&it), k) && iot_data_map_iter_value (&it) == s->v[k] && iot_data_iter_value (&git) == s->v[k], "in ascending order");
    seen++;
    VF_ASSERT (iot_data_map_iter_has_next (&it) == (seen < s->n) && iot_data_iter_has_next (&git) == (seen < s->n), "has_next while positioned");
  }
  VF_ASSERT (!iot_data_map_iter_next (&it) && !iot_data_iter_next (&git), "and ends after the largest key");
  iot_data_map_iter (map, &it);
  iot_data_iter (map, &git);
  for (uint32_t k = univ; k > 0; k--)
  {
    if (!s->v[k - 1]) continue;
    VF_ASSERT (iot_data_map_iter_prev (&it) && iot_data_iter_prev (&git), "backward iteration visits every key");
    VF_ASSERT (key_is (iot_data_map_iter_key (&it), k - 1) && iot_data_map_iter_value (&it) == s->v[k - 1] && iot_data_iter_value (&git) == s->v[k - 1], "in descending order");
  }
  VF_ASSERT (!iot_data_map_iter_prev (&it) && !iot_data_iter_prev (&git), "and ends after the smallest key");
}
/* value, hash and equality do not depend on the history */
static void dict_hash (const iot_data_t * map, const dict_t * s, uint32_t univ)
{
  iot_data_t * other = iot_data_alloc_map (KEYTYPE);
  for (uint32_t k = 0; k < univ; k++) if (s->v[k]) iot_data_map_add (other, key (k), iot_data_alloc_i64 (iot_data_i64 (s->v[k])));
  VF_ASSERT (iot_data_hash (map) == iot_data_hash (other), "a map hashes like a freshly built map of the same pairs");
  VF_ASSERT (iot_data_equal (map, other), "a map equals a freshly built map of the same pairs");
  iot_data_free (other);
}
static void put (iot_data_t * map, dict_t * s, uint32_t k)
{
  iot_data_t * x = iot_data_alloc_i64 (vf_i64 ());
  iot_data_map_add (map, key (k), x);
  if (!s->v[k]) s->n++;
  s->v[k] = x;
}
static void del (iot_data_t * map, dict_t * s, uint32_t k)
{
  iot_data_t * x = key (k);
  VF_ASSERT (iot_data_map_remove (map, x) == (s->v[k] != NULL), "removal reports whether the key was present");
  iot_data_free (x);
  if (s->v[k]) s->n--;
  s->v[k] = NULL;
}
/* operations with key or position p */
#define OPS 8
static bool apply (iot_data_t * map, dict_t * s, uint32_t op, uint32_t p, uint32_t univ)
{
  iot_data_map_iter_t it;
  iot_data_t * x, * y;
  switch (op)
  {
    case 0: put (map, s, p); break;
    case 1: del (map, s, p); break;
    case 2:
      x = iot_data_alloc_i64 (vf_i64 ()); y = key (p);
      if (iot_data_map_add_unused (map, y, x))
      {
        VF_ASSERT (s->v[p] == NULL, "a conditional insertion only stores under a free key");
        s->v[p] = x; s->n++;
      }
      else
      {
        VF_ASSERT (s->v[p] != NULL, "a conditional insertion stores under a free key");
        iot_data_free (x); iot_data_free (y);
      }
      break;
    case 3:   /* replace during iteration, at position p */
      if (p >= s->n) return false;
      iot_data_map_iter (map, &it);
      x = iot_data_alloc_i64 (vf_i64 ());
      VF_ASSERT (iot_data_map_iter_replace_value (&it, x) == NULL, "nothing is replaced before the first step");
      for (uint32_t i = 0; i <= p; i++) iot_data_map_iter_next (&it);
      y = iot_data_map_iter_replace_value (&it, x);
      for (uint32_t k = 0, i = 0; k < univ; k++)
      {
        if (!s->v[k]) continue;
        if (i++ == p) { VF_ASSERT (y == s->v[k], "replacing returns the old value"); s->v[k] = x; }
      }
      iot_data_free (y);
      break;
    case 4:
      if (p) return false;
      iot_data_map_empty (map);
      for (uint32_t k = 0; k < univ; k++) s->v[k] = NULL;
      s->n = 0;
      break;
    case 5:   /* merge with a map holding p and p + 1 */
    {
      iot_data_t * add = iot_data_alloc_map (KEYTYPE);
      dict_t t = { { 0 }, 0 };
      put (add, &t, p);
      if (p + 1 < univ) put (add, &t, p + 1);
      iot_data_map_merge (map, add);
      for (uint32_t k = 0; k < univ; k++) if (t.v[k]) { if (!s->v[k]) s->n++; s->v[k] = t.v[k]; }
      dict_check (add, &t, univ);
      iot_data_free (add);
      break;
    }
    case 6: if (p) return false; iot_data_hash (map); break;
    default: if (p) return false; iot_data_map_merge (map, NULL); break;
  }
  return true;
}
/* n keys in the order p; the keys are the odd numbers, so that operations with any key hit every gap */
static const uint8_t orders [4][6][3] = { { { 0 } }, { { 1 } }, { { 1, 3 }, { 3, 1 } }, { { 1, 3, 5 }, { 1, 5, 3 }, { 3, 1, 5 }, { 3, 5, 1 }, { 5, 1, 3 }, { 5, 3, 1 } } };
static const uint8_t norders [4] = { 1, 1, 2, 6 };

/*@ OBL D07.ops prop=D07 class=bounded light=1 split=8 unwind=70 cost=5 flags="--object-bits 14" fns=iot_data_map_add,iot_data_map_remove,iot_data_map_add_unused,iot_data_map_iter_replace_value,iot_data_map_empty,iot_data_map_merge,iot_data_map_get,iot_data_map_size,iot_data_map_start,iot_data_map_end,iot_data_map_iter,iot_data_map_iter_next,iot_data_map_iter_prev,iot_data_map_iter_has_next,iot_node_add,iot_node_remove,iot_node_find bound="every operation on every map built from up to 3 insertions in any order, keys from a universe of 4"
*/
/*@ OBL D07.safe prop=D07,D04,D01 class=bounded split=8 defs=-DMAXN=2 unwind=70 cost=5 flags="--object-bits 14" fns=iot_data_map_add,iot_data_map_remove,iot_data_map_add_unused,iot_data_map_iter_replace_value,iot_data_map_empty,iot_data_map_merge,iot_node_add,iot_node_remove,iot_node_find bound="every operation on every map built from up to 2 insertions in any order, keys from a universe of 4, memory safety included"
*/
/*@ OBL D07.text prop=D07 class=bounded light=1 split=8 defs="-DTEXTKEYS -DMAXN=2" unwind=70 cost=5 flags="--object-bits 14" fns=iot_data_map_add,iot_data_map_remove,iot_node_add,iot_node_remove,iot_node_find bound="every operation on every map built from up to 2 insertions of text keys"
*/
/*@ OBL D07.text_more prop=D07,D04,D01 class=bounded tier=thorough light=1 timeout=400 split=16 defs="-DTEXTKEYS -DMAXN=3" unwind=70 cost=5 flags="--object-bits 14" fns=iot_data_map_add,iot_data_map_remove,iot_node_add,iot_node_remove,iot_node_find bound="every operation on every map built from up to 3 insertions of text keys"
*/
/*@ OBL D07.safe_more prop=D07,D04 class=bounded tier=thorough timeout=400 split=16 defs=-DMAXN=3 unwind=70 cost=5 flags="--object-bits 14" fns=iot_data_map_add,iot_data_map_remove,iot_data_map_add_unused,iot_data_map_iter_replace_value,iot_data_map_empty,iot_data_map_merge,iot_node_add,iot_node_remove,iot_node_find bound="every operation on every map built from up to 3 insertions in any order, memory safety included"
*/
#ifndef MAXN
#define MAXN 3
#endif
void h_ops (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (uint32_t n = 0; n <= MAXN; n++) for (uint32_t p = 0; p < norders[n]; p++)
  {
    const uint32_t univ = 2 * n + 1;
    for (uint32_t op = 0; op < OPS; op++) for (uint32_t k = 0; k < univ; k++)
    {
      if (op >= 4 && op != 5 && k) continue;
      if (op == 3 && k >= n) continue;
      if (op == 5 && k % 2 && k != 1) continue;
      if (!VF_MINE (code++)) continue;
      iot_data_t * map = iot_data_alloc_map (KEYTYPE);
      dict_t s = { { 0 }, 0 };
      for (uint32_t i = 0; i < n; i++) put (map, &s, orders[n][p][i]);
      if (apply (map, &s, op, k, univ)) { dict_check (map, &s, univ); dict_hash (map, &s, univ); }
      iot_data_free (map);
      VF_ASSERT (vf_live == 0, "everything is released");
    }
  }
  VF_REACH ("end");
}

/* longer histories: insertions of many keys in an order, removals in another, checked after every step */
/*@ OBL D07.long prop=D07 class=bounded light=1 split=16 unwind=80 cost=6 flags="--object-bits 14" fns=iot_node_add,iot_node_remove,iot_node_balance_insert,iot_node_rotate_left,iot_node_rotate_right,iot_node_next,iot_node_prev bound="32 orders of insertion of 9 keys followed by removal of 8, all values"
*/
/*@ OBL D07.long_more prop=D07 class=bounded tier=thorough split=64 unwind=300 cost=6 defs=-DRUNS=256 flags="--object-bits 14" fns=iot_node_add,iot_node_remove bound="256 orders of insertion of 9 keys followed by removal of 8, memory safety included"
*/
#ifndef RUNS
#define RUNS 32
#endif
void h_long (void)
{
  vf_data_init ();
  for (uint32_t r = 0; r < RUNS; r++)
  {
    if (!VF_MINE (r)) continue;
    iot_data_t * map = iot_data_alloc_map (KEYTYPE);
    dict_t s = { { 0 }, 0 };
    uint32_t x = r * 2654435761u + 12345u;
    uint8_t o [UNIV];
    for (uint32_t i = 0; i < UNIV; i++) o[i] = (uint8_t) i;
    if (r == 1) for (uint32_t i = 0; i < UNIV; i++) o[i] = (uint8_t) (UNIV - 1 - i);
    if (r > 1) for (uint32_t i = UNIV - 1; i > 0; i--) { x = x * 1664525u + 1013904223u; uint32_t j = (x >> 16) % (i + 1); uint8_t t = o[i]; o[i] = o[j]; o[j] = t; }
    for (uint32_t i = 0; i < UNIV; i++) put (map, &s, o[i]);
    dict_check (map, &s, UNIV);
    if (r > 3) for (uint32_t i = UNIV - 1; i > 0; i--) { x = x * 1664525u + 1013904223u; uint32_t j = (x >> 16) % (i + 1); uint8_t t = o[i]; o[i] = o[j]; o[j] = t; }
    for (uint32_t i = 0; i < UNIV - 1; i++)
    {
      del (map, &s, o[i]);
      dict_check (map, &s, UNIV);
    }
    put (map, &s, o[2]);
    dict_check (map, &s, UNIV);
    dict_hash (map, &s, UNIV);
    iot_data_free (map);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}

/* arbitrary integer keys */
/*@ OBL D07.any_keys prop=D07 class=bounded light=1 unwind=12 cost=8 flags="--object-bits 14" fns=iot_data_map_add,iot_data_map_get,iot_node_find bound="2 insertions and a lookup, arbitrary keys"
*/
void h_any_keys (void)
{
  vf_data_init ();
  int32_t a = vf_i32 (), b = vf_i32 (), c = vf_i32 ();
  iot_data_t * map = iot_data_alloc_map (IOT_DATA_INT32);
  iot_data_t * va = iot_data_alloc_i64 (vf_i64 ()), * vb = iot_data_alloc_i64 (vf_i64 ());
  iot_data_t * kc = iot_data_alloc_i32 (c);
  iot_data_map_add (map, iot_data_alloc_i32 (a), va);
  iot_data_map_add (map, iot_data_alloc_i32 (b), vb);
  VF_ASSERT (iot_data_map_size (map) == (a == b ? 1 : 2), "size is the number of distinct keys");
  VF_ASSERT (iot_data_map_get (map, kc) == (c == b ? vb : (c == a ? va : NULL)), "a lookup returns the value last stored");
  if (a != b) VF_ASSERT (iot_data_map_start (map) == (a < b ? va : vb) && iot_data_map_end (map) == (a < b ? vb : va), "smallest and largest");
  VF_REACH ("end");
}

/*@ OBL D07.misc prop=D07,D12 class=bounded unwind=16 fns=iot_data_map_key_type,iot_data_map_key_is_of_type,iot_data_map_type,iot_data_string_map_add,iot_data_string_map_remove,iot_data_string_map_get,iot_data_map_iter_string_key,iot_data_map_iter_string_value,iot_data_map_iter_pointer_value,iot_data_map_iter_bool_value,iot_data_map_start_pointer,iot_data_map_end_pointer,iot_data_map_get_string,iot_data_map_get_pointer,iot_data_map_get_vector,iot_data_map_get_map,iot_data_map_get_array,iot_data_map_get_list,iot_data_map_get_typed bound="one map with a value of each kind"
*/
void h_misc (void)
{
  vf_data_init ();
  iot_data_map_iter_t it;
  static const char k0 [] = "a", k1 [] = "b", k2 [] = "c", k3 [] = "d", k4 [] = "e", k5 [] = "f", k6 [] = "g", k7 [] = "h", kx [] = "x";
  static const char * const k [8] = { k0, k1, k2, k3, k4, k5, k6, k7 };
  iot_data_t * map = iot_data_alloc_map (IOT_DATA_STRING);
  VF_ASSERT (iot_data_map_key_type (map) == IOT_DATA_STRING && iot_data_map_key_is_of_type (map, IOT_DATA_STRING) && !iot_data_map_key_is_of_type (map, IOT_DATA_INT8) && !iot_data_map_key_is_of_type (NULL, IOT_DATA_STRING), "key type");
  VF_ASSERT (iot_data_map_type (map) == IOT_DATA_MULTI && iot_data_map_start (map) == NULL && iot_data_map_end (map) == NULL && iot_data_map_start_pointer (map) == NULL && iot_data_map_end_pointer (map) == NULL, "empty map");
  iot_data_t * v [8];
  v[0] = iot_data_alloc_string ("t", IOT_DATA_REF); v[1] = iot_data_alloc_pointer (map, NULL); v[2] = iot_data_alloc_vector (1); v[3] = iot_data_alloc_map (IOT_DATA_INT8);
  v[4] = iot_data_alloc_array (NULL, 0, IOT_DATA_INT8, IOT_DATA_REF); v[5] = iot_data_alloc_list (); v[6] = iot_data_alloc_bool (true); v[7] = iot_data_alloc_pointer (&it, NULL);
  for (uint32_t i = 0; i < 8; i++) iot_data_string_map_add (map, k[i], v[i]);
  VF_ASSERT (!iot_data_string_map_remove (map, kx) && !iot_data_string_map_remove (map, NULL) && !iot_data_map_remove (map, NULL), "absent keys are not removed");
  iot_data_map_iter (map, &it);
  VF_ASSERT (iot_data_map_iter_string_key (&it) == NULL && iot_data_map_iter_string_value (&it) == NULL && iot_data_map_iter_pointer_value (&it) == NULL && !iot_data_map_iter_bool_value (&it), "no entry before the first step");
  for (uint32_t i = 0; i < 8; i++)
  {
    iot_data_t * key = iot_data_alloc_string (k[i], IOT_DATA_REF);
    VF_ASSERT (iot_data_string_map_get (map, k[i]) == v[i] && iot_data_map_get (map, key) == v[i], "text lookup");
    VF_ASSERT ((iot_data_map_get_string (map, key) != NULL) == (i == 0) && (iot_data_string_map_get_string (map, k[i]) != NULL) == (i == 0), "text values");
    VF_ASSERT (iot_data_map_get_pointer (map, key) == (i == 1 ? (void*) map : i == 7 ? (void*) &it : NULL) && iot_data_string_map_get_pointer (map, k[i]) == iot_data_map_get_pointer (map, key), "pointer values");
    VF_ASSERT (iot_data_map_get_vector (map, key) == (i == 2 ? v[2] : NULL) && iot_data_string_map_get_vector (map, k[i]) == (i == 2 ? v[2] : NULL), "vector values");
    VF_ASSERT (iot_data_map_get_map (map, key) == (i == 3 ? v[3] : NULL) && iot_data_string_map_get_map (map, k[i]) == (i == 3 ? v[3] : NULL), "map values");
    VF_ASSERT (iot_data_map_get_array (map, key) == (i == 4 ? v[4] : NULL), "array values");
    VF_ASSERT (iot_data_map_get_list (map, key) == (i == 5 ? v[5] : NULL) && iot_data_string_map_get_list (map, k[i]) == (i == 5 ? v[5] : NULL), "list values");
    VF_ASSERT (iot_data_map_get_typed (map, key, iot_data_type (v[i])) == v[i] && iot_data_map_get_typed (map, key, IOT_DATA_UINT16) == NULL, "typed lookup");
    iot_data_map_iter_next (&it);
    VF_ASSERT (strcmp (iot_data_map_iter_string_key (&it), k[i]) == 0, "text key");
    if (i == 0) VF_ASSERT (strcmp (iot_data_map_iter_string_value (&it), "t") == 0, "text value");
    if (i == 1) VF_ASSERT (iot_data_map_iter_pointer_value (&it) == map, "pointer value");
    if (i == 6) VF_ASSERT (iot_data_map_iter_bool_value (&it), "boolean value");
    iot_data_free (key);
  }
  VF_ASSERT (iot_data_map_end_pointer (map) == &it, "last value");
  VF_ASSERT (iot_data_string_map_remove (map, k0) && iot_data_string_map_get (map, k0) == NULL && iot_data_map_start_pointer (map) == map, "removal by text");
  iot_data_free (map);
  VF_ASSERT (vf_live == 0, "everything is released");
  VF_REACH ("end");
}
