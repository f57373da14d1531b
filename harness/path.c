/* D09: path operations give a modified copy and leave the original untouched */
#include "kinds.h"

static const char kn [4][2] = { "a", "b", "c", "d" };
static iot_data_t * name (uint32_t i) { return iot_data_alloc_string (kn[i], IOT_DATA_REF); }
/* documents; the numbers are arbitrary */
#define DOCS 4
static iot_data_t * doc (uint32_t n)
{
  iot_data_t * d, * e, * f;
  switch (n)
  {
    case 0:   /* { a: n, b: { a: n, c: text }, c: [ n, { a: n } ] } */
      d = iot_data_alloc_map (IOT_DATA_STRING);
      iot_data_map_add (d, name (0), ki32 (0));
      e = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (e, name (0), ki32 (1)); iot_data_map_add (e, name (2), iot_data_alloc_string (kt_short, IOT_DATA_COPY));
      iot_data_map_add (d, name (1), e);
      e = iot_data_alloc_vector (2); f = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (f, name (0), ki32 (2)); iot_data_vector_add (e, 0, ki32 (3)); iot_data_vector_add (e, 1, f);
      iot_data_map_add (d, name (2), e);
      return d;
    case 1:   /* [ n, [ n, -, n ], { b: n } ] */
      d = iot_data_alloc_vector (3);
      iot_data_vector_add (d, 0, ki32 (0));
      e = iot_data_alloc_vector (3); iot_data_vector_add (e, 0, ki32 (1)); iot_data_vector_add (e, 2, ki32 (2));
      iot_data_vector_add (d, 1, e);
      e = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (e, name (1), ki32 (3));
      iot_data_vector_add (d, 2, e);
      return d;
    case 2:   /* {} */
      return iot_data_alloc_map (IOT_DATA_STRING);
    default:  /* [ - ] */
      return iot_data_alloc_vector (1);
  }
}
/* steps: 0 to 3 name a key, 4 to 7 an index */
typedef struct { uint8_t n; uint8_t s [3]; } path_t;
static iot_data_t * step (uint8_t s) { return s < 4 ? name (s) : iot_data_alloc_ui32 (s - 4u); }
static iot_data_t * mkpath (const path_t * p)
{
  iot_data_t * l = iot_data_alloc_list ();
  for (uint32_t i = 0; i < p->n; i++) iot_data_list_tail_push (l, step (p->s[i]));
  return l;
}
/* what is reached by one step, or nothing */
static const iot_data_t * child (const iot_data_t * d, uint8_t s)
{
  if (!d) return NULL;
  if (iot_data_type (d) == IOT_DATA_MAP && s < 4)
  {
    iot_data_map_iter_t it;
    iot_data_map_iter (d, &it);
    while (iot_data_map_iter_next (&it)) if (iot_data_map_iter_string_key (&it)[0] == kn[s][0]) return iot_data_map_iter_value (&it);
    return NULL;
  }
  if (iot_data_type (d) == IOT_DATA_VECTOR && s >= 4) return s - 4u < iot_data_vector_size (d) ? iot_data_vector_get (d, s - 4u) : NULL;
  return NULL;
}
static const iot_data_t * reached (const iot_data_t * d, const path_t * p)
{
  for (uint32_t i = 0; d && i < p->n; i++) d = child (d, p->s[i]);
  return d;
}

static const path_t paths [] = {
  { 0, { 0 } }, { 1, { 0 } }, { 1, { 1 } }, { 1, { 3 } }, { 2, { 1, 0 } }, { 2, { 1, 2 } }, { 2, { 1, 3 } }, { 2, { 2, 4 } }, { 2, { 2, 5 } }, { 3, { 2, 5, 0 } }, { 3, { 2, 5, 1 } },
  { 1, { 4 } }, { 1, { 5 } }, { 2, { 5, 4 } }, { 2, { 5, 5 } }, { 2, { 5, 6 } }, { 2, { 6, 1 } }, { 2, { 6, 0 } },
  /* beyond the end, steps of the wrong kind, steps through leaves */
  { 1, { 7 } }, { 2, { 5, 7 } }, { 2, { 2, 0 } }, { 2, { 0, 0 } }, { 2, { 4, 4 } }, { 3, { 1, 2, 0 } }, { 3, { 3, 0, 0 } }, { 2, { 3, 4 } } };
#define PATHS (sizeof (paths) / sizeof (paths[0]))

/*@ OBL D09.get_safe prop=D09 class=bounded split=2 defs=-DDOC=1 unwind=40 cost=3 flags="--object-bits 14" fns=iot_data_get_at bound="one document of 2 levels, 26 paths, memory safety included"
*/
/*@ OBL D09.get prop=D09 class=bounded split=4 light=1 unwind=40 cost=3 flags="--object-bits 14" fns=iot_data_get_at bound="4 documents of up to 3 levels, 26 paths of up to 3 steps, all numbers"
*/
void h_get (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (uint32_t d = 0; d < DOCS; d++) for (uint32_t p = 0; p < PATHS; p++)
  {
#ifdef DOC
    if (d != DOC) continue;
#endif
    if (!VF_MINE (code++)) continue;
    kv_any ();
    iot_data_t * x = doc (d), * m = doc (d), * l = mkpath (&paths[p]), * lm = mkpath (&paths[p]);
    VF_ASSERT (iot_data_get_at (x, l) == reached (x, &paths[p]), "the value reached, or nothing if the path does not match the data");
    VF_ASSERT (same (x, m) && same (l, lm), "reading changes neither the data nor the path");
    iot_data_free (x); iot_data_free (m); iot_data_free (l); iot_data_free (lm);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}

/* r is d except at the path, where it holds v (add, update), or nothing (remove) */
static bool modified (const iot_data_t * r, const iot_data_t * d, const path_t * p, uint32_t at, const iot_data_t * v)
{
  if (at == p->n) return r == v;
  if (!r || iot_data_type (r) != iot_data_type (d)) return false;
  bool last = at + 1u == p->n, ok = true;
  if (iot_data_type (d) == IOT_DATA_MAP)
  {
    uint32_t n = 0;
    for (uint8_t k = 0; k < 4; k++)
    {
      const iot_data_t * a = child (r, k), * b = child (d, k);
      if (k != p->s[at]) ok = ok && a == b;
      else if (last && !v) ok = ok && a == NULL;
      else ok = ok && modified (a, b, p, at + 1, v);
      if (a) n++;
    }
    return ok && iot_data_map_size (r) == n;
  }
  uint32_t i = p->s[at] - 4u, j = 0;
  if (last && !v)   /* removal also drops the empty slots */
  {
    for (uint32_t k = 0; k < iot_data_vector_size (d); k++)
    {
      const iot_data_t * b = iot_data_vector_get (d, k);
      if (k == i || !b) continue;
      ok = ok && j < iot_data_vector_size (r) && iot_data_vector_get (r, j) == b;
      j++;
    }
    return ok && iot_data_vector_size (r) == j;
  }
  if (iot_data_vector_size (r) != iot_data_vector_size (d)) return false;
  for (uint32_t k = 0; k < iot_data_vector_size (d); k++)
  {
    const iot_data_t * a = iot_data_vector_get (r, k), * b = iot_data_vector_get (d, k);
    ok = ok && (k == i ? modified (a, b, p, at + 1, v) : a == b);
  }
  return ok;
}
static const iot_data_t * upd_seen; static int upd_calls; static iot_data_t * upd_result; static int upd_arg;
static iot_data_t * upd (const iot_data_t * d, void * arg)
{
  VF_ASSERT (arg == &upd_arg, "the argument is passed through");
  upd_seen = d; upd_calls++;
  return upd_result;
}
/* the containers along the path exist and take the step */
static bool walkable (const iot_data_t * d, const path_t * p)
{
  for (uint32_t i = 0; i < p->n; i++)
  {
    if (!d) return false;
    if (iot_data_type (d) == IOT_DATA_MAP ? p->s[i] >= 4 : iot_data_type (d) == IOT_DATA_VECTOR ? p->s[i] < 4 || p->s[i] - 4u >= iot_data_vector_size (d) : true) return false;
    d = child (d, p->s[i]);
  }
  return true;
}
/*@ OBL D09.modify prop=D09 class=bounded split=16 unwind=40 cost=4 light=1 flags="--object-bits 14" fns=iot_data_add_at,iot_data_remove_at,iot_data_update_at,iot_data_shallow_copy bound="4 documents of up to 3 levels, 26 paths of up to 3 steps, adding, removing and updating, all numbers; released in either order"
*/
/*@ OBL D09.safe prop=D09,D04 class=bounded split=8 unwind=40 cost=4 defs=-DDOC=1 flags="--object-bits 14" fns=iot_data_add_at,iot_data_remove_at,iot_data_update_at,iot_data_shallow_copy bound="one document of 2 levels, 26 paths, memory safety included"
*/
/*@ OBL D09.safe_more prop=D09,D04 class=bounded tier=thorough timeout=400 split=16 unwind=40 cost=4 flags="--object-bits 14" fns=iot_data_add_at,iot_data_remove_at,iot_data_update_at,iot_data_shallow_copy bound="4 documents, 26 paths, memory safety included"
*/
void h_modify (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (uint32_t d = 0; d < DOCS; d++) for (uint32_t i = 0; i < PATHS; i++) for (int op = 0; op < 3; op++)
  {
#ifdef DOC
    if (d != DOC) continue;
#endif
    if (!VF_MINE (code++)) continue;
    const path_t * p = &paths[i];
    kv_any ();
    iot_data_t * x = doc (d), * m = doc (d);
    bool fit = walkable (x, p);
    const iot_data_t * old = reached (x, p);
    if (!fit && op == 0) { iot_data_free (x); iot_data_free (m); continue; }   /* adding needs the containers */
    /* steps of the wrong kind are a precondition of the modifying operations */
    bool kind = true;
    const iot_data_t * w = x;
    for (uint32_t j = 0; w && j < p->n; j++)
    {
      if (iot_data_type (w) == IOT_DATA_VECTOR ? p->s[j] < 4 || p->s[j] - 4u >= iot_data_vector_size (w) : iot_data_type (w) != IOT_DATA_MAP || p->s[j] >= 4) kind = false;
      w = child (w, p->s[j]);
    }
    if (!kind) { iot_data_free (x); iot_data_free (m); continue; }
    iot_data_t * l = mkpath (p), * lm = mkpath (p), * v = ki32 (5), * r;
    upd_calls = 0; upd_result = v; upd_seen = NULL;
    uint32_t lrefs = iot_data_ref_count (l);
    r = op == 0 ? iot_data_add_at (x, l, v) : op == 1 ? iot_data_remove_at (x, l) : iot_data_update_at (x, l, upd, &upd_arg);
    VF_ASSERT (same (x, m), "the original value is unchanged");
    VF_ASSERT (same (l, lm) && iot_data_ref_count (l) == lrefs, "and so is the path");
    if (op == 0) VF_ASSERT (modified (r, x, p, 0, v), "the result holds the new value at the path and shares everything else");
    else if (old == NULL || (op == 1 && p->n == 0))
    {
      VF_ASSERT (same (r, m) || (op == 1 && fit && modified (r, x, p, 0, NULL)), "a path that is not there leaves an equal value");
      VF_ASSERT (upd_calls == 0, "and nothing is updated");
    }
    else if (op == 1) VF_ASSERT (modified (r, x, p, 0, NULL), "the result lacks the value at the path and shares everything else");
    else VF_ASSERT (upd_calls == 1 && upd_seen == old && modified (r, x, p, 0, v), "the function is applied once to the value at the path, its result takes the place");
    if (op == 1 || (op == 2 && !upd_calls)) { iot_data_free (v); v = NULL; }
    VF_ASSERT (iot_data_ref_count (r) == 1 || r == x, "a new value");
    if (i % 2) { iot_data_free (x); x = NULL; if (v) VF_ASSERT (iot_data_i32 (iot_data_get_at (r, l)) == (int32_t) KV[5], "the result survives the original"); }
    iot_data_free (r);
    if (x) { VF_ASSERT (same (x, m), "the original survives the result"); iot_data_free (x); }
    iot_data_free (m); iot_data_free (l); iot_data_free (lm);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}
