/* D02, D03, D12: scalar values.  Everything here is loop free or bounded by the type table. */
#include "vf_data.h"
#ifndef FROM
#define FROM 0
#endif

/* an arbitrary scalar value of a basic type, laid out directly */
static void any_scalar (iot_data_value_t * v, uint32_t ty)
{
  *v = (iot_data_value_t) { 0 };
  v->base.type = (iot_data_type_t) ty;
  v->base.refs = 1;
  v->value.ui64 = vf_u64 ();
  if (v->base.type == IOT_DATA_BOOL) v->value.bl = vf_bool ();
  if (v->base.type == IOT_DATA_FLOAT32) VF_ASSUME (v->value.f32 == v->value.f32);
  if (v->base.type == IOT_DATA_FLOAT64) VF_ASSUME (v->value.f64 == v->value.f64);
}
static int sgn (int x) { return (x > 0) - (x < 0); }

typedef struct { bool neg; uint64_t mag; } math_t;   /* sign and magnitude of an integer */
static math_t math_of (const iot_data_value_t * v)
{
  int64_t s = 0; uint64_t u = 0; bool sg = true;
  switch (v->base.type)
  {
    case IOT_DATA_INT8: s = v->value.i8; break;
    case IOT_DATA_INT16: s = v->value.i16; break;
    case IOT_DATA_INT32: s = v->value.i32; break;
    case IOT_DATA_INT64: s = v->value.i64; break;
    case IOT_DATA_UINT8: u = v->value.ui8; sg = false; break;
    case IOT_DATA_UINT16: u = v->value.ui16; sg = false; break;
    case IOT_DATA_UINT32: u = v->value.ui32; sg = false; break;
    default: u = v->value.ui64; sg = false; break;
  }
  math_t m;
  m.neg = sg && s < 0;
  m.mag = sg ? (s < 0 ? 0 - (uint64_t) s : (uint64_t) s) : u;
  return m;
}
static int math_cmp (math_t a, math_t b)
{
  if (a.neg != b.neg) return a.neg ? -1 : 1;
  if (a.mag == b.mag) return 0;
  return ((a.mag < b.mag) != a.neg) ? -1 : 1;
}

/* the ordering every comparison must agree with */
static int spec_same (const iot_data_value_t * a, const iot_data_value_t * b)
{
  if (a->base.type <= IOT_DATA_UINT64) return math_cmp (math_of (a), math_of (b));
  if (a->base.type == IOT_DATA_FLOAT32) return (a->value.f32 > b->value.f32) - (a->value.f32 < b->value.f32);
  if (a->base.type == IOT_DATA_FLOAT64) return (a->value.f64 > b->value.f64) - (a->value.f64 < b->value.f64);
  return (a->value.bl ? 1 : 0) - (b->value.bl ? 1 : 0);
}
static int spec_cmp (const iot_data_value_t * a, const iot_data_value_t * b, bool by_value)
{
  iot_data_type_t s = a->base.type, t = b->base.type;
  if (s == t) return spec_same (a, b);
  if (by_value && s <= IOT_DATA_UINT64 && t <= IOT_DATA_UINT64) return math_cmp (math_of (a), math_of (b));
  if (by_value && (s == IOT_DATA_FLOAT32 || s == IOT_DATA_FLOAT64) && (t == IOT_DATA_FLOAT32 || t == IOT_DATA_FLOAT64))
  {
    double x = s == IOT_DATA_FLOAT32 ? a->value.f32 : a->value.f64, y = t == IOT_DATA_FLOAT32 ? b->value.f32 : b->value.f64;
    return (x > y) - (x < y);
  }
  return s < t ? -1 : 1;
}
/*@ OBL D02.pair class=proved unwind=12 split=4 fns=iot_data_compare,iot_data_compare_value,iot_data_equal,iot_data_equal_value,iot_data_cmp,iot_data_cast_val
*/
void h_cmp_pair (void)
{
  for (uint32_t s = 0; s <= IOT_DATA_BOOL; s++) for (uint32_t t = 0; t <= IOT_DATA_BOOL; t++)
  {
    if (!VF_MINE (s + t)) continue;
    iot_data_value_t a, b;
    any_scalar (&a, s);
    any_scalar (&b, t);
    const iot_data_t * da = &a.base, * db = &b.base;
    int ab = iot_data_compare (da, db);
    VF_ASSERT (sgn (ab) == spec_cmp (&a, &b, false), "comparison orders by type, then by value");
    int vab = iot_data_compare_value (da, db);
    VF_ASSERT (sgn (vab) == spec_cmp (&a, &b, true), "comparison by value orders numbers of any width and signedness by mathematical value");
    VF_ASSERT (iot_data_equal_value (da, db) == (vab == 0), "equality by value is comparison by value");
    a.base.hash = vf_u32 (); b.base.hash = vf_u32 ();
    VF_ASSERT (iot_data_equal (da, db) == (ab == 0 && a.base.hash == b.base.hash), "equality is comparison of values with coherent hashes");
    if (t == 0)
    {
      VF_ASSERT (iot_data_compare (da, da) == 0 && iot_data_compare_value (da, da) == 0 && iot_data_equal (da, da) && iot_data_equal_value (da, da), "a value is equal to itself");
      VF_ASSERT (iot_data_compare (NULL, da) < 0 && iot_data_compare (da, NULL) > 0 && iot_data_compare (NULL, NULL) == 0, "a missing value comes first");
      VF_ASSERT (iot_data_compare_value (NULL, da) < 0 && iot_data_compare_value (da, NULL) > 0, "a missing value comes first by value");
      VF_ASSERT (!iot_data_equal_value (NULL, da) && !iot_data_equal_value (da, NULL), "a missing value equals no value");
      VF_ASSERT (!iot_data_equal (NULL, da) && !iot_data_equal (da, NULL) && iot_data_equal (NULL, NULL), "a missing value is only equal to a missing value");
    }
  }
  VF_REACH ("end");
}

/* lemma over the specification above: it is a total order on values (with the pair obligation: so is the code's) */
/*@ OBL D02.lemma class=proved unwind=12 cost=3 fns=iot_data_cmp
*/
/*@ OBL D02.lemma_value class=proved unwind=12 cost=3 defs=-DBYVAL fns=iot_data_cmp
*/
void h_cmp_triple (void)
{
  iot_data_value_t a, b, c;
  any_scalar (&a, vf_range (0, IOT_DATA_BOOL));
  any_scalar (&b, vf_range (0, IOT_DATA_BOOL));
  any_scalar (&c, vf_range (0, IOT_DATA_BOOL));
#ifdef BYVAL
  bool v = true;
#else
  bool v = false;
#endif
  int ab = spec_cmp (&a, &b, v), bc = spec_cmp (&b, &c, v), ac = spec_cmp (&a, &c, v);
  VF_ASSERT (ab == -spec_cmp (&b, &a, v), "antisymmetric");
  VF_ASSERT (spec_cmp (&a, &a, v) == 0, "reflexive");
  if (ab <= 0 && bc <= 0) VF_ASSERT (ac <= 0, "transitive");
  if (ab == 0 && bc == 0) VF_ASSERT (ac == 0, "equality is transitive");
  if (ab < 0 && bc <= 0) VF_ASSERT (ac < 0, "strictly transitive");
  VF_REACH ("end");
}

static uint8_t area [8];
#define ORDER(x, what) \
  { int ab = iot_data_compare (&x[0].base, &x[1].base), bc = iot_data_compare (&x[1].base, &x[2].base), ac = iot_data_compare (&x[0].base, &x[2].base); \
  VF_ASSERT (sgn (ab) == -sgn (iot_data_compare (&x[1].base, &x[0].base)), what " antisymmetric"); \
  if (ab <= 0 && bc <= 0) VF_ASSERT (ac <= 0 && (ac < 0 || (ab == 0 && bc == 0)), what " transitive"); \
  VF_ASSERT (iot_data_compare (&x[0].base, &x[0].base) == 0, what " reflexive"); \
  VF_ASSERT (sgn (iot_data_compare_value (&x[0].base, &x[1].base)) == sgn (ab), what " by value"); \
  VF_ASSERT (iot_data_equal (&x[0].base, &x[1].base) == (ab == 0) && iot_data_equal_value (&x[0].base, &x[1].base) == (ab == 0), what " equal"); \
  VF_ASSERT (iot_data_compare (NULL, &x[0].base) < 0 && iot_data_compare (&x[0].base, NULL) > 0, what " missing value first"); }

/*@ OBL D02.strings class=bounded unwind=6 cost=5 fns=iot_data_cmp bound="strings up to 3 characters"
*/
void h_cmp_strings (void)
{
  static char t [3][4];
  iot_data_value_t s [3] = { 0 };
  for (int i = 0; i < 3; i++)
  {
    vf_string (t[i], 4);
    s[i].base.type = IOT_DATA_STRING;
    s[i].value.str = t[i];
    s[i].base.hash = 1;
  }
  ORDER (s, "strings")
  VF_ASSERT (sgn (iot_data_compare (&s[0].base, &s[1].base)) == sgn (strcmp (t[0], t[1])), "strings are ordered by text");
  VF_REACH ("end");
}
/*@ OBL D02.pointers class=proved unwind=4 fns=iot_data_cmp
*/
void h_cmp_pointers (void)
{
  iot_data_pointer_t p [3] = { 0 };
  for (int i = 0; i < 3; i++)
  {
    p[i].base.type = IOT_DATA_POINTER;
    p[i].value = &area [vf_below (8)];
    p[i].base.hash = 1;
  }
  ORDER (p, "pointers")
  VF_ASSERT ((iot_data_compare (&p[0].base, &p[1].base) == 0) == (p[0].value == p[1].value), "pointers are equal when the same");
  VF_REACH ("end");
}
/*@ OBL D02.null class=proved unwind=14 fns=iot_data_cmp
*/
void h_cmp_null (void)
{
  iot_data_t * n = iot_data_alloc_null ();
  VF_ASSERT (iot_data_compare (n, n) == 0 && iot_data_compare (n, NULL) > 0 && iot_data_compare (NULL, n) < 0, "null value");
  for (uint32_t t = 0; t <= IOT_DATA_BOOL; t++)
  {
    iot_data_value_t v;
    any_scalar (&v, t);
    VF_ASSERT (iot_data_compare (n, &v.base) > 0 && iot_data_compare (&v.base, n) < 0 && iot_data_compare_value (n, &v.base) > 0 && iot_data_compare_value (&v.base, n) < 0, "null value ordered by type");
  }
  VF_REACH ("end");
}
/*@ OBL D02.arrays class=bounded unwind=40 split=4 cost=5 fns=iot_data_cmp bound="arrays and binaries of 0 to 2 elements of 1 or 2 bytes, all triples"
*/
void h_cmp_arrays (void)
{
  /* length, element type, kind */
  static const uint8_t len [7] = { 0, 1, 2, 1, 2, 2, 0 };
  static const uint8_t ty [7] = { IOT_DATA_UINT8, IOT_DATA_UINT8, IOT_DATA_UINT8, IOT_DATA_INT16, IOT_DATA_UINT8, IOT_DATA_INT8, IOT_DATA_UINT8 };
  static const uint8_t kind [7] = { IOT_DATA_ARRAY, IOT_DATA_ARRAY, IOT_DATA_ARRAY, IOT_DATA_ARRAY, IOT_DATA_BINARY, IOT_DATA_ARRAY, IOT_DATA_BINARY };
  for (uint32_t i = 0; i < 7; i++) for (uint32_t j = i; j < 7; j++) for (uint32_t k = j; k < 7; k++)
  {
    if (!VF_MINE (i + j + k)) continue;
    uint32_t sel [3] = { i, j, k };
    iot_data_array_t r [3] = { 0 };
    uint8_t buf [3][4];
    vf_bytes (buf, sizeof (buf));
    for (uint32_t x = 0; x < 3; x++)
    {
      r[x].base.type = (iot_data_type_t) kind [sel[x]];
      r[x].base.element_type = (iot_data_type_t) ty [sel[x]];
      r[x].base.hash = 1;
      r[x].length = len [sel[x]];
      r[x].data = buf[x];
    }
    ORDER (r, "arrays")
    if (i != j) VF_ASSERT (iot_data_compare (&r[0].base, &r[1].base) != 0, "arrays of another type, element type or length differ");
    else
    {
      bool same = true;
      for (uint32_t x = 0; x < 4; x++) if (x < len[i] * iot_data_type_size (ty[i]) && buf[0][x] != buf[1][x]) same = false;
      VF_ASSERT ((iot_data_compare (&r[0].base, &r[1].base) == 0) == same, "arrays are equal exactly when the content is");
    }
  }
  VF_REACH ("end");
}

/* composite values */
#define SHAPES 8
static int32_t cval [3][2];
static iot_data_t * comp (uint32_t shape, uint32_t who)
{
  iot_data_t * v;
  cval[who][0] = vf_i32 (); cval[who][1] = vf_i32 ();
  switch (shape)
  {
    case 0: v = iot_data_alloc_vector (0); break;
    case 1: v = iot_data_alloc_vector (1); iot_data_vector_add (v, 0, iot_data_alloc_i32 (cval[who][0])); break;
    case 2: v = iot_data_alloc_vector (2); iot_data_vector_add (v, 0, iot_data_alloc_i32 (cval[who][0])); iot_data_vector_add (v, 1, iot_data_alloc_i32 (cval[who][1])); break;
    case 3: v = iot_data_alloc_vector (2); iot_data_vector_add (v, 1, iot_data_alloc_i32 (cval[who][1])); break;
    case 4: v = iot_data_alloc_list (); break;
    case 5: v = iot_data_alloc_list (); iot_data_list_tail_push (v, iot_data_alloc_i32 (cval[who][0])); break;
    case 6: v = iot_data_alloc_list (); iot_data_list_tail_push (v, iot_data_alloc_i32 (cval[who][0])); iot_data_list_tail_push (v, iot_data_alloc_i32 (cval[who][1])); break;
    default: v = iot_data_alloc_map (IOT_DATA_INT32); iot_data_map_add (v, iot_data_alloc_i32 (cval[who][0]), iot_data_alloc_i32 (cval[who][1])); break;
  }
  return v;
}
/*@ OBL D02.composite class=bounded split=6 unwind=12 cost=20 flags="--object-bits 14" fns=iot_data_cmp,iot_data_hash bound="vectors and lists of up to 2 integer elements (missing elements included) and maps of one pair, all pairs, and all triples of one shape"
*/
void h_cmp_composite (void)
{
  vf_data_init ();
  for (uint32_t x = 0; x < SHAPES; x++) for (uint32_t y = x; y < SHAPES; y++)
  {
    if (!VF_MINE (x + y)) continue;
    iot_data_t * a = comp (x, 0), * b = comp (y, 1);
    int ab = iot_data_compare (a, b);
    VF_ASSERT (sgn (ab) == -sgn (iot_data_compare (b, a)), "composite antisymmetric");
    VF_ASSERT (iot_data_equal (a, b) == (ab == 0), "composite equality is comparison");
    VF_ASSERT (iot_data_equal_value (a, b) == (iot_data_compare_value (a, b) == 0), "composite equality by value is comparison by value");
    bool same = x == y;
    if (x == 1 || x == 2 || x > 4) same = same && cval[0][0] == cval[1][0];
    if (x == 2 || x == 3 || x > 5) same = same && cval[0][1] == cval[1][1];
    VF_ASSERT ((ab == 0) == same, "composites are equal exactly when they have the same elements in the same places");
    if (x == y)
    {
      iot_data_t * c = comp (x, 2);
      int bc = iot_data_compare (b, c), ac = iot_data_compare (a, c);
      if (ab <= 0 && bc <= 0) VF_ASSERT (ac <= 0 && (ac < 0 || (ab == 0 && bc == 0)), "composite transitive");
      iot_data_free (c);
    }
    iot_data_free (a); iot_data_free (b);
  }
  VF_REACH ("end");
}

/* ------------------------------------------------------------------ D03 */
/* Oracle for conversion, case by case, without going through a common wide type */
static bool in_range_int (math_t m, iot_data_type_t t)
{
  switch (t)
  {
    case IOT_DATA_INT8: return m.neg ? m.mag <= 128u : m.mag <= 127u;
    case IOT_DATA_UINT8: return !m.neg && m.mag <= 255u;
    case IOT_DATA_INT16: return m.neg ? m.mag <= 32768u : m.mag <= 32767u;
    case IOT_DATA_UINT16: return !m.neg && m.mag <= 65535u;
    case IOT_DATA_INT32: return m.neg ? m.mag <= 2147483648u : m.mag <= 2147483647u;
    case IOT_DATA_UINT32: return !m.neg && m.mag <= 4294967295u;
    case IOT_DATA_INT64: return m.neg ? m.mag <= 9223372036854775808u : m.mag <= 9223372036854775807u;
    case IOT_DATA_UINT64: return !m.neg;
    default: return true;
  }
}
static bool in_range_flt (double d, iot_data_type_t t)
{
  switch (t)
  {
    case IOT_DATA_INT8: return d >= -128.0 && d <= 127.0;
    case IOT_DATA_UINT8: return d >= 0.0 && d <= 255.0;
    case IOT_DATA_INT16: return d >= -32768.0 && d <= 32767.0;
    case IOT_DATA_UINT16: return d >= 0.0 && d <= 65535.0;
    case IOT_DATA_INT32: return d >= -2147483648.0 && d <= 2147483647.0;
    case IOT_DATA_UINT32: return d >= 0.0 && d <= 4294967295.0;
    case IOT_DATA_INT64: return d >= -9223372036854775808.0 && d < 9223372036854775808.0;
    case IOT_DATA_UINT64: return d >= 0.0 && d < 18446744073709551616.0;
    case IOT_DATA_FLOAT32: return d != d || (d >= -3.40282346638528859812e+38 && d <= 3.40282346638528859812e+38);
    default: return true;
  }
}
static void any_number (iot_data_value_t * v)
{
  memset (v, 0, sizeof (*v));
  v->base.refs = 1;
  v->base.type = (iot_data_type_t) FROM;
  v->value.ui64 = vf_u64 ();
  if (v->base.type == IOT_DATA_BOOL) v->value.bl = vf_bool ();
}
/* is the converted value the right one? */
static bool right_value (const iot_data_value_t * in, const iot_data_union_t * out, iot_data_type_t t)
{
  iot_data_type_t f = in->base.type;
  if (f == IOT_DATA_FLOAT32 || f == IOT_DATA_FLOAT64)
  {
    double d = f == IOT_DATA_FLOAT32 ? (double) in->value.f32 : in->value.f64;
    switch (t)
    {
      case IOT_DATA_INT8: return out->i8 == (int8_t) d;
      case IOT_DATA_UINT8: return out->ui8 == (uint8_t) d;
      case IOT_DATA_INT16: return out->i16 == (int16_t) d;
      case IOT_DATA_UINT16: return out->ui16 == (uint16_t) d;
      case IOT_DATA_INT32: return out->i32 == (int32_t) d;
      case IOT_DATA_UINT32: return out->ui32 == (uint32_t) d;
      case IOT_DATA_INT64: return out->i64 == (int64_t) d;
      case IOT_DATA_UINT64: return out->ui64 == (uint64_t) d;
      case IOT_DATA_FLOAT32: return d != d ? out->f32 != out->f32 : out->f32 == (float) d;
      case IOT_DATA_FLOAT64: return d != d ? out->f64 != out->f64 : out->f64 == d;
      default: return out->bl == (d != 0.0);
    }
  }
  math_t m;
  if (f == IOT_DATA_BOOL) { m.neg = false; m.mag = in->value.bl ? 1 : 0; }
  else m = math_of (in);
  uint64_t bits = m.neg ? 0 - m.mag : m.mag;
  switch (t)
  {
    case IOT_DATA_INT8: case IOT_DATA_UINT8: return out->ui8 == (uint8_t) bits;
    case IOT_DATA_INT16: case IOT_DATA_UINT16: return out->ui16 == (uint16_t) bits;
    case IOT_DATA_INT32: case IOT_DATA_UINT32: return out->ui32 == (uint32_t) bits;
    case IOT_DATA_INT64: case IOT_DATA_UINT64: return out->ui64 == bits;
    case IOT_DATA_FLOAT32: return out->f32 == (m.neg ? (float) (int64_t) bits : (float) m.mag);
    case IOT_DATA_FLOAT64: return out->f64 == (m.neg ? (double) (int64_t) bits : (double) m.mag);
    default: return out->bl == (m.mag != 0);
  }
}

/* one obligation per source type: the solver then works on one case */
/*@ OBL D03.cast_i8 class=proved unwind=20 defs=-DFROM=0 fns=iot_data_cast,iot_data_cast_val
*/
/*@ OBL D03.cast_ui8 class=proved unwind=20 defs=-DFROM=1 fns=iot_data_cast,iot_data_cast_val
*/
/*@ OBL D03.cast_i16 class=proved unwind=20 defs=-DFROM=2 fns=iot_data_cast,iot_data_cast_val
*/
/*@ OBL D03.cast_ui16 class=proved unwind=20 defs=-DFROM=3 fns=iot_data_cast,iot_data_cast_val
*/
/*@ OBL D03.cast_i32 class=proved unwind=20 defs=-DFROM=4 fns=iot_data_cast,iot_data_cast_val
*/
/*@ OBL D03.cast_ui32 class=proved unwind=20 defs=-DFROM=5 fns=iot_data_cast,iot_data_cast_val
*/
/*@ OBL D03.cast_i64 class=proved unwind=20 cost=3 defs=-DFROM=6 fns=iot_data_cast,iot_data_cast_val
*/
/*@ OBL D03.cast_ui64 class=proved unwind=20 cost=3 defs=-DFROM=7 fns=iot_data_cast,iot_data_cast_val
*/
/*@ OBL D03.cast_f32 class=proved unwind=20 cost=3 defs=-DFROM=8 fns=iot_data_cast,iot_data_cast_val
*/
/*@ OBL D03.cast_f64 class=proved unwind=20 cost=3 defs=-DFROM=9 fns=iot_data_cast,iot_data_cast_val
*/
/*@ OBL D03.cast_bool class=proved unwind=20 defs=-DFROM=10 fns=iot_data_cast,iot_data_cast_val
*/
void h_cast (void)
{
  iot_data_value_t v;
  any_number (&v);
  iot_data_type_t f = v.base.type, t = (iot_data_type_t) vf_range (0, IOT_DATA_INVALID);
  struct { iot_data_union_t val; uint8_t guard [8]; } out;
  uint64_t fill = vf_u64 ();
  out.val.ui64 = fill;
  for (int i = 0; i < 8; i++) out.guard[i] = 0xA5;
  bool ok = iot_data_cast (&v.base, t, &out.val);
  bool want;
  if (t > IOT_DATA_BOOL) want = false;
  else if (f == IOT_DATA_BOOL) want = true;
  else if (f == IOT_DATA_FLOAT32) want = in_range_flt (v.value.f32, t);
  else if (f == IOT_DATA_FLOAT64) want = in_range_flt (v.value.f64, t);
  else want = in_range_int (math_of (&v), t);
  VF_ASSERT (ok == want, "conversion succeeds exactly when the value is in range of the target type");
  if (ok)
  {
    VF_ASSERT (right_value (&v, &out.val, t), "the converted value is the source value");
    size_t n = iot_data_type_size (t);
    for (size_t i = 0; i < 8; i++) if (i >= n) VF_ASSERT (((uint8_t*) &out.val)[i] == ((uint8_t*) &fill)[i], "only the target type's bytes are written");
  }
  else VF_ASSERT (out.val.ui64 == fill, "a refused conversion writes nothing");
  VF_ASSERT (out.guard[0] == 0xA5, "nothing is written beyond the value");
  VF_REACH ("end");
}

/*@ OBL D03.not_numeric class=proved unwind=20 fns=iot_data_cast_val,iot_data_cast,iot_data_transform
*/
void h_cast_other (void)
{
  iot_data_value_t v;
  memset (&v, 0, sizeof (v));
  v.base.refs = 1;
  v.base.type = (iot_data_type_t) vf_range (IOT_DATA_POINTER, IOT_DATA_MAP);
  v.value.ui64 = vf_u64 ();
  iot_data_union_t out = { .ui64 = 0 };
  iot_data_type_t t = (iot_data_type_t) vf_range (0, IOT_DATA_MULTI);
  VF_ASSERT (!iot_data_cast (&v.base, t, &out) && out.ui64 == 0, "a value that is not numeric is not converted");
  VF_ASSERT (iot_data_transform (&v.base, t) == (t == v.base.type ? &v.base : NULL), "transforming to the own type shares the value, to another fails");
  VF_REACH ("end");
}

/* transform, array transform and map lookups agree with the conversion */
/*@ OBL D03.transform class=proved unwind=12 split=2 cost=4 fns=iot_data_transform,iot_data_cast_val
*/
void h_transform (void)
{
  vf_data_init ();
  for (int f = 0; f <= IOT_DATA_BOOL; f++)
  {
    if (!VF_MINE (f)) continue;
    iot_data_value_t v;
    memset (&v, 0, sizeof (v));
    v.base.refs = 1;
    v.base.type = (iot_data_type_t) f;
    v.value.ui64 = vf_u64 ();
    if (f == IOT_DATA_BOOL) v.value.bl = vf_bool ();
    iot_data_type_t t = (iot_data_type_t) vf_range (0, IOT_DATA_BOOL);
    iot_data_union_t out = { .ui64 = 0 };
    bool ok = iot_data_cast (&v.base, t, &out);
    iot_data_t * r = iot_data_transform (&v.base, t);
    if (t == f) VF_ASSERT (r == &v.base && v.base.refs == 2, "the own type: another reference to the same value");
    else
    {
      VF_ASSERT ((r != NULL) == ok, "transform succeeds exactly when the conversion does");
      if (r)
      {
        VF_ASSERT (iot_data_type (r) == t, "transformed value has the requested type");
        VF_ASSERT (memcmp (iot_data_address (r), &out, iot_data_type_size (t)) == 0, "transformed value is the converted value");
        if (t < IOT_DATA_BOOL) { iot_data_free (r); }
      }
      VF_ASSERT (v.base.refs == 1, "the source keeps its references");
      VF_ASSERT (vf_live == 0, "nothing leaks");
    }
  }
  VF_REACH ("end");
}

/*@ OBL D03.array class=bounded unwind=50 split=11 cost=4 fns=iot_data_array_transform bound="arrays of up to 2 elements; source int8, uint64, int64, double; every target type"
*/
void h_array_transform (void)
{
  static const uint8_t from [4] = { IOT_DATA_INT8, IOT_DATA_UINT64, IOT_DATA_INT64, IOT_DATA_FLOAT64 };
  vf_data_init ();
  for (uint32_t h = 0; h < 4 * 11; h++)
  {
    if (!VF_MINE (h)) continue;
    iot_data_type_t f = (iot_data_type_t) from [h % 4], t = (iot_data_type_t) (h / 4);
    uint32_t fs = iot_data_type_size (f), ts = iot_data_type_size (t);
    uint8_t src [16], exp [16];
    vf_bytes (src, 2 * fs);
    uint32_t n = 0;
    iot_data_t * arr = iot_data_alloc_array (src, 2, f, IOT_DATA_REF);
    for (uint32_t i = 0; i < 2; i++)
    {
      iot_data_union_t in = { .ui64 = 0 }, out = { .ui64 = 0 };
      memcpy (&in, src + i * fs, fs);
      if (iot_data_cast_val (in, &out, f, t)) { memcpy (exp + n * ts, &out, ts); n++; }
    }
    iot_data_t * r = iot_data_array_transform (arr, t);
    VF_ASSERT (iot_data_array_type (r) == t && iot_data_array_length (r) == n, "the convertible elements, as the requested type");
    VF_ASSERT (n == 0 || memcmp (iot_data_address (r), exp, n * ts) == 0, "their converted values in order");
    iot_data_free (r);
    iot_data_free (arr);
    VF_ASSERT (vf_live == 0, "nothing leaks");
  }
  VF_REACH ("end");
}

/*@ OBL D03.map class=proved unwind=13 cost=4 split=4 prop=D03,D12 fns=iot_data_map_get_number,iot_data_string_map_get_number,iot_data_map_get_int,iot_data_string_map_get_int,iot_data_map_get_i64,iot_data_map_get_ui64,iot_data_map_get_bool,iot_data_map_get_f64,iot_data_map_get_typed,iot_data_string_map_get_i64,iot_data_string_map_get_ui64,iot_data_string_map_get_bool,iot_data_string_map_get_f64
*/
void h_map_number (void)
{
  vf_data_init ();
  iot_data_value_t k = { 0 }, other = { 0 };
  iot_data_t * key = iot_data_alloc_const_string ((iot_data_static_t*) (void*) &k, "k");
  iot_data_t * miss = iot_data_alloc_const_string ((iot_data_static_t*) (void*) &other, "m");
  for (uint32_t from = 0; from <= IOT_DATA_BOOL; from++)
  {
  if (!VF_MINE (from)) continue;
  iot_data_value_t v;
  any_scalar (&v, from);
  v.base.refs = 5;
  iot_data_t * map = iot_data_alloc_typed_map (IOT_DATA_STRING, IOT_DATA_MULTI);
  iot_data_map_add (map, key, &v.base);
  iot_data_type_t t = (iot_data_type_t) vf_range (0, IOT_DATA_BOOL), ty = (iot_data_type_t) from;
  iot_data_union_t o1 = { .ui64 = 0 }, o2 = { .ui64 = 0 }, o3 = { .ui64 = 0 };
  bool ok = iot_data_cast (&v.base, t, &o1);
  VF_ASSERT (iot_data_map_get_number (map, key, t, &o2) == ok && o1.ui64 == o2.ui64, "a numeric lookup converts the stored value");
  VF_ASSERT (iot_data_string_map_get_number (map, "k", t, &o3) == ok && o1.ui64 == o3.ui64, "a numeric lookup by text converts the stored value");
  VF_ASSERT (!iot_data_map_get_number (map, miss, t, &o2) && !iot_data_string_map_get_number (map, "m", t, &o3), "a missing key fails");
  int i1 = 7, i2 = 7; iot_data_union_t c = { .i32 = 7 };
  bool iok = iot_data_cast (&v.base, IOT_DATA_INT32, &c);
  VF_ASSERT (iot_data_map_get_int (map, key, &i1) == iok && iot_data_string_map_get_int (map, "k", &i2) == iok && i1 == c.i32 && i2 == c.i32, "an integer lookup converts the stored value");
  VF_ASSERT (!iot_data_map_get_int (map, miss, &i1) && !iot_data_string_map_get_int (map, "m", &i2), "a missing key fails");
  int64_t di = vf_i64 (); uint64_t du = vf_u64 (); double df = 1.5; bool db = vf_bool ();
  VF_ASSERT (iot_data_map_get_i64 (map, key, di) == (ty == IOT_DATA_INT64 ? v.value.i64 : di) && iot_data_map_get_i64 (map, miss, di) == di, "typed lookup or default: int64");
  VF_ASSERT (iot_data_map_get_ui64 (map, key, du) == (ty == IOT_DATA_UINT64 ? v.value.ui64 : du) && iot_data_map_get_ui64 (map, miss, du) == du, "typed lookup or default: uint64");
  VF_ASSERT (iot_data_map_get_bool (map, key, db) == (ty == IOT_DATA_BOOL ? v.value.bl : db) && iot_data_map_get_bool (map, miss, db) == db, "typed lookup or default: bool");
  VF_ASSERT (iot_data_map_get_f64 (map, key, df) == (ty == IOT_DATA_FLOAT64 ? v.value.f64 : df) && iot_data_map_get_f64 (map, miss, df) == df, "typed lookup or default: double");
  VF_ASSERT (iot_data_string_map_get_i64 (map, "k", di) == (ty == IOT_DATA_INT64 ? v.value.i64 : di) && iot_data_string_map_get_i64 (map, "m", di) == di, "typed text lookup or default: int64");
  VF_ASSERT (iot_data_string_map_get_ui64 (map, "k", du) == (ty == IOT_DATA_UINT64 ? v.value.ui64 : du) && iot_data_string_map_get_ui64 (map, "m", du) == du, "typed text lookup or default: uint64");
  VF_ASSERT (iot_data_string_map_get_bool (map, "k", db) == (ty == IOT_DATA_BOOL ? v.value.bl : db) && iot_data_string_map_get_bool (map, "m", db) == db, "typed text lookup or default: bool");
  VF_ASSERT (iot_data_string_map_get_f64 (map, "k", df) == (ty == IOT_DATA_FLOAT64 ? v.value.f64 : df) && iot_data_string_map_get_f64 (map, "m", df) == df, "typed text lookup or default: double");
  VF_ASSERT (iot_data_map_get_typed (map, key, t) == (ty == t ? &v.base : NULL) && iot_data_map_get_typed (map, miss, t) == NULL, "typed lookup of a value");
  VF_ASSERT (!iot_data_map_get_string (map, key) && !iot_data_map_get_pointer (map, key) && !iot_data_map_get_vector (map, key) && !iot_data_map_get_map (map, key) && !iot_data_map_get_array (map, key) && !iot_data_map_get_list (map, key), "lookups of another type find nothing");
  VF_ASSERT (!iot_data_string_map_get_string (map, "k") && !iot_data_string_map_get_pointer (map, "k") && !iot_data_string_map_get_vector (map, "k") && !iot_data_string_map_get_map (map, "k") && !iot_data_string_map_get_list (map, "k"), "text lookups of another type find nothing");
  }
  VF_REACH ("end");
}

/* ------------------------------------------------------------------ D12 */
/*@ OBL D12.alloc class=proved unwind=20 fns=iot_data_alloc_i8,iot_data_alloc_ui8,iot_data_alloc_i16,iot_data_alloc_ui16,iot_data_alloc_i32,iot_data_alloc_ui32,iot_data_alloc_i64,iot_data_alloc_ui64,iot_data_alloc_f32,iot_data_alloc_f64,iot_data_alloc_bool,iot_data_alloc_null,iot_data_type,iot_data_is_of_type,iot_data_ref_count,iot_data_add_ref,iot_data_is_nan,iot_data_address
*/
void h_alloc (void)
{
  vf_data_init ();
  uint64_t u = vf_u64 ();
  double d = vf_f64 ();
  float f = vf_f32 ();
#define CHECK(fn, get, ty, val) \
  { \
    iot_data_t * x = fn (val); \
    VF_ASSERT (x && iot_data_type (x) == ty && iot_data_is_of_type (x, ty) && iot_data_ref_count (x) == 1 && !iot_data_is_static (x), #fn ": type and reference count"); \
    VF_ASSERT (get (x) == (val), #fn ": value"); \
    VF_ASSERT (memcmp (iot_data_address (x), &((iot_data_value_t*) x)->value, iot_data_type_size (ty)) == 0, #fn ": address"); \
    iot_typecode_t tc; iot_data_typecode (x, &tc); \
    VF_ASSERT (tc.type == ty && iot_data_matches (x, &tc), #fn ": type code"); \
    VF_ASSERT (iot_data_add_ref (x) == x && iot_data_ref_count (x) == 2, #fn ": another reference"); \
    iot_data_free (x); \
    VF_ASSERT (iot_data_ref_count (x) == 1 && get (x) == (val), #fn ": still readable while a reference is held"); \
    iot_data_free (x); \
    VF_ASSERT (vf_live == 0, #fn ": released with the last reference"); \
  }
  CHECK (iot_data_alloc_i8, iot_data_i8, IOT_DATA_INT8, (int8_t) u)
  CHECK (iot_data_alloc_ui8, iot_data_ui8, IOT_DATA_UINT8, (uint8_t) u)
  CHECK (iot_data_alloc_i16, iot_data_i16, IOT_DATA_INT16, (int16_t) u)
  CHECK (iot_data_alloc_ui16, iot_data_ui16, IOT_DATA_UINT16, (uint16_t) u)
  CHECK (iot_data_alloc_i32, iot_data_i32, IOT_DATA_INT32, (int32_t) u)
  CHECK (iot_data_alloc_ui32, iot_data_ui32, IOT_DATA_UINT32, (uint32_t) u)
  CHECK (iot_data_alloc_i64, iot_data_i64, IOT_DATA_INT64, (int64_t) u)
  CHECK (iot_data_alloc_ui64, iot_data_ui64, IOT_DATA_UINT64, u)
  if (f == f) CHECK (iot_data_alloc_f32, iot_data_f32, IOT_DATA_FLOAT32, f)
  if (d == d) CHECK (iot_data_alloc_f64, iot_data_f64, IOT_DATA_FLOAT64, d)
  iot_data_t * nf = iot_data_alloc_f32 (f), * nd = iot_data_alloc_f64 (d);
  VF_ASSERT (iot_data_is_nan (nf) == (f != f) && iot_data_is_nan (nd) == (d != d), "not a number");
  VF_ASSERT (!iot_data_is_nan (NULL), "no value is not NaN");
  iot_data_free (nf); iot_data_free (nd);
  bool b = vf_bool ();
  iot_data_t * x = iot_data_alloc_bool (b);
  VF_ASSERT (iot_data_type (x) == IOT_DATA_BOOL && iot_data_bool (x) == b && iot_data_is_static (x), "boolean");
  iot_data_free (x); iot_data_free (x);
  VF_ASSERT (iot_data_alloc_bool (b) == x && iot_data_bool (x) == b, "constants survive release");
  x = iot_data_alloc_null ();
  VF_ASSERT (iot_data_type (x) == IOT_DATA_NULL && iot_data_is_static (x), "null");
  iot_data_free (x);
  VF_ASSERT (iot_data_type (x) == IOT_DATA_NULL, "the null constant survives release");
  VF_ASSERT (iot_data_type (NULL) == IOT_DATA_INVALID && !iot_data_is_of_type (NULL, IOT_DATA_INT8) && iot_data_ref_count (NULL) == 0 && iot_data_add_ref (NULL) == NULL && iot_data_address (NULL) == NULL && !iot_data_is_static (NULL), "no value");
  iot_data_free (NULL);
  VF_ASSERT (vf_live == 0, "everything is released");
  VF_REACH ("end");
}

/*@ OBL D12.const class=proved unwind=20 fns=iot_data_alloc_const_i8,iot_data_alloc_const_ui8,iot_data_alloc_const_i16,iot_data_alloc_const_ui16,iot_data_alloc_const_i32,iot_data_alloc_const_ui32,iot_data_alloc_const_i64,iot_data_alloc_const_ui64,iot_data_alloc_const_pointer
*/
void h_alloc_const (void)
{
  uint64_t u = vf_u64 ();
  iot_data_value_t sv = { 0 };
  iot_data_pointer_t sp = { 0 };
  vf_data_init ();
#define CCHECK(cfn, fn, get, ty, T) \
  { \
    iot_data_t * x = cfn ((iot_data_static_t*) (void*) &sv, (T) u); \
    iot_data_t * y = fn ((T) u); \
    VF_ASSERT (x == &sv.base && iot_data_type (x) == ty && get (x) == (T) u && iot_data_is_static (x), #cfn ": value"); \
    VF_ASSERT (iot_data_hash (x) == iot_data_hash (y) && iot_data_equal (x, y), #cfn ": equal to an allocated value"); \
    iot_data_free (x); iot_data_free (x); \
    VF_ASSERT (iot_data_type (x) == ty && get (x) == (T) u && iot_data_copy (x) == x, #cfn ": constant"); \
    iot_data_free (y); \
  }
  CCHECK (iot_data_alloc_const_i8, iot_data_alloc_i8, iot_data_i8, IOT_DATA_INT8, int8_t)
  CCHECK (iot_data_alloc_const_ui8, iot_data_alloc_ui8, iot_data_ui8, IOT_DATA_UINT8, uint8_t)
  CCHECK (iot_data_alloc_const_i16, iot_data_alloc_i16, iot_data_i16, IOT_DATA_INT16, int16_t)
  CCHECK (iot_data_alloc_const_ui16, iot_data_alloc_ui16, iot_data_ui16, IOT_DATA_UINT16, uint16_t)
  CCHECK (iot_data_alloc_const_i32, iot_data_alloc_i32, iot_data_i32, IOT_DATA_INT32, int32_t)
  CCHECK (iot_data_alloc_const_ui32, iot_data_alloc_ui32, iot_data_ui32, IOT_DATA_UINT32, uint32_t)
  CCHECK (iot_data_alloc_const_i64, iot_data_alloc_i64, iot_data_i64, IOT_DATA_INT64, int64_t)
  CCHECK (iot_data_alloc_const_ui64, iot_data_alloc_ui64, iot_data_ui64, IOT_DATA_UINT64, uint64_t)
  iot_data_t * p = iot_data_alloc_const_pointer ((iot_data_static_t*) (void*) &sp, area);
  VF_ASSERT (iot_data_type (p) == IOT_DATA_POINTER && iot_data_pointer (p) == area && iot_data_is_static (p) && iot_data_address (p) == area, "constant pointer");
  VF_ASSERT (vf_live == 0, "everything is released");
  VF_REACH ("end");
}

/*@ OBL D12.typecode class=proved unwind=22 cost=3 fns=iot_typecode_equal,iot_data_typecode,iot_data_matches,iot_data_type_string,iot_data_name_type,iot_data_type_size
*/
void h_typecode (void)
{
  iot_typecode_t a, b;
  a.type = (iot_data_type_t) vf_range (0, IOT_DATA_INVALID); b.type = (iot_data_type_t) vf_range (0, IOT_DATA_INVALID);
  a.element_type = (iot_data_type_t) vf_range (0, IOT_DATA_INVALID); b.element_type = (iot_data_type_t) vf_range (0, IOT_DATA_INVALID);
  a.key_type = (iot_data_type_t) vf_range (0, IOT_DATA_INVALID); b.key_type = (iot_data_type_t) vf_range (0, IOT_DATA_INVALID);
  bool eq = a.type == b.type;
  if (a.type == IOT_DATA_ARRAY || a.type == IOT_DATA_VECTOR || a.type == IOT_DATA_LIST || a.type == IOT_DATA_MAP || a.type == IOT_DATA_MULTI) eq = eq && a.element_type == b.element_type;
  if (a.type == IOT_DATA_MAP) eq = eq && a.key_type == b.key_type;
  VF_ASSERT (iot_typecode_equal (&a, &b) == eq, "type codes are equal exactly when their significant parts are");
  VF_ASSERT (iot_typecode_equal (&a, &a) && !iot_typecode_equal (&a, NULL) && !iot_typecode_equal (NULL, &a) && iot_typecode_equal (NULL, NULL), "same and missing type codes");
  iot_data_t v;
  memset (&v, 0, sizeof (v));
  v.type = a.type; v.element_type = a.element_type; v.key_type = a.key_type;
  VF_ASSERT (iot_data_matches (&v, &b) == eq, "a value matches a type code exactly when its own is equal");
  /* sizes */
  static const uint8_t sizes [] = { 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, sizeof (bool), sizeof (void*), sizeof (char*), 0, 1 };
  uint32_t sz = iot_data_type_size (a.type);
  VF_ASSERT (sz == (a.type <= IOT_DATA_BINARY ? sizes[a.type] : 0), "element sizes match the C types");
  /* names */
  static const char * names [] = { "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float32", "Float64", "Bool", "Pointer", "String", "Null", "Binary", "Array", "Vector", "List", "Map", "Multi", "Invalid" };
  for (int i = 0; i <= IOT_DATA_INVALID; i++)
  {
    VF_ASSERT (strcmp (iot_data_type_string ((iot_data_type_t) i), names[i]) == 0, "type name");
    VF_ASSERT (iot_data_name_type (iot_data_type_string ((iot_data_type_t) i)) == (iot_data_type_t) i, "a type name maps back to its type");
    v.type = (iot_data_type_t) i;
    VF_ASSERT (strcmp (iot_data_type_name (&v), names[i]) == 0, "name of a value's type");
  }
  VF_ASSERT (strcmp (iot_data_type_string ((iot_data_type_t) 200), "Invalid") == 0, "unknown types are invalid");
  VF_REACH ("end");
}

/*@ OBL D12.names class=bounded unwind=22 cost=3 fns=iot_data_name_type bound="every capitalisation of every type name; other texts of up to 8 characters"
*/
void h_names (void)
{
  static const char * names [] = { "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "bool", "pointer", "string", "null", "binary", "array", "vector", "list", "map", "multi", "invalid" };
  char buf [9];
  for (int i = 0; i <= IOT_DATA_INVALID; i++)
  {
    size_t n = strlen (names[i]);
    for (size_t j = 0; j <= n; j++)
    {
      char c = names[i][j];
      buf[j] = (c >= 'a' && c <= 'z' && vf_bool ()) ? (char) (c - 32) : c;
    }
    VF_ASSERT (iot_data_name_type (buf) == (iot_data_type_t) i, "names are recognised whatever their case");
  }
  vf_string (buf, 9);
  iot_data_type_t t = iot_data_name_type (buf);
  bool found = false;
  for (int i = 0; i <= IOT_DATA_INVALID; i++)
  {
    size_t j = 0;
    for (; names[i][j]; j++) { char c = buf[j]; if (c >= 'A' && c <= 'Z') c = (char) (c + 32); if (c != names[i][j]) break; }
    if (names[i][j] == 0 && buf[j] == 0) { found = true; VF_ASSERT (t == (iot_data_type_t) i, "a name maps to its type"); }
  }
  if (!found) VF_ASSERT (t == IOT_DATA_INVALID, "other texts are no type");
  VF_REACH ("end");
}

/*@ OBL D12.tags class=proved unwind=20 fns=iot_data_set_tag,iot_data_get_tag
*/
void h_tags (void)
{
  iot_data_t v;
  vf_bytes (&v, sizeof (v));
  bool t1 = v.tag1, t2 = v.tag2, n = vf_bool (), second = vf_bool ();
  iot_data_t o = v;
  VF_ASSERT (iot_data_set_tag (&v, second ? IOT_DATA_TAG_USER2 : IOT_DATA_TAG_USER1, n) == (second ? t2 : t1), "setting a tag returns its old value");
  VF_ASSERT (iot_data_get_tag (&v, IOT_DATA_TAG_USER1) == (second ? t1 : n) && iot_data_get_tag (&v, IOT_DATA_TAG_USER2) == (second ? n : t2), "only that tag changes");
  VF_ASSERT (v.type == o.type && v.hash == o.hash && v.rehash == o.rehash && v.release == o.release && v.constant == o.constant && v.heap == o.heap, "nothing else changes");
  VF_REACH ("end");
}
