/* D10: arrays and binaries hold exactly the given bytes */
#define VF_WITH_BASE64
#include "kinds.h"

#ifdef LOCAL
/* arbitrary length and content: unbounded */
static iot_data_array_t * any_array (uint32_t * len, size_t * esize)
{
  iot_data_array_t * a = malloc (sizeof (*a));
  *a = (iot_data_array_t) { 0 };
  a->base.type = vf_bool () ? IOT_DATA_ARRAY : IOT_DATA_BINARY;
  uint32_t t = vf_below (IOT_DATA_BOOL + 1);
  a->base.element_type = (iot_data_type_t) t;
  static const uint8_t sizes [11] = { 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, sizeof (bool) };   /* documented element sizes */
  *esize = sizes[t];
  a->length = *len = vf_u32 ();
  VF_ASSUME ((uint64_t) a->length * *esize < (1ull << 32));   /* documented limit of the size functions */
  a->data = malloc ((size_t) a->length * *esize);
  atomic_store (&a->base.refs, 1u);
  return a;
}
/*@ OBL D10.any_iter prop=D10 class=proved defs=-DLOCAL unwind=2 flags="--object-bits 12" fns=iot_data_array_iter,iot_data_array_iter_next,iot_data_array_iter_prev,iot_data_array_iter_has_next,iot_data_array_iter_index,iot_data_array_iter_value,iot_data_array_length,iot_data_array_size,iot_data_array_type,iot_data_array_is_of_type,iot_data_address,iot_data_length
*/
void h_any_iter (void)
{
  uint32_t len; size_t es;
  iot_data_array_t * a = any_array (&len, &es);
  const iot_data_t * d = &a->base;
  iot_data_array_iter_t it;
  VF_ASSERT (iot_data_array_length (d) == len && iot_data_array_size (d) == len * es && iot_data_array_type (d) == a->base.element_type, "length, size and type");
  VF_ASSERT (iot_data_array_is_of_type (d, a->base.element_type) && !iot_data_array_is_of_type (NULL, a->base.element_type), "type test");
  VF_ASSERT (iot_data_address (d) == a->data, "address");
  iot_data_array_iter (d, &it);
  VF_ASSERT (iot_data_array_iter_value (&it) == NULL && iot_data_array_iter_index (&it) >= len, "no value before the first step");
  VF_ASSERT (iot_data_array_iter_has_next (&it) == (len > 0), "has_next at the start");
  iot_data_array_iter_t p = it;
  bool r = iot_data_array_iter_next (&it);
  VF_ASSERT (r == (len > 0), "the first step reaches the first element");
  if (r) VF_ASSERT (iot_data_array_iter_index (&it) == 0 && iot_data_array_iter_value (&it) == a->data, "first element");
  r = iot_data_array_iter_prev (&p);
  VF_ASSERT (r == (len > 0), "the first step back reaches the last element");
  if (r) VF_ASSERT (iot_data_array_iter_index (&p) == len - 1 && iot_data_array_iter_value (&p) == (uint8_t*) a->data + (len - 1) * es, "last element");
  if (len == 0) { VF_REACH ("empty"); return; }
  /* at any position */
  uint32_t i = vf_below (len);
  it._index = i;
  VF_ASSERT (iot_data_array_iter_value (&it) == (uint8_t*) a->data + i * es, "element at the position");
  VF_ASSERT (iot_data_array_iter_has_next (&it) == (i + 1 < len), "has_next while positioned");
  p = it;
  r = iot_data_array_iter_next (&it);
  VF_ASSERT (r == (i + 1 < len), "forward iteration ends after the last element");
  if (r) VF_ASSERT (iot_data_array_iter_index (&it) == i + 1 && iot_data_array_iter_value (&it) == (uint8_t*) a->data + (i + 1) * es, "and otherwise reaches the next element");
  else VF_ASSERT (iot_data_array_iter_value (&it) == NULL && iot_data_array_iter_has_next (&it), "no value beyond the end");
  r = iot_data_array_iter_prev (&p);
  VF_ASSERT (r == (i > 0), "backward iteration ends after the first element");
  if (r) VF_ASSERT (iot_data_array_iter_index (&p) == i - 1 && iot_data_array_iter_value (&p) == (uint8_t*) a->data + (i - 1) * es, "and otherwise reaches the previous element");
  else VF_ASSERT (iot_data_array_iter_value (&p) == NULL, "no value before the beginning");
  VF_REACH ("end");
}
/*@ OBL D10.any_get prop=D10 class=proved defs=-DLOCAL unwind=2 flags="--object-bits 12" fns=iot_data_array_get,iot_data_array_to_binary,iot_data_binary_to_array
*/
void h_any_get (void)
{
  uint32_t len; size_t es;
  iot_data_array_t * a = any_array (&len, &es);
  if (a->base.type == IOT_DATA_ARRAY && len)
  {
    uint32_t i = vf_below (len);
    VF_ASSERT (iot_data_array_get (&a->base, i) == (uint8_t*) a->data + i * es, "element at an index");
  }
  if (a->base.element_type == IOT_DATA_UINT8)
  {
    void * p = a->data; uint32_t h = a->base.hash;
    iot_data_array_to_binary (&a->base);
    VF_ASSERT (a->base.type == IOT_DATA_BINARY && a->base.element_type == IOT_DATA_UINT8 && a->data == p && a->length == len && a->base.hash == h, "only the type changes");
    iot_data_binary_to_array (&a->base);
    VF_ASSERT (a->base.type == IOT_DATA_ARRAY && a->base.element_type == IOT_DATA_UINT8 && a->data == p && a->length == len && a->base.hash == h, "only the type changes back");
  }
  VF_REACH ("end");
}
/*@ OBL D10.any_take prop=D10,D04 class=proved defs=-DLOCAL unwind=2 flags="--object-bits 12" fns=iot_data_binary_take
*/
void h_any_take (void)
{
  uint32_t len, n = 0; size_t es;
  iot_data_array_t * a = any_array (&len, &es);
  a->base.release = vf_bool ();
  uint32_t refs = vf_range (1, 0xffffffffu);
  atomic_store (&a->base.refs, refs);
  uint64_t at = vf_u64 ();
  VF_ASSUME (at < (uint64_t) len * es);
  uint8_t * p = a->data, b = p[at];
  long live = vf_live;
  uint8_t * q = iot_data_binary_take (&a->base, &n);
  VF_ASSERT (n == len * es, "the exact count of bytes");
  VF_ASSERT (q[at] == b, "every byte");
  VF_ASSERT (a->data != q, "nothing stays shared with the value");
  if (a->base.release && refs == 1) VF_ASSERT (q == p && a->data == NULL && a->length == 0 && vf_live == live, "a solely owned buffer is handed over");
  else VF_ASSERT (a->data == p && a->length == len && p[at] == b && vf_live == live + 1, "otherwise the value keeps its buffer");
  VF_REACH ("end");
}
#endif

static void store (void * p, iot_data_type_t t, uint32_t i, uint64_t v)
{
  switch (t)
  {
    case IOT_DATA_INT8: case IOT_DATA_UINT8: ((uint8_t*) p)[i] = (uint8_t) v; break;
    case IOT_DATA_BOOL: ((bool*) p)[i] = v & 1; break;
    case IOT_DATA_INT16: case IOT_DATA_UINT16: ((uint16_t*) p)[i] = (uint16_t) v; break;
    case IOT_DATA_INT32: case IOT_DATA_UINT32: ((uint32_t*) p)[i] = (uint32_t) v; break;
    case IOT_DATA_INT64: case IOT_DATA_UINT64: ((uint64_t*) p)[i] = v; break;
    case IOT_DATA_FLOAT32: ((float*) p)[i] = kf32 (v); break;
    default: ((double*) p)[i] = kf64 (v); break;
  }
}
static const uint8_t esizes [11] = { 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, sizeof (bool) };

/*@ OBL D10.make prop=D10,D01,D04 class=bounded split=8 unwind=40 cost=4 flags="--object-bits 14" fns=iot_data_alloc_array,iot_data_alloc_binary,iot_data_array_iter,iot_data_array_iter_next,iot_data_array_iter_prev,iot_data_array_get,iot_data_equal,iot_data_compare,iot_data_binary_take,iot_data_free bound="all element types, lengths 0 to 2, every ownership, contents arbitrary in up to 4 bytes"
*/
void h_make (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (iot_data_type_t t = IOT_DATA_INT8; t <= IOT_DATA_BOOL; t++) for (uint32_t n = 0; n <= 2; n++) for (int own = 0; own < 3; own++)
  {
    if (!VF_MINE (code++)) continue;
    uint32_t es = esizes[t];
    uint8_t * buf = malloc (n * es + 1), * keep = malloc (n * es + 1);
    for (uint32_t i = 0; i < n; i++) { uint64_t v = n * es <= 4 ? vf_u64 () : 0x0102030405060700u + (i ? 0x55u : vf_u8 ()); store (buf, t, i, v); store (keep, t, i, v); }
    iot_data_ownership_t o = own == 0 ? IOT_DATA_COPY : own == 1 ? IOT_DATA_TAKE : IOT_DATA_REF;
    iot_data_t * a = iot_data_alloc_array (buf, n, t, o);
    VF_ASSERT (iot_data_type (a) == IOT_DATA_ARRAY && iot_data_array_type (a) == t && iot_data_array_length (a) == n && iot_data_array_size (a) == n * es && iot_data_length (a) == n, "type, length and size");
    if (n && o != IOT_DATA_COPY) VF_ASSERT (iot_data_address (a) == buf, "taken and referenced buffers are used in place");
    if (n && o == IOT_DATA_COPY) { VF_ASSERT (iot_data_address (a) != buf, "a copied buffer is separate"); buf[0] ^= 0xff; }
    VF_ASSERT (same_bytes (iot_data_address (a), keep, n * es), "exactly the given bytes");
    for (uint32_t i = 0; i < n; i++) VF_ASSERT (same_bytes (iot_data_array_get (a, i), keep + i * es, es), "element at an index");
    iot_data_array_iter_t it;
    iot_data_array_iter (a, &it);
    for (uint32_t i = 0; i < n; i++) VF_ASSERT (iot_data_array_iter_has_next (&it) && iot_data_array_iter_next (&it) && iot_data_array_iter_index (&it) == i && same_bytes (iot_data_array_iter_value (&it), keep + i * es, es), "forward iteration");
    VF_ASSERT (iot_data_array_iter_has_next (&it) == false || n == 0 ? !iot_data_array_iter_next (&it) : false, "forward iteration ends");
    iot_data_array_iter (a, &it);
    for (uint32_t i = n; i > 0; i--) VF_ASSERT (iot_data_array_iter_prev (&it) && iot_data_array_iter_index (&it) == i - 1 && same_bytes (iot_data_array_iter_value (&it), keep + (i - 1) * es, es), "backward iteration");
    VF_ASSERT (!iot_data_array_iter_prev (&it), "backward iteration ends");
    iot_data_t * b = iot_data_alloc_array (keep, n, t, IOT_DATA_REF);
    VF_ASSERT (iot_data_hash (a) == iot_data_hash (b) && iot_data_equal (a, b) && iot_data_compare (a, b) == 0, "arrays of the same bytes are equal and hash alike whatever their ownership");
    /* taking the buffer */
    uint32_t len = 77;
    iot_data_add_ref (b);
    uint8_t * q = iot_data_binary_take (b, &len);
    VF_ASSERT (len == n * es && same_bytes (q, keep, len) && (n == 0 || (q != keep && iot_data_address (b) == keep)), "taking from a shared or referenced array copies all bytes");
    if (q) free (q);
    iot_data_free (b); iot_data_free (b);
    q = iot_data_binary_take (a, &len);
    VF_ASSERT (len == n * es && same_bytes (q, keep, len), "taking returns all bytes");
    if (n && o != IOT_DATA_REF)
    {
      b = iot_data_alloc_array (NULL, 0, t, IOT_DATA_REF);
      VF_ASSERT (iot_data_array_length (a) == 0 && iot_data_equal (a, b) && iot_data_hash (a) == iot_data_hash (b), "and leaves an empty array");
      iot_data_free (b);
    }
    iot_data_free (a);
    VF_ASSERT (same_bytes (q, keep, len), "the taken bytes survive the value");
    if (q) free (q);
    free (keep);
    if (o != IOT_DATA_TAKE) free (buf);
    VF_ASSERT (vf_live == 0, "everything is released exactly once");
  }
  VF_REACH ("end");
}

/*@ OBL D10.text prop=D10,D11,D04 class=bounded split=4 unwind=40 cost=4 flags="--object-bits 14" fns=iot_data_binary_from_string,iot_data_string_from_binary,iot_data_alloc_binary,iot_data_array_to_binary,iot_data_binary_to_array bound="all texts of length up to 3"
*/
void h_text (void)
{
  vf_data_init ();
  for (uint32_t n = 0; n <= 3; n++)
  {
    if (!VF_MINE (n)) continue;
    char s [4], keep [4];
    for (uint32_t i = 0; i < n; i++) { s[i] = vf_char (); VF_ASSUME (s[i] != 0); }
    s[n] = 0;
    for (uint32_t i = 0; i <= n; i++) keep[i] = s[i];
    iot_data_t * t = iot_data_alloc_string (s, IOT_DATA_COPY);
    iot_data_t * b = iot_data_binary_from_string (t);
    VF_ASSERT (iot_data_type (b) == IOT_DATA_BINARY && iot_data_array_type (b) == IOT_DATA_UINT8 && iot_data_array_length (b) == n, "a binary of the length of the text");
    VF_ASSERT (same_bytes (iot_data_address (b), keep, n), "with the bytes of the text");
    iot_data_t * u = iot_data_string_from_binary (b);
    VF_ASSERT (iot_data_type (u) == IOT_DATA_STRING && strcmp (iot_data_string (u), keep) == 0 && iot_data_equal (u, t) && iot_data_hash (u) == iot_data_hash (t), "text converted to binary and back is unchanged");
    iot_data_binary_to_array (b);
    iot_data_t * a = iot_data_alloc_array (keep, n, IOT_DATA_UINT8, IOT_DATA_REF);
    VF_ASSERT (same (a, b) && iot_data_equal (a, b) && iot_data_hash (a) == iot_data_hash (b), "the binary as an array");
    iot_data_array_to_binary (b);
    iot_data_t * c = iot_data_alloc_binary (keep, n, IOT_DATA_REF);
    VF_ASSERT (same (c, b) && iot_data_equal (c, b) && iot_data_hash (c) == iot_data_hash (b), "and back as a binary");
    iot_data_free (a); iot_data_free (b); iot_data_free (c); iot_data_free (t);
    VF_ASSERT (strcmp (iot_data_string (u), keep) == 0, "independent of its sources");
    iot_data_free (u);
    VF_ASSERT (vf_live == 0, "everything is released exactly once");
  }
  VF_REACH ("end");
}

/* order of arrays: by length, element type and content */
/*@ OBL D10.order prop=D10,D01 class=bounded split=8 unwind=40 cost=4 flags="--object-bits 14" fns=iot_data_compare,iot_data_equal,iot_data_hash bound="pairs of arrays of up to 2 elements of 4 types, contents arbitrary in 2 bytes"
*/
void h_order (void)
{
  static const iot_data_type_t ts [4] = { IOT_DATA_UINT8, IOT_DATA_INT8, IOT_DATA_UINT16, IOT_DATA_INT32 };
  vf_data_init ();
  uint32_t code = 0;
  for (int t = 0; t < 4; t++) for (int u = 0; u < 4; u++) for (uint32_t n = 0; n <= 2; n++) for (uint32_t m = 0; m <= 2; m++)
  {
    if (!VF_MINE (code++)) continue;
    uint8_t p [8], q [8];
    for (uint32_t i = 0; i < 8; i++) { p[i] = i % 4 == 3 ? 5 : i < 2 ? vf_u8 () : 9; q[i] = i % 4 == 3 ? 5 : i < 2 ? vf_u8 () : 9; }
    iot_data_t * a = iot_data_alloc_array (p, n, ts[t], IOT_DATA_REF), * b = iot_data_alloc_array (q, m, ts[u], IOT_DATA_REF);
    bool eq = n == m && t == u && same_bytes (p, q, n * esizes[ts[t]]);
    VF_ASSERT ((iot_data_compare (a, b) == 0) == eq && iot_data_equal (a, b) == eq && iot_data_equal (b, a) == eq, "equal exactly when length, element type and bytes agree");
    if (eq) VF_ASSERT (iot_data_hash (a) == iot_data_hash (b), "equal arrays hash alike");
    iot_data_free (a); iot_data_free (b);
  }
  VF_REACH ("end");
}

/*@ OBL D10.base64 prop=D10,B01,D04 class=bounded split=2 unwind=40 cost=4 flags="--object-bits 14" fns=iot_data_alloc_array_from_base64 bound="all texts of length up to 4"
*/
void h_base64 (void)
{
  vf_data_init ();
  for (uint32_t n = 0; n <= 4; n++)
  {
    if (!VF_MINE (n)) continue;
    char s [5];
    for (uint32_t i = 0; i < n; i++) { s[i] = vf_char (); VF_ASSUME (s[i] != 0); }
    s[n] = 0;
    size_t len = iot_b64_maxdecodesize (s);
    uint8_t out [8];
    bool ok = iot_b64_decode (s, out, &len);
    iot_data_t * a = iot_data_alloc_array_from_base64 (s);
    VF_ASSERT ((a != NULL) == ok, "an array exactly for decodable text");
    if (a)
    {
      VF_ASSERT (iot_data_type (a) == IOT_DATA_ARRAY && iot_data_array_type (a) == IOT_DATA_UINT8 && iot_data_array_length (a) == len && same_bytes (iot_data_address (a), out, len), "holding the decoded bytes");
      iot_data_free (a);
    }
    VF_ASSERT (vf_live == 0, "everything is released exactly once");
  }
  VF_REACH ("end");
}
