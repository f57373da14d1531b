/* C01: CBOR. The encoder over contracts of the value accessors (D05-D12): values are nodes of a table.
 * DIRECT: one scalar, text or binary value into any buffer state (any size, any fill), any value and any length.
 * otherwise: whole documents of enumerated shapes through the public functions, decoded by the reader below. */
#include "vf.h"
#include "iot/os.h"
static void * vf_malloc (size_t n); static void * vf_realloc (void * p, size_t n); static void vf_free (void * p);
#ifdef DIRECT
static void vf_copy (void * d, const void * s, size_t n); static size_t vf_strlen (const char * s);
#undef memcpy
#undef strlen
#define memcpy(d, s, n) vf_copy (d, s, n)
#define strlen(s) vf_strlen (s)
#endif
#define malloc(n) vf_malloc (n)
#define realloc(p, n) vf_realloc (p, n)
#define free(p) vf_free (p)
#include "src/c/data-cbor.c"
#undef malloc
#undef realloc
#undef free
#undef memcpy
#undef strlen
#define NN 10
static iot_data_t N [NN + 1]; static uint64_t V [NN]; static int kid [NN][6], kids [NN]; static const char * S [NN]; static uint32_t L [NN]; static float F [NN]; static double D [NN];
static int nn;
#ifdef DIRECT
#define COUNT(i) L[i] /* the elements themselves are left out: kids is 0 */
#define ELEMENTS(i) (uint32_t) kids[i]
#else
#define COUNT(i) (uint32_t) kids[i]
#define ELEMENTS(i) L[i]
#endif
static int at (const void * d) { int i = (int) ((const iot_data_t*) d - N); VF_ASSERT (i >= 0 && i <= NN, "a value of the document"); return i; }
#define GET(t, name, T) t name (const iot_data_t * d) { int i = at (d); VF_ASSERT (d->type == T, "read as what it is"); return (t) V[i]; }
GET (uint8_t, iot_data_ui8, IOT_DATA_UINT8) GET (uint16_t, iot_data_ui16, IOT_DATA_UINT16) GET (uint32_t, iot_data_ui32, IOT_DATA_UINT32) GET (uint64_t, iot_data_ui64, IOT_DATA_UINT64)
GET (int8_t, iot_data_i8, IOT_DATA_INT8) GET (int16_t, iot_data_i16, IOT_DATA_INT16) GET (int32_t, iot_data_i32, IOT_DATA_INT32) GET (int64_t, iot_data_i64, IOT_DATA_INT64)
bool iot_data_bool (const iot_data_t * d) { VF_ASSERT (d->type == IOT_DATA_BOOL, "read as what it is"); return V[at (d)] != 0; }
float iot_data_f32 (const iot_data_t * d) { VF_ASSERT (d->type == IOT_DATA_FLOAT32, "read as what it is"); return F[at (d)]; }
double iot_data_f64 (const iot_data_t * d) { VF_ASSERT (d->type == IOT_DATA_FLOAT64, "read as what it is"); return D[at (d)]; }
const char * iot_data_string (const iot_data_t * d) { VF_ASSERT (d->type == IOT_DATA_STRING, "read as what it is"); return S[at (d)]; }
const void * iot_data_address (const iot_data_t * d) { return S[at (d)]; }
uint32_t iot_data_array_size (const iot_data_t * d) { return L[at (d)] * (d->element_type == IOT_DATA_UINT16 ? 2 : 1); }
uint32_t iot_data_array_length (const iot_data_t * d) { return L[at (d)]; }
iot_data_type_t iot_data_array_type (const iot_data_t * d) { return d->element_type; }
iot_data_t * iot_data_alloc_null (void) { N[NN].type = IOT_DATA_NULL; return &N[NN]; }
void iot_data_array_iter (const iot_data_t * d, iot_data_array_iter_t * it) { it->_array = (const void*) d; it->_index = 0; }
bool iot_data_array_iter_next (iot_data_array_iter_t * it) { return ++it->_index <= ELEMENTS (at (it->_array)); }
const void * iot_data_array_iter_value (const iot_data_array_iter_t * it) { int i = at (it->_array); return S[i] + (it->_index - 1) * (N[i].element_type == IOT_DATA_UINT16 ? 2 : 1); }
uint32_t iot_data_vector_size (const iot_data_t * d) { return COUNT (at (d)); }
void iot_data_vector_iter (const iot_data_t * d, iot_data_vector_iter_t * it) { it->_vector = (const void*) d; it->_index = 0; }
bool iot_data_vector_iter_next (iot_data_vector_iter_t * it) { return ++it->_index <= (uint32_t) kids[at (it->_vector)]; }
static const iot_data_t * node (int i) { return i < 0 ? NULL : &N[i]; }
const iot_data_t * iot_data_vector_iter_value (const iot_data_vector_iter_t * it) { return node (kid[at (it->_vector)][it->_index - 1]); }
uint32_t iot_data_list_length (const iot_data_t * d) { return COUNT (at (d)); }
void iot_data_list_iter (const iot_data_t * d, iot_data_list_iter_t * it) { it->_list = (const void*) d; it->_element = (void*) &N[0]; }
bool iot_data_list_iter_next (iot_data_list_iter_t * it) { it->_element = (void*) ((iot_data_t*) it->_element + 1); return at (it->_element) <= kids[at (it->_list)]; }
const iot_data_t * iot_data_list_iter_value (const iot_data_list_iter_t * it) { return node (kid[at (it->_list)][at (it->_element) - 1]); }
uint32_t iot_data_map_size (const iot_data_t * d)
{
#ifdef DIRECT
  return L[at (d)];
#else
  return (uint32_t) kids[at (d)] / 2;
#endif
}
void iot_data_map_iter (const iot_data_t * d, iot_data_map_iter_t * it) { it->_map = (const void*) d; it->_count = 0; }
bool iot_data_map_iter_next (iot_data_map_iter_t * it) { return 2 * ++it->_count <= (uint32_t) kids[at (it->_map)]; }
const iot_data_t * iot_data_map_iter_key (const iot_data_map_iter_t * it) { return node (kid[at (it->_map)][2 * it->_count - 2]); }
const iot_data_t * iot_data_map_iter_value (const iot_data_map_iter_t * it) { return node (kid[at (it->_map)][2 * it->_count - 1]); }
static uint8_t * out; static size_t out_len; static int taken;
iot_data_t * iot_data_alloc_binary (void * p, uint32_t n, iot_data_ownership_t o) { VF_ASSERT (o == IOT_DATA_TAKE, "the buffer is handed over"); out = p; out_len = n; taken++; return &N[NN]; }

/* one item at pos: initial byte and argument in any of the standard sizes */
static uint8_t major; static uint64_t arg; static bool simple;
static size_t head (const uint8_t * b, size_t pos, size_t end)
{
  VF_ASSERT (pos < end, "an item begins");
  uint8_t h = b[pos++]; major = h >> 5; uint8_t ai = h & 31;
  VF_ASSERT (ai <= 27, "the argument has a standard size");
  size_t n = ai < 24 ? 0 : (size_t) 1 << (ai - 24);
  VF_ASSERT (pos + n <= end, "the argument is there");
  arg = ai;
  if (n) arg = 0;
  for (size_t i = 0; i < 8; i++) if (i < n) arg = arg << 8 | b[pos + i];
  simple = major == 7; if (simple) arg = n == 0 ? ai : arg; 
  return pos + n;
}
static bool known_negative;
static void check_int (int64_t v)
{
  if (v >= 0) { VF_ASSERT (major == 0 && arg == (uint64_t) v, "a non-negative integer is its value"); return; }
  VF_ASSERT (major == 1, "a negative integer has major type 1");
  if (known_negative) VF_ASSERT (arg == (uint64_t) -(v + 1), "its argument is -1 - value");
  else VF_ASSERT (arg == (uint64_t) -(v + 1) || arg == (uint64_t) -(v + 1) + 1, "its argument comes from its value");
}
#ifdef DIRECT
/* any state of the buffer. Its size is a ghost; the first CAP bytes are physically there, what lies beyond the size must not be touched. */
#define CAP 28
/* one of n: each part of the obligation takes its own */
static uint32_t pick (uint32_t n) { return PARTS == n ? PART : n - 1; }
static size_t i0, p0, q0, cur_size; static uint8_t * cur; static uint8_t pre, canary;
static const char * text; static size_t text_len, put_at; static bool text_copied;
static void * vf_malloc (size_t n) { return malloc (n); }
static void fresh (size_t n) { cur = malloc (CAP); cur_size = n; q0 = vf_below (CAP); canary = cur[q0]; }
static void untouched (void) { VF_ASSERT (q0 < cur_size || cur[q0] == canary, "nothing is written beyond the buffer"); }
static void * vf_realloc (void * p, size_t n)
{
  VF_ASSERT (p == (void*) cur && n > cur_size, "the buffer is enlarged");
  untouched ();
  uint8_t * o = cur; size_t os = cur_size;
  fresh (n);
  for (size_t i = 0; i < CAP; i++) if (i < os) cur[i] = o[i];
  canary = cur[q0];
  return cur;
}
static void vf_free (void * p) {}
static size_t vf_strlen (const char * s) { VF_ASSERT (s == text, "of the text"); return text_len; }
static void vf_copy (void * d, const void * s, size_t n)
{
  if (s == (const void*) text && text != NULL)
  {
    put_at = (size_t) ((uint8_t*) d - cur);
    VF_ASSERT (n == text_len && !text_copied, "all of the content, once");
    VF_ASSERT (put_at <= cur_size && n <= cur_size - put_at, "within the buffer");
    text_copied = true;
    return;
  }
  VF_ASSERT (n <= 8, "a number");
  for (size_t i = 0; i < 8; i++) if (i < n) ((uint8_t*) d)[i] = ((const uint8_t*) s)[i];
}
static iot_cbor_holder_t H;
static void any_buffer (void)
{
  size_t n = 1 + (size_t) vf_below (UINT32_MAX);
  i0 = vf_below (9); VF_ASSUME (i0 <= n);
  p0 = vf_below (9); VF_ASSUME (p0 < n);
  fresh (n); pre = cur[p0];
  H.data = cur; H.size = n; H.index = i0;
}
static void after (void)
{
  untouched ();
  VF_ASSERT (H.data == cur && H.size <= cur_size && H.index <= H.size, "what is filled is within the buffer");
  VF_ASSERT (p0 >= i0 || cur[p0] == pre, "what was there before is unchanged");
}
static void run (void)
{
  any_buffer ();
  iot_data_dump_cbor (&H, &N[0]);
  after ();
}
static const iot_data_type_t T [12] = { IOT_DATA_UINT8, IOT_DATA_UINT16, IOT_DATA_UINT32, IOT_DATA_UINT64, IOT_DATA_INT8, IOT_DATA_INT16, IOT_DATA_INT32, IOT_DATA_INT64, IOT_DATA_BOOL, IOT_DATA_NULL, IOT_DATA_FLOAT32, IOT_DATA_FLOAT64 };
static void check_scalar (uint32_t t, uint64_t v)
{
  uint64_t w; uint32_t b32 = (uint32_t) v;
  size_t end = head (cur, i0, H.index);
  VF_ASSERT (end == H.index, "one item and nothing else");
  uint8_t h = cur[i0];
  switch (t)
  {
    case 0: w = (uint8_t) v; VF_ASSERT (major == 0 && arg == w, "its value"); break;
    case 1: w = (uint16_t) v; VF_ASSERT (major == 0 && arg == w, "its value"); break;
    case 2: w = (uint32_t) v; VF_ASSERT (major == 0 && arg == w, "its value"); break;
    case 3: VF_ASSERT (major == 0 && arg == v, "its value"); break;
    case 4: check_int ((int8_t) v); break;
    case 5: check_int ((int16_t) v); break;
    case 6: check_int ((int32_t) v); break;
    case 7: check_int ((int64_t) v); break;
    case 8: VF_ASSERT (h == (v ? 0xf5 : 0xf4), "true or false"); break;
    case 9: VF_ASSERT (h == 0xf6, "null"); break;
    case 10: VF_ASSERT (h == 0xfa && arg == b32, "the bits of a single"); break;
    default: VF_ASSERT (h == 0xfb && arg == v, "the bits of a double"); break;
  }
}
/*@ OBL C01.scalar class=bounded split=12 unwind=30 defs=-DDIRECT fns=iot_data_dump_cbor,iot_data_cbor_write_uint,iot_data_cbor_write_int,iot_cbor_holder_check_size,iot_data_cbor_write_bytes,iot_data_cbor_write_f32,iot_data_cbor_write_f64 bound="any value and length, buffers of any size filled up to 8 bytes" timeout=300
*/
/*@ OBL C01.negative class=bounded unwind=30 defs="-DDIRECT -DNEG" known=1 fns=iot_data_cbor_write_int bound="any value and length, buffers of any size filled up to 8 bytes" timeout=300
*/
void h_scalar (void)
{
#ifdef NEG
  uint32_t t = 4 + pick (4); known_negative = true;
#else
  uint32_t t = pick (12);
#endif
  uint64_t v = vf_u64 ();
  N[0].type = T[t]; V[0] = v;
  uint32_t b32 = (uint32_t) v; union { uint32_t u; float f; } uf = { b32 }; union { uint64_t u; double d; } ud = { v }; F[0] = uf.f; D[0] = ud.d;
  run ();
  check_scalar (t, v);
  VF_REACH ("end");
}
/*@ OBL C01.element class=bounded split=12 unwind=30 defs=-DDIRECT fns=iot_data_dump_cbor_ptr,iot_data_cbor_write_uint,iot_data_cbor_write_int,iot_data_cbor_write_f32,iot_data_cbor_write_f64 bound="any element, buffers of any size filled up to 8 bytes" timeout=300
*/
void h_element (void)
{
  uint32_t t = pick (12);
  union { uint64_t v; bool b; float f; double d; int64_t i; int32_t w; int16_t h; int8_t c; uint32_t uw; uint16_t uh; uint8_t uc; } e;
  uint64_t v = vf_u64 ();
  e.v = 0; if (t == 8) { v &= 1; e.b = v != 0; } else e.v = v;
  any_buffer ();
  iot_data_dump_cbor_ptr (&H, &e, T[t]);
  after ();
  check_scalar (t, v);
  VF_REACH ("end");
}
/*@ OBL C01.head class=bounded split=4 unwind=30 defs=-DDIRECT fns=iot_data_dump_cbor,iot_data_cbor_write_uint bound="any number of elements, buffers of any size filled up to 8 bytes" timeout=300
*/
void h_head (void)
{
  static const iot_data_type_t C [4] = { IOT_DATA_ARRAY, IOT_DATA_VECTOR, IOT_DATA_LIST, IOT_DATA_MAP };
  uint32_t c = pick (4);
  N[0].type = C[c]; N[0].element_type = IOT_DATA_UINT8; L[0] = vf_u32 ();
  run ();
  size_t end = head (cur, i0, H.index);
  VF_ASSERT (end == H.index && major == (c == 3 ? 5 : 4) && arg == L[0], "an array or map with the number of its elements");
  VF_REACH ("end");
}
/*@ OBL C01.text class=bounded split=2 unwind=30 defs=-DDIRECT fns=iot_data_dump_cbor,iot_data_cbor_write_uint,iot_data_cbor_write_bytes,iot_cbor_holder_check_size bound="any value and length, buffers of any size filled up to 8 bytes" timeout=300
*/
void h_text (void)
{
  bool str = pick (2) == 0;
  static char s [2];
  text_len = vf_u32 ();
  text = s; S[0] = s; L[0] = (uint32_t) text_len;
  N[0].type = str ? IOT_DATA_STRING : IOT_DATA_BINARY; N[0].element_type = IOT_DATA_UINT8;
  run ();
  size_t end = head (cur, i0, H.index);
  VF_ASSERT (major == (str ? 3 : 2) && arg == text_len, "text or bytes with their length");
  VF_ASSERT (H.index == end + text_len, "followed by as many bytes");
  VF_ASSERT (text_len == 0 || (text_copied && put_at == end), "the content");
  VF_REACH ("end");
}
/*@ OBL C01.space class=proved unwind=2 defs=-DSPACE fns=iot_cbor_holder_check_size
*/
#elif defined (SPACE)
static uint64_t objs [2]; static size_t obj_size; static int grown;
static void * vf_malloc (size_t n) { return NULL; } static void vf_free (void * p) {}
static void * vf_realloc (void * p, size_t n) { VF_ASSERT (p == (void*) &objs[0] && !grown, "the buffer is enlarged once"); grown++; obj_size = n; return &objs[1]; }
void h_space (void)
{
  iot_cbor_holder_t H; size_t need = (size_t) vf_u64 (), size = (size_t) vf_u64 (), index = (size_t) vf_u64 ();
  VF_ASSUME (size < (1ull << 62) && index <= size && need < (1ull << 62));
  H.data = (uint8_t*) &objs[0]; H.size = size; H.index = index; obj_size = size;
  iot_cbor_holder_check_size (&H, need);
  VF_ASSERT (H.index == index && H.size == obj_size && H.size >= size, "the size recorded is that of the buffer");
  VF_ASSERT (H.size - H.index >= need, "there is room for what is asked");
  VF_ASSERT (H.data == (uint8_t*) &objs[grown], "the buffer recorded is the one there is");
  VF_REACH ("end");
}
#else
static long live;
static void * vf_malloc (size_t n) { live++; return malloc (n); }
static void * vf_realloc (void * p, size_t n)
{
#ifdef VF_NATIVE
  return realloc (p, n);
#else
  uint8_t * r = malloc (n); size_t o = __CPROVER_OBJECT_SIZE (p);
  for (size_t i = 0; i < o && i < n; i++) r[i] = ((uint8_t*) p)[i];
  free (p);
  return r;
#endif
}
static void vf_free (void * p) { if (p) live--; free (p); }
static int add (iot_data_type_t t, uint64_t v) { int i = nn++; N[i].type = t; V[i] = v; kids[i] = 0; S[i] = NULL; L[i] = 0; return i; }
static char big [256]; static const uint16_t words [3] = { 1, 300, 23 };
static const uint64_t val [12] = { 0, 23, 24, 255, 256, 65535, 65536, 4294967295u, 4294967296u, UINT64_MAX, 7, 100 };
/* leaves of every sort */
static int leaf (int k)
{
  int i;
  if (k < 10) return add (IOT_DATA_UINT64, val[k]);
  switch (k)
  {
    case 10: return add (IOT_DATA_BOOL, 1);
    case 11: return add (IOT_DATA_NULL, 0);
    case 12: i = add (IOT_DATA_STRING, 0); S[i] = ""; return i;
    case 13: i = add (IOT_DATA_STRING, 0); S[i] = "abc"; return i;
    case 14: i = add (IOT_DATA_STRING, 0); S[i] = "0123456789012345678901234"; return i;
    case 15: i = add (IOT_DATA_BINARY, 0); N[i].element_type = IOT_DATA_UINT8; S[i] = "\x01\x00\xff"; L[i] = 3; return i;
    case 16: i = add (IOT_DATA_ARRAY, 0); N[i].element_type = IOT_DATA_UINT8; S[i] = "\x01\x20\xff"; L[i] = 3; return i;
    case 17: i = add (IOT_DATA_ARRAY, 0); N[i].element_type = IOT_DATA_UINT16; S[i] = (const char*) words; L[i] = 3; return i;
    case 18: i = add (IOT_DATA_ARRAY, 0); N[i].element_type = IOT_DATA_INT8; S[i] = ""; L[i] = 0; return i;
    case 19: i = add (IOT_DATA_ARRAY, 0); N[i].element_type = IOT_DATA_BOOL; S[i] = "\x01\x00"; L[i] = 2; return i;
    case 20: i = add (IOT_DATA_VECTOR, 0); return i;
    case 21: i = add (IOT_DATA_MAP, 0); return i;
    default: i = add (IOT_DATA_LIST, 0); return i;
  }
}
#define LEAVES 23
static size_t item (int i, size_t pos)
{
  if (i < 0) { pos = head (out, pos, out_len); VF_ASSERT (out[pos - 1] == 0xf6, "what is not set is null"); return pos; }
  size_t begin = pos;
  pos = head (out, pos, out_len);
  switch (N[i].type)
  {
    case IOT_DATA_UINT64: VF_ASSERT (major == 0 && arg == V[i], "its value"); break;
    case IOT_DATA_BOOL: VF_ASSERT (out[begin] == (V[i] ? 0xf5 : 0xf4), "true or false"); break;
    case IOT_DATA_NULL: VF_ASSERT (out[begin] == 0xf6, "null"); break;
    case IOT_DATA_STRING: { size_t n = strlen (S[i]); VF_ASSERT (major == 3 && arg == n && pos + n <= out_len, "text with its length"); for (size_t j = 0; j < n; j++) VF_ASSERT (out[pos + j] == (uint8_t) S[i][j], "unchanged"); pos += n; break; }
    case IOT_DATA_BINARY: { VF_ASSERT (major == 2 && arg == L[i] && pos + L[i] <= out_len, "bytes with their length"); for (size_t j = 0; j < L[i]; j++) VF_ASSERT (out[pos + j] == (uint8_t) S[i][j], "unchanged"); pos += L[i]; break; }
    case IOT_DATA_ARRAY:
      VF_ASSERT (major == 4 && arg == L[i], "an array of its elements");
      for (uint32_t j = 0; j < L[i]; j++)
      {
        size_t b = pos; pos = head (out, pos, out_len);
        if (N[i].element_type == IOT_DATA_BOOL) VF_ASSERT (out[b] == (S[i][j] ? 0xf5 : 0xf4), "true or false");
        else VF_ASSERT (major == 0 && arg == (N[i].element_type == IOT_DATA_UINT16 ? words[j] : (uint8_t) S[i][j]), "each element in order");
      }
      break;
    case IOT_DATA_MAP: VF_ASSERT (major == 5 && arg == (uint64_t) kids[i] / 2, "a map of its pairs"); for (int j = 0; j < kids[i]; j++) pos = item (kid[i][j], pos); break;
    default: VF_ASSERT (major == 4 && arg == (uint64_t) kids[i], "an array of its elements"); for (int j = 0; j < kids[i]; j++) pos = item (kid[i][j], pos); break;
  }
  return pos;
}
static void encode (int root, uint32_t space)
{
  taken = 0; out = NULL;
  iot_data_t * r = space ? iot_data_to_cbor_with_size (&N[root], space) : iot_data_to_cbor (&N[root]);
  VF_ASSERT (r != NULL && taken == 1 && live == 1, "one buffer is handed over");
  VF_ASSERT (item (root, 0) == out_len, "the items of the value and nothing else");
  vf_free (out); VF_NEXT ();
}
/*@ OBL C01.leaves class=bounded unwind=40 defs=-DDOC flags="--max-field-sensitivity-array-size 600 --unwindset item:2" fns=iot_data_to_cbor,iot_data_to_cbor_with_size,iot_data_dump_cbor,iot_data_dump_cbor_ptr bound="23 sorts of value into buffers of 1, 3 and 512 bytes"
*/
void h_leaves (void)
{
  static const uint32_t sp [3] = { 1, 3, 0 };
  for (int k = 0; k < LEAVES; k++) for (int s = 0; s < 2; s++) { nn = 0; encode (leaf (k), sp[s]); }
  nn = 0; encode (leaf (13), 0);
  VF_REACH ("end");
}
/*@ OBL C01.nested class=bounded unwind=40 defs=-DDOC flags="--max-field-sensitivity-array-size 600" split=23 fns=iot_data_to_cbor_with_size,iot_data_dump_cbor bound="vectors, lists and maps of two values of all pairs of 23 sorts, unset slots and values, one level deeper"
*/
void h_nested (void)
{
  int code = 0;
  static const iot_data_type_t C [3] = { IOT_DATA_VECTOR, IOT_DATA_LIST, IOT_DATA_MAP };
  for (int a = 0; a < LEAVES; a++)
  {
    if (!VF_MINE (code++)) continue;
    for (int b = -1; b < LEAVES; b += 1 + (a & 1)) for (int c = 0; c < 3; c++)
    {
      nn = 0;
      int r = add (IOT_DATA_LIST, 0), i = add (C[c], 0), x = leaf (a), y = b < 0 ? -1 : leaf (b);
      if (c == 1 && y < 0) continue;
      if (c < 2) { kid[i][0] = x; kid[i][1] = y; kids[i] = 2; }
      else { int q = leaf (13); kid[i][0] = q; kid[i][1] = y; kid[i][2] = leaf (14); kid[i][3] = x; kids[i] = 4; }
      kid[r][0] = i; kid[r][1] = leaf (0); kids[r] = 2;
      encode (b == 3 ? r : i, 1 + (uint32_t) b % 3);
    }
  }
  VF_REACH ("end");
}
#endif
