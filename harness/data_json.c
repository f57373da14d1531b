/* J03: JSON text to values and back. The real tokenizer, decoder and encoder over contracts of the value
 * functions (D05-D12): values are nodes of a table with their reference counts, so that leaks and uses after
 * release are seen. The appending of escaped text is J01's contract; number formatting and scanning are those of libc. */
#include "vf.h"
#include <inttypes.h>
#include "iot/os.h"
#include "iot/data.h"
#include "iot/base64.h"
static int vf_scan (const char * s, const char * f, void * p);
static int vf_print (char * b, size_t n, const char * f, int64_t v);
static long live_mem;
static void * vf_calloc (size_t a, size_t n); static void * vf_malloc (size_t n); static void vf_free (void * p);
#define sscanf(s, f, p) vf_scan (s, f, p)
#define A1(f, ...) f
#define A2(f, v, ...) ((int64_t) (v))
#define snprintf(b, n, ...) vf_print (b, n, A1 (__VA_ARGS__, 0), A2 (__VA_ARGS__, 0, 0))
#define strtod(s, e) 1.5
#define c32rtomb(d, c, ps) vf_mb (d, c)
static size_t vf_mb (char * d, uint32_t c);
#define calloc(a, n) vf_calloc (a, n)
#define malloc(n) vf_malloc (n)
#define free(p) vf_free (p)
#include "src/c/json.c"
#include "src/c/data-json.c"
#undef calloc
#undef malloc
#undef free
#undef snprintf
#undef sscanf
static void * vf_calloc (size_t a, size_t n) { live_mem++; uint8_t * p = malloc (a * n ? a * n : 1); memset (p, 0, a * n); return p; }
static void * vf_malloc (size_t n) { live_mem++; return malloc (n); }
static void vf_free (void * p) { if (p) live_mem--; free (p); }
static int vf_scan (const char * s, const char * f, void * p)
{
  size_t fl = strlen (f); char k = f[fl - 1]; uint64_t v = 0; bool neg = false; int n = 0;
  if (k == 'x')
  {
    uint32_t x = 0;
    for (; n < 4; n++) { char c = s[n]; uint32_t d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (d == 99) break; x = x * 16 + d; }
    if (n) *(uint32_t*) p = x;
    return n > 0;
  }
  if (*s == '-' || *s == '+') { neg = *s == '-'; s++; }
  for (; s[n] >= '0' && s[n] <= '9'; n++) v = v * 10 + (uint64_t) (s[n] - '0');
  if (n == 0) return 0;
  if (neg) v = (uint64_t) 0 - v;
  *(uint64_t*) p = v;
  return 1;
}
static int vf_print (char * b, size_t n, const char * f, int64_t v)
{
  char t [24]; int k = 0, o = 0; size_t fl = strlen (f); uint64_t u = (uint64_t) v;
  if (f[0] != '%') { for (; f[k]; k++) b[k] = f[k]; b[k] = 0; return k; }
  if (f[fl - 1] == 'e') { b[0] = '1'; b[1] = '.'; b[2] = '5'; b[3] = 0; return 3; }
  if (f[fl - 1] == 'd' && v < 0) { b[o++] = '-'; u = (uint64_t) 0 - u; }
  do { t[k++] = (char) ('0' + u % 10); u /= 10; } while (u);
  while (k) b[o++] = t[--k];
  b[o] = 0;
  VF_ASSERT ((size_t) o < n, "a number fits its space");
  return o;
}
static size_t vf_mb (char * d, uint32_t c)
{
  if (c < 0x80) { d[0] = (char) c; return 1; }
  if (c < 0x800) { d[0] = (char) (0xc0 | c >> 6); d[1] = (char) (0x80 | (c & 63)); return 2; }
  if (c >= 0xd800 && c < 0xe000) return (size_t) -1;
  d[0] = (char) (0xe0 | c >> 12); d[1] = (char) (0x80 | (c >> 6 & 63)); d[2] = (char) (0x80 | (c & 63)); return 3;
}
/* ------------------------------------------------------------------ values */
#define NN 30
#define MK 10
static iot_data_t N [NN]; static uint64_t V [NN]; static char * S [NN]; static int kid [NN][MK], kids [NN], refs [NN], meta [NN]; static bool owned [NN];
static int nn, live;
iot_data_static_t iot_data_order;
static int at (const void * d) { int i = (int) ((const iot_data_t*) d - N); VF_ASSERT (i >= 0 && i < nn && refs[i] > 0, "a live value"); return i; }
static int node (iot_data_type_t t) { VF_ASSERT (nn < NN, "no more values than expected"); int i = nn++; N[i].type = t; V[i] = 0; S[i] = NULL; kids[i] = 0; refs[i] = 1; meta[i] = -1; owned[i] = false; live++; return i; }
static void drop (int i)
{
  VF_ASSERT (refs[i] > 0, "released once");
  if (--refs[i]) return;
  live--;
  if (owned[i]) vf_free (S[i]);
  for (int k = 0; k < kids[i]; k++) if (kid[i][k] >= 0) drop (kid[i][k]);
  if (meta[i] >= 0) drop (meta[i]);
}
void iot_data_free (iot_data_t * d) { if (d) drop (at (d)); }
iot_data_t * iot_data_add_ref (const iot_data_t * d) { if (d) refs[at (d)]++; return (iot_data_t*) d; }
iot_data_type_t iot_data_type (const iot_data_t * d) { return d ? N[at (d)].type : IOT_DATA_INVALID; }
iot_data_t * iot_data_alloc_bool (bool v) { int i = node (IOT_DATA_BOOL); V[i] = v; return &N[i]; }
iot_data_t * iot_data_alloc_null (void) { return &N[node (IOT_DATA_NULL)]; }
iot_data_t * iot_data_alloc_f64 (double v) { return &N[node (IOT_DATA_FLOAT64)]; }
iot_data_t * iot_data_alloc_i64 (int64_t v) { int i = node (IOT_DATA_INT64); V[i] = (uint64_t) v; return &N[i]; }
iot_data_t * iot_data_alloc_ui64 (uint64_t v) { int i = node (IOT_DATA_UINT64); V[i] = v; return &N[i]; }
iot_data_t * iot_data_alloc_string (const char * s, iot_data_ownership_t o) { int i = node (IOT_DATA_STRING); S[i] = (char*) s; owned[i] = o == IOT_DATA_TAKE; VF_ASSERT (o == IOT_DATA_TAKE, "the text is handed over"); return &N[i]; }
iot_data_t * iot_data_alloc_map (iot_data_type_t k) { VF_ASSERT (k == IOT_DATA_STRING, "text keys"); return &N[node (IOT_DATA_MAP)]; }
iot_data_t * iot_data_alloc_vector (uint32_t n) { VF_ASSERT (n <= MK, "as many as in the text"); int i = node (IOT_DATA_VECTOR); kids[i] = (int) n; for (int k = 0; k < MK; k++) kid[i][k] = -1; return &N[i]; }
void iot_data_vector_add (iot_data_t * v, uint32_t x, iot_data_t * e) { int i = at (v); VF_ASSERT (x < (uint32_t) kids[i], "a slot of the vector"); if (kid[i][x] >= 0) drop (kid[i][x]); kid[i][x] = e ? at (e) : -1; }
static bool equal_text (const char * a, const char * b) { size_t i = 0; for (; a[i] && a[i] == b[i]; i++) {} return a[i] == b[i]; }
static int lookup (int m, int key) { for (int k = 0; k < kids[m]; k += 2) if (equal_text (S[kid[m][k]], S[key])) return k; return -1; }
bool iot_data_map_key_is_of_type (const iot_data_t * m, iot_data_type_t t) { return m && m->type == IOT_DATA_MAP; }
const iot_data_t * iot_data_map_get (const iot_data_t * m, const iot_data_t * key) { int i = at (m), k = lookup (i, at (key)); return k < 0 || kid[i][k + 1] < 0 ? NULL : &N[kid[i][k + 1]]; }
void iot_data_map_add (iot_data_t * m, iot_data_t * key, iot_data_t * val)
{
  int i = at (m), q = at (key), v = val ? at (val) : -1, k = lookup (i, q);
  VF_ASSERT (N[q].type == IOT_DATA_STRING, "text keys");
  if (k >= 0) { int o = kid[i][k + 1]; drop (q); kid[i][k + 1] = v; if (o >= 0) drop (o); return; }
  VF_ASSERT (kids[i] + 2 <= MK, "no more pairs than expected");
  kid[i][kids[i]++] = q; kid[i][kids[i]++] = v;
}
void iot_data_set_metadata (iot_data_t * d, iot_data_t * v, const iot_data_t * key) { int i = at (d); VF_ASSERT (key == IOT_DATA_STATIC (&iot_data_order) && meta[i] < 0, "the order of the keys"); meta[i] = at (v); }
const iot_data_t * iot_data_get_metadata (const iot_data_t * d, const iot_data_t * key) { int i = at (d); return meta[i] < 0 ? NULL : &N[meta[i]]; }
const char * iot_data_string (const iot_data_t * d) { int i = at (d); VF_ASSERT (d->type == IOT_DATA_STRING, "read as what it is"); return S[i]; }
const void * iot_data_address (const iot_data_t * d) { return &V[at (d)]; }
uint32_t iot_data_array_size (const iot_data_t * d) { return 0; }
iot_data_type_t iot_data_array_type (const iot_data_t * d) { return d->element_type; }
static const iot_data_t * value (int i) { return i < 0 ? NULL : &N[i]; }
void iot_data_vector_iter (const iot_data_t * d, iot_data_vector_iter_t * it) { at (d); it->_vector = (const void*) d; it->_index = 0; }
bool iot_data_vector_iter_next (iot_data_vector_iter_t * it) { return ++it->_index <= (uint32_t) kids[at (it->_vector)]; }
bool iot_data_vector_iter_has_next (const iot_data_vector_iter_t * it) { return it->_index < (uint32_t) kids[at (it->_vector)]; }
const iot_data_t * iot_data_vector_iter_value (const iot_data_vector_iter_t * it) { return value (kid[at (it->_vector)][it->_index - 1]); }
void iot_data_list_iter (const iot_data_t * d, iot_data_list_iter_t * it) { it->_list = (const void*) d; it->_element = (void*) &N[0]; }
bool iot_data_list_iter_next (iot_data_list_iter_t * it) { it->_element = (void*) ((iot_data_t*) it->_element + 1); return (iot_data_t*) it->_element - N <= kids[at (it->_list)]; }
bool iot_data_list_iter_has_next (const iot_data_list_iter_t * it) { return (iot_data_t*) it->_element - N < kids[at (it->_list)]; }
const iot_data_t * iot_data_list_iter_value (const iot_data_list_iter_t * it) { return value (kid[at (it->_list)][(iot_data_t*) it->_element - N - 1]); }
void iot_data_map_iter (const iot_data_t * d, iot_data_map_iter_t * it) { at (d); it->_map = (const void*) d; it->_count = 0; }
bool iot_data_map_iter_next (iot_data_map_iter_t * it) { return 2 * ++it->_count <= (uint32_t) kids[at (it->_map)]; }
const iot_data_t * iot_data_map_iter_key (const iot_data_map_iter_t * it) { return value (kid[at (it->_map)][2 * it->_count - 2]); }
const iot_data_t * iot_data_map_iter_value (const iot_data_map_iter_t * it) { return value (kid[at (it->_map)][2 * it->_count - 1]); }
void iot_data_array_iter (const iot_data_t * d, iot_data_array_iter_t * it) { it->_array = (const void*) d; it->_index = 0; }
bool iot_data_array_iter_next (iot_data_array_iter_t * it) { return ++it->_index <= (uint32_t) kids[at (it->_array)]; }
bool iot_data_array_iter_has_next (const iot_data_array_iter_t * it) { return it->_index < (uint32_t) kids[at (it->_array)]; }
const void * iot_data_array_iter_value (const iot_data_array_iter_t * it) { return &V[kid[at (it->_array)][it->_index - 1]]; }
/* J01: what is appended, escaped or as it is; the text of what precedes stays */
static char out [130]; static size_t out_len;
void iot_data_holder_realloc (iot_string_holder_t * h, size_t required) { VF_ASSERT (0, "the buffer of the harness is large enough"); }
void iot_data_strcat_escape (iot_string_holder_t * h, const char * add, bool escape)
{
  char * p = h->str + h->size - h->free - 1;
  VF_ASSERT (p[0] == 0, "appended where the text ends");
  size_t n = 0;
  for (size_t i = 0; add[i]; i++)
  {
    char c = add[i], e = c == '"' ? '"' : c == '\\' ? '\\' : c == '\n' ? 'n' : c == '\t' ? 't' : 0;
    if (escape && e) { p[n++] = '\\'; p[n++] = e; } else p[n++] = c;
  }
  p[n] = 0;
  VF_ASSERT (h->free >= n, "room"); h->free -= n;
}
size_t iot_b64_encodesize (size_t n) { return 1; } bool iot_b64_encode (const void * i, size_t n, char * o, size_t m) { return true; }
/* ------------------------------------------------------------------ documents */
static char doc [130]; static size_t doc_len; static int style;
static void put (char c) { doc[doc_len++] = c; doc[doc_len] = 0; }
static void gap (void) { if (style & 1) put (' '); if (style == 3) put ('\n'); }
static void number (uint64_t u, bool neg) { char t [24]; int k = 0; if (neg) { put ('-'); u = (uint64_t) 0 - u; } do { t[k++] = (char) ('0' + u % 10); u /= 10; } while (u); while (k) put (t[--k]); }
static void text (const char * s)
{
  put ('"');
  for (; *s; s++)
  {
    if (*s == '"' || *s == '\\') { put ('\\'); put (*s); }
    else if (*s == '\n') { put ('\\'); put ('n'); }
    else if (*s == 'u' && (style & 2)) { put ('\\'); put ('u'); put ('0'); put ('0'); put ('7'); put ('5'); }
    else if (*s == '/' && (style & 2)) { put ('\\'); put ('/'); }
    else put (*s);
  }
  put ('"');
}
static void render (int i)
{
  if (i < 0) { put ('n'); put ('u'); put ('l'); put ('l'); return; }
  switch (N[i].type)
  {
    case IOT_DATA_NULL: put ('n'); put ('u'); put ('l'); put ('l'); break;
    case IOT_DATA_BOOL: { const char * s = V[i] ? "true" : "false"; while (*s) put (*s++); break; }
    case IOT_DATA_STRING: text (S[i]); break;
    case IOT_DATA_MAP:
      put ('{'); gap ();
      for (int k = 0; k < kids[i]; k += 2) { text (S[kid[i][k]]); gap (); put (':'); gap (); render (kid[i][k + 1]); gap (); if (k + 2 < kids[i]) { put (','); gap (); } }
      put ('}'); break;
    case IOT_DATA_VECTOR: case IOT_DATA_LIST: case IOT_DATA_ARRAY:
      put ('['); gap ();
      for (int k = 0; k < kids[i]; k++) { render (kid[i][k]); gap (); if (k + 1 < kids[i]) { put (','); gap (); } }
      put (']'); break;
    default: number (V[i], (int64_t) V[i] < 0 && N[i].type != IOT_DATA_UINT64); break;
  }
}
static bool whole (iot_data_type_t t) { return t <= IOT_DATA_UINT64; }
static void same (int a, int b)
{
  VF_ASSERT (b >= 0, "a value");
  if (a < 0) { VF_ASSERT (N[b].type == IOT_DATA_NULL, "what is not set is null"); return; }
  iot_data_type_t t = N[a].type;
  if (whole (t))
  {
    VF_ASSERT (N[b].type == (t == IOT_DATA_UINT64 && V[a] > INT64_MAX ? IOT_DATA_UINT64 : IOT_DATA_INT64), "an integer, wide enough");
    VF_ASSERT (V[b] == V[a], "of the same value");
    return;
  }
  VF_ASSERT (N[b].type == (t == IOT_DATA_LIST || t == IOT_DATA_ARRAY ? IOT_DATA_VECTOR : t), "of the same kind");
  if (t == IOT_DATA_BOOL) VF_ASSERT ((V[a] != 0) == (V[b] != 0), "the same truth");
  if (t == IOT_DATA_STRING) VF_ASSERT (equal_text (S[a], S[b]), "the same text");
  if (t == IOT_DATA_MAP)
  {
    VF_ASSERT (kids[a] == kids[b], "as many pairs");
    for (int k = 0; k < kids[a]; k += 2) { int j = lookup (b, kid[a][k]); VF_ASSERT (j >= 0, "each key"); if (j >= 0) same (kid[a][k + 1], kid[b][j + 1]); }
  }
  if (t == IOT_DATA_VECTOR || t == IOT_DATA_LIST || t == IOT_DATA_ARRAY)
  {
    VF_ASSERT (kids[a] == kids[b], "as many elements");
    for (int k = 0; k < kids[a] && k < kids[b]; k++) same (kid[a][k], kid[b][k]);
  }
}
static int str (const char * s) { int i = node (IOT_DATA_STRING); S[i] = (char*) s; return i; }
static int num (iot_data_type_t t, uint64_t v) { int i = node (t); V[i] = v; return i; }
#define LEAVES 18
static int leaf (int k)
{
  switch (k)
  {
    case 0: return num (IOT_DATA_INT64, 0);
    case 1: return num (IOT_DATA_INT8, (uint64_t) -128);
    case 2: return num (IOT_DATA_UINT8, 255);
    case 3: return num (IOT_DATA_INT16, (uint64_t) -32768);
    case 4: return num (IOT_DATA_UINT16, 65535);
    case 5: return num (IOT_DATA_INT32, (uint64_t) INT32_MIN);
    case 6: return num (IOT_DATA_UINT32, UINT32_MAX);
    case 7: return num (IOT_DATA_INT64, (uint64_t) INT64_MIN);
    case 8: return num (IOT_DATA_INT64, INT64_MAX);
    case 9: return num (IOT_DATA_UINT64, UINT64_MAX);
    case 10: return num (IOT_DATA_BOOL, 1);
    case 11: return num (IOT_DATA_BOOL, 0);
    case 12: return node (IOT_DATA_NULL);
    case 13: return str ("");
    case 14: return str ("a,u\"/\\\nb{:}");
    case 15: return node (IOT_DATA_MAP);
    case 16: { int i = node (IOT_DATA_ARRAY); N[i].element_type = IOT_DATA_UINT8; kid[i][0] = num (IOT_DATA_UINT8, 7); kid[i][1] = num (IOT_DATA_UINT8, 200); kids[i] = 2; return i; }
    default: return node (IOT_DATA_VECTOR);
  }
}
static void decode (int root, const char * t, bool ordered)
{
  int before = live; long mem = live_mem;
  iot_data_t * d = ordered ? iot_data_from_json_with_ordering (t, true) : iot_data_from_json (t);
  VF_ASSERT (d != NULL, "there is a value");
  if (root >= 0) same (root, at (d));
  if (ordered && root >= 0 && N[root].type == IOT_DATA_MAP)
  {
    int m = meta[at (d)];
    VF_ASSERT (m >= 0 && kids[m] == kids[root] / 2, "the order of the keys is kept");
    for (int k = 0; k < kids[m]; k++) VF_ASSERT (equal_text (S[kid[m][k]], S[kid[root][2 * k]]), "as written");
  }
  iot_data_free (d);
  VF_ASSERT (live == before && live_mem == mem, "nothing is leaked");
}
static void both (int root)
{
  int n = nn;
  for (style = 0; style < 4; style += 3) { doc_len = 0; render (root); nn = n; decode (root, doc, style == 3); }
  nn = n;
  char * r = iot_data_to_json_with_buffer (&N[root], out, sizeof (out));
  VF_ASSERT (r == out, "in the buffer given");
  decode (root, out, false);
  VF_NEXT ();
}
static void begin (void) { nn = live = 0; live_mem = 0; }
/*@ OBL J03.leaves class=bounded split=3 unwind=132 flags="--max-field-sensitivity-array-size 600" fns=iot_data_from_json,iot_data_value_from_json,iot_data_primitive_from_json,iot_data_string_from_json,iot_data_to_json_with_buffer,iot_data_dump_json,iot_data_dump_json_ptr bound="18 sorts of value, written in 2 ways and encoded"
*/
void h_leaves (void)
{
  int code = 0;
  for (int k = 0; k < LEAVES; k++) { if (!VF_MINE (code++)) continue; begin (); both (leaf (k)); }
  VF_REACH ("end");
}
/*@ OBL J03.nested class=bounded split=36 unwind=132 flags="--max-field-sensitivity-array-size 600" fns=iot_data_map_from_json,iot_data_vector_from_json,iot_data_value_from_json,iot_data_dump_json,iot_data_from_json_with_cache bound="vectors, lists and maps of pairs of 18 sorts of value, unset slots, nested one deeper, written in 2 ways and encoded"
*/
void h_nested (void)
{
  int code = 0;
  static const iot_data_type_t C [3] = { IOT_DATA_VECTOR, IOT_DATA_LIST, IOT_DATA_MAP };
  for (int a = 0; a < LEAVES; a++)
  {
    for (int b = -1 + a % 7; b < LEAVES; b += 7) for (int c = b & 1; c < 3; c += 1 + (a & 1))
    {
      if (!VF_MINE (code++)) continue;
      if (c == 1 && b < 0) continue;
      begin ();
      int i = node (C[c]), x = leaf (a), y = b < 0 ? -1 : leaf (b);
      if (c < 2) { kid[i][0] = x; kid[i][1] = y; kids[i] = 2; }
      else { kid[i][0] = str ("k\"1"); kid[i][1] = x; kid[i][2] = str ("j"); kid[i][3] = y < 0 ? leaf (12) : y; kids[i] = 4; }
      int root = i;
      if (c != 1) { root = node (c ? IOT_DATA_VECTOR : IOT_DATA_MAP); if (c) { kid[root][0] = i; kid[root][1] = leaf (0); kids[root] = 2; } else { kid[root][0] = str ("m"); kid[root][1] = i; kids[root] = 2; } }
      both (root);
    }
  }
  VF_REACH ("end");
}
/*@ OBL J03.any class=bounded split=16 unwind=132 flags="--max-field-sensitivity-array-size 600" fns=iot_data_from_json_with_cache,iot_data_value_from_json,iot_data_map_from_json,iot_data_vector_from_json,iot_data_string_from_json_token bound="every text of up to 3 of 16 pieces"
*/
void h_any (void)
{
  static const char * const P [16] = { "{", "}", "[", "]", ",", ":", "\"a\"", "1", "-", "t", "\"\\u00e9\"", "\"\\", "\"", " ", "\"\\n\\\"\"", "1.5e3" };
  int code = 0;
  for (int a = 0; a < 16; a++) for (int b = -1; b < 16; b++)
  {
    if (!VF_MINE (code++)) continue;
    for (int c = -1; c < (b < 0 ? 0 : 16); c++)
    {
      begin (); doc_len = 0;
      const int q [3] = { a, b, c };
      for (int k = 0; k < 3; k++) if (q[k] >= 0) for (const char * s = P[q[k]]; *s; s++) put (*s);
      char * t = malloc (doc_len + 1); for (size_t k = 0; k <= doc_len; k++) t[k] = doc[k];
      decode (-1, t, (c & 3) == 1);
      free (t); VF_NEXT ();
    }
  }
  VF_REACH ("end");
}
