/* D11: strings of every length keep their text under every ownership mode */
#include "vf.h"
#ifndef VF_NATIVE
/* formatted output and input of libc, by contract */
static size_t fmt_len; static char fmt_text [64]; static int fmt_calls;
static const char * fmt_seen;
static int vf_vsnprintf (char * s, size_t n, const char * f, va_list a)
{
  fmt_seen = f; fmt_calls++;
  for (size_t i = 0; n > 0 && i < n - 1 && i < fmt_len; i++) s[i] = fmt_text[i];
  if (n) s[fmt_len < n ? fmt_len : n - 1] = 0;
  return (int) fmt_len;
}
static int vf_vsprintf (char * s, const char * f, va_list a)
{
  fmt_seen = f; fmt_calls++;
  for (size_t i = 0; i < fmt_len; i++) s[i] = fmt_text[i];
  s[fmt_len] = 0;
  return (int) fmt_len;
}
/* a conversion stores a value of exactly the size its format names, read as written in the text */
static uint64_t scan_value; static int scan_result; static const char * scan_text;
static int vf_sscanf (const char * s, const char * f, void * out)
{
  scan_text = s;
  assert (f[0] == '%');
  int i = 1, h = 0, l = 0;
  while (f[i] == 'h') { h++; i++; }
  while (f[i] == 'l') { l++; i++; }
  bool real = f[i] == 'f', sig = f[i] == 'd';
  assert (real || sig || f[i] == 'u');
  assert (f[i + 1] == 0);
  if (scan_result != 1) return scan_result;
  if (real) { if (l) { union { uint64_t u; double f; } x; x.u = scan_value; *(double*) out = x.f; } else { union { uint32_t u; float f; } x; x.u = (uint32_t) scan_value; *(float*) out = x.f; } }
  else if (h == 2) *(uint8_t*) out = (uint8_t) scan_value;
  else if (h == 1) *(uint16_t*) out = (uint16_t) scan_value;
  else if (l == 0) *(uint32_t*) out = (uint32_t) scan_value;
  else *(uint64_t*) out = scan_value;
  return 1;
}
#define vsnprintf vf_vsnprintf
#define vsprintf vf_vsprintf
#define sscanf vf_sscanf
#endif
#include "kinds.h"

/*@ OBL D11.own prop=D11,D01,D04 class=bounded split=8 unwind=64 cost=4 timeout=200 flags="--object-bits 14" fns=iot_data_alloc_string,iot_data_string,iot_data_hash,iot_data_equal,iot_data_compare,iot_data_free bound="every length from 0 to 55 (all three storage forms and their limits), every ownership"
*/
void h_own (void)
{
  vf_data_init ();
  uint32_t code = 0;
  for (size_t n = 0; n <= 55; n++) for (int own = 0; own < 3; own++)
  {
    if (!VF_MINE (code++)) continue;
    char * s = malloc (n + 1), * keep = malloc (n + 1);
    for (size_t i = 0; i < n; i++) { char c = (char) ('a' + (i + 7 * n) % 23); s[i] = c; keep[i] = c; }
    s[n] = keep[n] = 0;
    iot_data_t * d = iot_data_alloc_string (s, own == 0 ? IOT_DATA_COPY : own == 1 ? IOT_DATA_TAKE : IOT_DATA_REF);
    VF_ASSERT (iot_data_type (d) == IOT_DATA_STRING && iot_data_ref_count (d) == 1, "a new string value");
    VF_ASSERT ((iot_data_string (d) == s) == (own != 0), "taken and referenced text is used in place, copied text is separate");
    if (own == 0) { for (size_t i = 0; i <= n; i++) s[i] = 'Z'; free (s); s = NULL; }
    VF_ASSERT (same_bytes (iot_data_string (d), keep, n + 1), "exactly the given text");
    iot_data_t * e = iot_data_alloc_string (keep, IOT_DATA_REF);
    VF_ASSERT (iot_data_hash (d) == iot_data_hash (e) && iot_data_equal (d, e), "strings of the same text are equal and hash alike whatever their ownership");
    iot_data_free (e);
    iot_data_add_ref (d);
    iot_data_free (d);
    VF_ASSERT (same_bytes (iot_data_string (d), keep, n + 1), "the text stays while a reference is held");
    iot_data_free (d);
    if (own == 2) { VF_ASSERT (same_bytes (s, keep, n + 1), "a referenced text is never released"); free (s); }
    free (keep);
    VF_ASSERT (vf_live == 0, "everything is released exactly once");
  }
  VF_REACH ("end");
}
/*@ OBL D11.const prop=D11,D01 class=bounded unwind=12 flags="--object-bits 12" fns=iot_data_alloc_const_string,iot_data_free bound="all texts of length up to 3"
*/
void h_const (void)
{
  vf_data_init ();
  char s [4], t [4];
  vf_string (s, 4); vf_string (t, 4);
  iot_data_static_t st;
  iot_data_t * d = iot_data_alloc_const_string (&st, s), * e = iot_data_alloc_string (t, IOT_DATA_COPY);
  VF_ASSERT ((void*) d == (void*) &st && iot_data_type (d) == IOT_DATA_STRING && iot_data_string (d) == s, "the static storage holds the text");
  iot_data_free (d); iot_data_free (d);
  VF_ASSERT (iot_data_string (d) == s && iot_data_hash (d) == iot_hash (s), "constants are never released");
  bool eq = strcmp (s, t) == 0;
  VF_ASSERT (iot_data_equal (d, e) == eq && iot_data_equal (e, d) == eq, "strings compare by content");
  VF_ASSERT ((iot_data_compare (d, e) < 0) == (strcmp (s, t) < 0) && (iot_data_compare (d, e) > 0) == (strcmp (s, t) > 0), "and are ordered by content");
  VF_ASSERT (iot_data_string_cmp (e, s) == eq, "the text search callback compares by content");
  iot_data_free (e);
  VF_ASSERT (vf_live == 0, "everything is released exactly once");
  VF_REACH ("end");
}
#ifndef VF_NATIVE
/*@ OBL D11.fmt prop=D11,D04 class=bounded split=4 unwind=64 flags="--object-bits 12" fns=iot_data_alloc_string_fmt bound="formatted texts of every length up to 50"
*/
void h_fmt (void)
{
  vf_data_init ();
  for (uint32_t n = 0; n <= 50; n++)
  {
    if (!VF_MINE (n)) continue;
    fmt_len = n;
    for (uint32_t i = 0; i < n; i++) fmt_text[i] = (char) ('0' + i);
    if (n) { fmt_text[n - 1] = vf_char (); VF_ASSUME (fmt_text[n - 1] != 0); }
    fmt_text[n] = 0;
    iot_data_t * d = iot_data_alloc_string_fmt ("x%dy", 3);
    VF_ASSERT (same_bytes (iot_data_string (d), fmt_text, n + 1), "exactly the formatted text");
    VF_ASSERT (iot_data_hash (d) == iot_hash (fmt_text) && fmt_seen[0] == 'x', "hashed by content");
    iot_data_free (d);
    VF_ASSERT (vf_live == 0, "everything is released exactly once");
  }
  VF_REACH ("end");
}
/*@ OBL D11.parse prop=D11,D12,D04 class=proved unwind=12 flags="--object-bits 12 --unwindset iot_data_free:1" fns=iot_data_alloc_from_string
*/
void h_parse (void)
{
  vf_data_init ();
  char s [4];
  vf_string (s, 4);
  VF_ASSUME (s[0] != 0);
  for (iot_data_type_t t = IOT_DATA_INT8; t < IOT_DATA_BOOL; t++)
  {
    KV[0] = scan_value = vf_u64 ();
    scan_result = (int) vf_below (3) - 1;
    iot_data_t * d = iot_data_alloc_from_string (t, s), * m = mk ((int) t);
    VF_ASSERT ((d != NULL) == (scan_result == 1) && scan_text == s, "a value exactly for text that holds a number");
    if (d) VF_ASSERT (same (d, m) && iot_data_hash (d) == iot_data_hash (m), "the number written, of the type asked for");
    iot_data_free (d); iot_data_free (m);
  }
  VF_ASSERT (iot_data_alloc_from_string (IOT_DATA_BOOL, s) == iot_data_alloc_bool (s[0] == 't' || s[0] == 'T'), "booleans");
  VF_ASSERT (iot_data_alloc_from_string (IOT_DATA_NULL, s) == NULL && iot_data_alloc_from_string (IOT_DATA_MAP, s) == NULL, "other types have no text form");
  iot_data_t * d = iot_data_alloc_from_string (IOT_DATA_STRING, s);
  VF_ASSERT (iot_data_type (d) == IOT_DATA_STRING && iot_data_string (d) != s && strcmp (iot_data_string (d), s) == 0, "text is copied");
  iot_data_free (d);
  VF_ASSERT (vf_live == 0, "everything is released exactly once");
  VF_REACH ("end");
}
#endif
