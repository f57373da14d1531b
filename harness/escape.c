/* J01: text appended, escaped or verbatim, to a growing buffer: any text, any buffer state */
#include "vf.h"
static inline size_t spec_repr (uint8_t c)
{
  return (c == '"' || c == '\\' || c == '\b' || c == '\f' || c == '\n' || c == '\r' || c == '\t') ? 2 : c < 32 ? 6 : 1;
}
static inline uint8_t spec_esc (uint8_t c, size_t k)
{
  static const char hexd [] = "0123456789abcdef";
  switch (spec_repr (c))
  {
    case 1: return c;
    case 2: return k == 0 ? '\\' : c == '\b' ? 'b' : c == '\f' ? 'f' : c == '\n' ? 'n' : c == '\r' ? 'r' : c == '\t' ? 't' : c;
    default: return k == 0 ? '\\' : k == 1 ? 'u' : k < 4 ? '0' : k == 4 ? (uint8_t) ('0' + (c >> 4)) : (uint8_t) hexd [c & 15];
  }
}
#define SPEC_LEN 6,6,6,6,6,6,6,6,2,2,2,6,2,2,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,1,1,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1
#if defined (UNBOUNDED) && !defined (VF_NATIVE)
/* g_total: the length of the escape of the whole text, the sum of the escape lengths of its characters;
 * g_rem, g_left: that sum over the characters not yet visited.  The equations of such a sum (it is the
 * length of the next character plus the sum over the rest, and nothing is left at the end) are assumed
 * where they are used. */
#define REPR(c) ((size_t) spec_len [(uint8_t) (c)])
static const uint8_t spec_len [256] = { SPEC_LEN };
static const char * g_text; static char * g_str, g_oc; static size_t g_len, g_g, g_k, g_n, g_o, g_base, g_total, g_rem, g_left, g_pos, g_size, g_free; static int g_copied; static uint8_t g_exp;
static size_t esc_strlen (const char * s) { VF_ASSERT (s == g_text || s == g_str, "the length is taken of the text or of the buffer"); return s == g_text ? g_len : g_base; }
static char * esc_strcpy (char * d, const char * s)
{
  VF_ASSERT (s == g_text && __CPROVER_w_ok (d, g_len + 1), "the copied text and its end fit in the buffer");
  char c = s[g_g];
  d[g_g] = c; d[g_len] = 0;
  if (g_len) g_copied = 1;
  return d;
}
static void * esc_realloc (void * p, size_t s)
{
  VF_ASSERT (p == g_str, "the buffer grows");
  char * q = malloc (s);
  char c = ((char*) p)[g_o];
  q[g_o] = c;
  g_str = q; g_size = s; g_free = s - g_base - 1;
  return q;
}
#define strlen(s) esc_strlen (s)
#define strcpy(d, s) esc_strcpy (d, s)
#define realloc(p, s) esc_realloc (p, s)
#endif
#if defined (UNBOUNDED) && !defined (VF_NATIVE)
#if ESC == 0     /* memory safety and accounting */
#define ESC_INV 1
#elif ESC == 1   /* what was in the buffer */
#define ESC_INV (g_o >= g_base || g_str[g_o] == g_oc)
#else            /* what is added */
#define ESC_INV (g_g >= i || (g_pos <= g_total && g_pos + g_n <= g_total - g_left && (uint8_t) g_str[g_base + g_pos + g_k] == g_exp))
#endif
#include "iot/data.h"
#include "iot/uuid.h"
#include "src/c/data.c"
/*@ LOOP esc_size src=src/c/data.c fn=iot_data_strcat_escape loop=1
@inv i <= len && len == g_len && add == g_text && adj_len + g_rem == g_total && g_rem <= g_total && (i < len || g_rem == 0)
 && holder->str == g_str && holder->size == g_size && holder->free == g_free
@havoc i = vf_u64 (); adj_len = vf_u64 (); g_rem = vf_u64 ();
@dec len - i
@body
__CPROVER_assume (g_rem >= REPR (add[i]));
g_rem -= REPR (add[i]);
__CPROVER_assume (i + 1 < len || g_rem == 0);
@*/
/*@ LOOP esc_write src=src/c/data.c fn=iot_data_strcat_escape loop=2
@inv i <= len && len == g_len && add == g_text && adj_len == g_total && g_left <= g_total && (i < len || g_left == 0)
 && holder->str == g_str && holder->size == g_size && holder->free == g_free && __CPROVER_OBJECT_SIZE (g_str) == g_size
 && ptr == (uint8_t*) g_str + g_base + (g_total - g_left) && ESC_INV
@havoc __CPROVER_havoc_object (g_str); i = vf_u64 (); g_left = vf_u64 (); g_pos = vf_u64 (); ptr = (uint8_t*) g_str + (g_base + g_total - g_left);
@dec len - i
@body
__CPROVER_assume (g_left >= REPR (add[i]));
if (i == g_g) g_pos = g_total - g_left;
g_left -= REPR (add[i]);
__CPROVER_assume (i + 1 < len || g_left == 0);
@*/
#endif

#ifndef UNBOUNDED
#include "vf_data.h"
static void check_appends (size_t size, size_t fr, bool esc, const char (* texts) [3], int count)
{
  iot_string_holder_t h;
  static char ref [64]; size_t n = size - fr - 1;
  h.str = malloc (size); h.size = size; h.free = fr;
  for (size_t i = 0; i < n; i++) { ref[i] = 'x'; h.str[i] = 'x'; }
  h.str[n] = 0;
  for (int k = 0; k < count; k++)
  {
    for (size_t i = 0; i < 2 && texts[k][i]; i++)
    {
      uint8_t c = (uint8_t) texts[k][i];
      if (!esc) ref[n++] = (char) c;
      else for (size_t j = 0; j < spec_repr (c); j++) ref[n++] = (char) spec_esc (c, j);
    }
    iot_data_strcat_escape (&h, texts[k], esc);
    VF_ASSERT (h.free < h.size && h.size - h.free - 1 == n, "the free space shrinks by the length of what is added");
    VF_ASSERT (h.str[n] == 0, "the buffer stays terminated");
    for (size_t i = 0; i < n; i++) VF_ASSERT (h.str[i] == ref[i], "the buffer holds what it held and what was added");
  }
  free (h.str);
}
/*@ OBL J01.chars prop=J01 class=bounded split=8 unwind=260 cost=10 timeout=200 fns=iot_data_strcat_escape,iot_data_holder_realloc,iot_data_repr_size bound="every single character, escaped or verbatim, in a full buffer and in one of exactly the space needed"
*/
void h_chars (void)
{
  for (int c = 1; c < 256; c++)
  {
    if (!VF_MINE ((uint32_t) c)) continue;
    static char texts [1] [3]; texts[0][0] = (char) c;
    check_appends (2, 0, true, texts, 1);
    check_appends (8, spec_repr ((uint8_t) c), true, texts, 1);
    check_appends (2, 0, false, texts, 1);
  }
  VF_REACH ("end");
}
/*@ OBL J01.sequence prop=J01 class=bounded split=8 unwind=64 cost=10 timeout=200 fns=iot_data_strcat_escape,iot_data_holder_realloc,iot_data_repr_size bound="two appends of up to two characters of every escape length, in buffers of 1 to 8 bytes with every amount of free space"
*/
void h_sequence (void)
{
  static const char alpha [6] = { 0, 'a', '"', '\n', 1, (char) 0xe9 };
  uint32_t code = 0;
  for (size_t size = 1; size <= 8; size++) for (size_t fr = 0; fr < size; fr++) for (int p = 0; p < 36; p++)
  {
    if ((p / 6 == 0 && p % 6 != 0) || ((size + fr + p) % 3 && size > 3)) continue;
    if (!VF_MINE (code++)) continue;
    static char texts [2] [3];
    texts[0][0] = alpha[p / 6]; texts[0][1] = alpha[p % 6]; texts[1][0] = alpha[1 + p % 5]; texts[1][1] = 0;
    check_appends (size, fr, (p & 1) == 0 || p / 6 != 1, texts, 2);
  }
  VF_REACH ("end");
}
#else
#ifndef VF_NATIVE
/*@ OBL J01.safe class=contract unwind=7 flags="--sat-solver cadical" inject=esc_size,esc_write cost=30 timeout=300  defs="-DUNBOUNDED -DESC=0" fns=iot_data_strcat_escape,iot_data_repr_size,iot_data_holder_realloc
*/
/*@ OBL J01.keeps class=contract unwind=7 flags="--sat-solver cadical" inject=esc_size,esc_write cost=30 timeout=300 light=1 defs="-DUNBOUNDED -DESC=1" fns=iot_data_strcat_escape,iot_data_repr_size,iot_data_holder_realloc
*/
/*@ OBL J01.appends class=contract unwind=7 flags="--sat-solver cadical" inject=esc_size,esc_write cost=30 timeout=300 light=1 defs="-DUNBOUNDED -DESC=2" fns=iot_data_strcat_escape,iot_data_repr_size,iot_data_holder_realloc
*/
void h_append (void)
{
  iot_string_holder_t h;
  size_t size = (size_t) vf_u64 (), fr = (size_t) vf_u64 ();
  g_len = (size_t) vf_u64 (); g_g = (size_t) vf_u64 (); g_o = (size_t) vf_u64 (); g_k = vf_below (6);
  VF_ASSUME (size > 0 && size < ((size_t) 1 << 32) && fr < size && g_len < ((size_t) 1 << 32));
  g_base = size - fr - 1;
  VF_ASSUME ((g_len ? g_g < g_len : g_g == 0) && g_o < g_base + 1);
  char * text = malloc (g_len + 1);
  g_text = text;
  g_str = malloc (size);
  g_oc = g_str[g_o];
  text[g_len] = 0;
  g_rem = g_left = g_total = (size_t) vf_u64 ();
  VF_ASSUME (g_total <= 6 * g_len && g_total >= g_len);
  if (g_len) { g_n = REPR (text[g_g]); VF_ASSUME (text[g_g] != 0 && g_k < g_n); g_exp = spec_esc ((uint8_t) text[g_g], g_k); }
  /* a text as long as its escape has nothing to escape */
  if (g_len && g_total == g_len) VF_ASSUME (g_n == 1);
  h.str = g_str; h.size = g_size = size; h.free = g_free = fr;
  iot_data_strcat_escape (&h, text, true);
#if ESC == 0
  VF_ASSERT (h.str == g_str && h.size == g_size && __CPROVER_OBJECT_SIZE (h.str) == h.size && h.free < h.size, "the buffer has the size recorded");
  VF_ASSERT (h.size - h.free - 1 == g_base + g_total, "the free space shrinks by the length of the escaped text");
  VF_ASSERT (h.str[g_base + g_total] == 0, "the buffer stays terminated");
#elif ESC == 1
  VF_ASSERT (g_o >= g_base || h.str[g_o] == g_oc, "what the buffer held is unchanged");
#else
  if (g_len) VF_ASSERT ((uint8_t) h.str[g_base + (g_total == g_len ? g_g : g_pos) + g_k] == g_exp, "every character is represented by its escape, in order");
#endif
  VF_REACH ("end");
}
#endif
#endif
