/* G01: substitution of environment variables. getenv by a stub over a fixed environment; texts enumerated (exact result),
 * and the same function over contracts of the text functions for texts, names and values of any length (memory, leaks, progress). */
#include "vf.h"
#include "iot/os.h"
#include "iot/data.h"
#include "iot/component.h"
#include "iot/container.h"
#include "iot/logger.h"
#include "iot/config.h"
static long live; static void * vf_malloc (size_t n); static void * vf_realloc (void * p, size_t n); static void vf_free (void * p);
static char * vf_getenv (const char * k);
#define LIM (1ull << 32)
#ifdef ANY
static bool g_lookup; static char * g_str; static size_t g_n, g_done; static char * g_env; static size_t g_elen; static char * g_key;
static void * g_out; static size_t g_size, g_out_len;
static size_t vf_strlen (const char * s); static char * vf_strchr (const char * s, int c);
static void vf_copy (void * d, const void * s, size_t n); static void vf_ncopy (char * d, const char * s, size_t n);
#undef strlen
#undef strchr
#undef memcpy
#undef strncpy
#define strlen(s) vf_strlen (s)
#define strchr(s, c) vf_strchr (s, c)
#define memcpy(d, s, n) vf_copy (d, s, n)
#define strncpy(d, s, n) vf_ncopy (d, s, n)
#endif
static void * vf_raw (size_t n) { return malloc (n); }
#define malloc(n) vf_malloc (n)
#define realloc(p, n) vf_realloc (p, n)
#define free(p) vf_free (p)
#define getenv(k) vf_getenv (k)
#include "src/c/config.c"
#undef malloc
#undef realloc
#undef free
#undef strlen
#undef strchr
#undef memcpy
#undef strncpy
static iot_logger_t the_logger; static int logs;
iot_logger_t * iot_logger_default (void) { return &the_logger; }
void iot_log__log (iot_logger_t * l, iot_loglevel_t level, ...) { logs++; }
#ifndef ANY
static void * vf_malloc (size_t n) { live++; return malloc (n); }
static void * vf_realloc (void * p, size_t n)
{
  if (p == NULL) live++;
  void * r = malloc (n); size_t o = 0;   /* always moves */
#ifdef VF_NATIVE
  return realloc (p, n);
#else
  o = p ? __CPROVER_OBJECT_SIZE (p) : 0;
  for (size_t i = 0; i < o && i < n; i++) ((char*) r)[i] = ((char*) p)[i];
  free (p);
  return r;
#endif
}
static void vf_free (void * p) { if (p) live--; free (p); }
static char n63 [70];
static const char * const names [4] = { "A", "B", "CC", "{D" };
static const char * const values [4] = { "x", "", "yyy${A}", "}" };
static bool same_text (const char * a, const char * b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
static char * vf_getenv (const char * k)
{
  for (int i = 0; i < 4; i++) if (same_text (k, names[i])) return (char*) values[i];
  if (same_text (k, n63)) return "long";
  return NULL;
}
/* the specification: expected text or NULL */
static char want [100];
static bool expect (const char * s)
{
  int o = 0, i = 0;
  while (s[i])
  {
    if (s[i] == '$' && s[i + 1] == '{')
    {
      int e = i + 2; while (s[e] && s[e] != '}') e++;
      if (s[e])
      {
        char name [80]; int n = 0;
        for (int j = i + 2; j < e; j++) name[n++] = s[j];
        name[n] = 0;
        if (n == 0 || n > 63) return false;
        const char * v = vf_getenv (name);
        if (!v) return false;
        for (int j = 0; v[j]; j++) want[o++] = v[j];
        i = e + 1;
        continue;
      }
    }
    want[o++] = s[i++];
  }
  want[o] = 0;
  return true;
}
static void one (const char * text, int n)
{
  char * s = malloc ((size_t) n + 1);
  for (int i = 0; i <= n; i++) s[i] = text[i];
  bool ok = expect (s);
  char * r = iot_config_substitute_env (s, NULL);
  VF_ASSERT ((r != NULL) == ok, "nothing is returned exactly for an empty, over-long or undefined name");
  if (r)
  {
    VF_ASSERT (same_text (r, want), "references are replaced and the rest is unchanged");
    VF_ASSERT (live == 1, "the caller owns the text");
    vf_free (r);
  }
  VF_ASSERT (live == 0, "nothing is leaked");
  for (int i = 0; i <= n; i++) VF_ASSERT (s[i] == text[i], "the text given is unchanged");
  free (s);
  VF_NEXT ();
}
static const char * const piece [11] = { "$", "{", "}", "a", "${A}", "${B}", "${CC}", "${}", "${U}", "${{D}", "\xff" };
/*@ OBL G01.exact class=bounded unwind=80 flags="--max-field-sensitivity-array-size 256" fns=iot_config_substitute_env,iot_update_parsed split=11 bound="all texts of up to 3 of 11 pieces"
*/
void h_exact (void)
{
  int code = 0;
  for (int a = -1; a < 11; a++)
  {
    if (!VF_MINE (code++)) continue;
    for (int b = -1; b < 11; b++) for (int c = -1; c < 11; c++)
    {
      if ((a < 0 && b >= 0) || (b < 0 && c >= 0)) continue;
      char t [24]; int n = 0; int p [3] = { a, b, c };
      for (int k = 0; k < 3; k++) if (p[k] >= 0) for (int i = 0; piece[p[k]][i]; i++) t[n++] = piece[p[k]][i];
      t[n] = 0;
      one (t, n);
    }
  }
  VF_REACH ("end");
}
/*@ OBL G01.names class=bounded unwind=140 flags="--max-field-sensitivity-array-size 256" fns=iot_config_substitute_env split=9 bound="names of 62 to 64 characters, each at the start, the middle and unterminated"
*/
void h_names (void)
{
  for (int i = 0; i < 63; i++) n63[i] = 'n';
  static const int lens [3] = { 62, 63, 64 };
  int code = 0;
  for (int k = 0; k < 3; k++) for (int form = 0; form < 3; form++)
  {
    if (!VF_MINE (code++)) continue;
    char t [80]; int n = 0;
    if (form == 1) t[n++] = 'q';
    t[n++] = '$'; t[n++] = '{';
    for (int i = 0; i < lens[k]; i++) t[n++] = 'n';
    if (form != 2) t[n++] = '}';
    if (form == 1) t[n++] = 'r';
    t[n] = 0;
    one (t, n);
  }
  VF_REACH ("end");
}
#else
static void * vf_malloc (size_t n) { VF_ASSERT (g_out == NULL, "one buffer"); live++; g_size = n; g_out = malloc (n); return g_out; }
static void * vf_realloc (void * p, size_t n)
{
  VF_ASSERT (p == g_out, "the buffer is enlarged");
  g_size = n; g_out = malloc (n);
  return g_out;
}
static void vf_free (void * p) { VF_ASSERT (p == g_out && live == 1, "the buffer is released once"); live--; }
static size_t vf_strlen (const char * s) { VF_ASSERT (s == g_str || s == g_env, "of the text or a value"); return s == g_str ? g_n : g_elen; }
static char * vf_strchr (const char * s, int c)
{
  VF_ASSERT (c == '}' && __CPROVER_same_object (s, g_str) && s >= g_str && s <= g_str + g_n, "searched within the text");
  size_t at = (size_t) vf_u64 (); VF_ASSUME (at >= (size_t) (s - g_str) && at <= g_n);
  if (at == g_n) return NULL;
  /* what stands before the brace is not the brace */
  VF_ASSUME (g_str[at] == '}' && at != (size_t) (s - g_str) && (s[1] == '}') == (at == (size_t) (s - g_str) + 1));
  return g_str + at;
}
static size_t g_nlen;
static char * vf_getenv (const char * k)
{
  VF_ASSERT (g_nlen > 0 && g_nlen < 64 && k[g_nlen] == 0, "a name of 1 to 63 characters, terminated");
  if (vf_bool ()) return NULL;
  g_elen = (size_t) vf_u64 (); VF_ASSUME (g_elen < LIM);
  g_env = malloc (g_elen + 1);
  g_lookup = true;
  return g_env;
}
static void vf_ncopy (char * d, const char * s, size_t n)
{
  VF_ASSERT (__CPROVER_w_ok (d, n) && __CPROVER_r_ok (s, n), "the name is copied within its bounds");
  VF_ASSERT (n > 0 && n < 64 && s == g_str + g_done + 2 && s[n] == '}', "the name is what stands between the braces");
  g_nlen = n; if (n > 0) { size_t i = (size_t) vf_u64 (); VF_ASSUME (i < n); d[i] = s[i]; }
}
static void vf_copy (void * d, const void * s, size_t n)
{
  VF_ASSERT (n == 0 || (__CPROVER_w_ok (d, n) && __CPROVER_r_ok (s, n)), "copied within bounds");
  VF_ASSERT (__CPROVER_same_object (d, g_out) && __CPROVER_POINTER_OFFSET (d) == g_out_len, "to the end of what there is");
  if (g_lookup)
  {
    VF_ASSERT (s == (const void*) g_env && n == g_elen, "all of the value");
    g_lookup = false; g_done += g_nlen + 3;
  }
  else { VF_ASSERT (s == (const void*) (g_str + g_done) && n == 1, "the next character"); g_done++; }
  g_out_len += n;
  VF_ASSUME (g_done > g_n || (g_done < g_n) == (g_str[g_done] != 0));   /* the length is that of the text */
}
/*@ LOOP any src=src/c/config.c fn=iot_config_substitute_env loop=1
@inv
  __CPROVER_same_object (start, str) && (size_t) (start - str) == g_done && g_done <= g_n && holder.parsed == (char*) g_out && holder.size == g_size && holder.len == g_out_len &&
  g_out_len <= g_size && g_size < (1ull << 62) && (g_size == 0 || __CPROVER_w_ok (g_out, g_size)) && live == 1 && !g_lookup
@havoc
  g_done = (size_t) vf_u64 (); VF_ASSUME (g_done <= g_n); start = str + g_done; VF_ASSUME ((g_done < g_n) == (*start != 0)); g_size = (size_t) vf_u64 (); g_out_len = (size_t) vf_u64 (); VF_ASSUME (g_size < LIM * 1024 && g_out_len <= g_size);
  g_out = vf_raw (g_size); holder.parsed = g_out; holder.size = g_size; holder.len = g_out_len;
@dec
  g_n - g_done
@*/
/*@ OBL G01.any class=proved unwind=2 inject=any defs=-DANY fns=iot_config_substitute_env,iot_update_parsed
*/
void h_any (void)
{
#ifdef VF_NATIVE
  VF_STOP ();   /* the loop contract exists for the verifier only */
#endif
  the_logger.level = IOT_LOG_TRACE; g_n = (size_t) vf_u64 (); VF_ASSUME (g_n < LIM);
  g_str = malloc (g_n + 1); g_str[g_n] = 0; VF_ASSUME (g_n == 0 || g_str[0] != 0);
  char * r = iot_config_substitute_env (g_str, NULL);
  if (r)
  {
    VF_ASSERT ((void*) r == g_out && live == 1, "the caller owns the text");
    VF_ASSERT (g_done == g_n + 1 && g_out_len >= 1, "all of the text is there, the terminator last");
  }
  else VF_ASSERT (live == 0 && logs == 1, "nothing is leaked and the reason is logged");
  VF_REACH ("end");
}
#endif
