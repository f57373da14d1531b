/* F01: files and the store over a ghost file system whose every step may fail.
 * The file system: a target "t" and whatever else the code creates; a file's content is a buffer and a length. */
#include "vf.h"
#include "iot/os.h"
#include "iot/data.h"
static FILE * vf_fopen (const char * p, const char * mode); static int vf_fclose (FILE * f);
static size_t vf_fwrite (const void * p, size_t s, size_t n, FILE * f); static size_t vf_fread (void * p, size_t s, size_t n, FILE * f);
static int vf_fseek (FILE * f, long o, int w); static long vf_ftell (FILE * f); static int vf_fflush (FILE * f);
static int vf_rename (const char * a, const char * b); static int vf_remove (const char * p);
static char * vf_strncpy (char * d, const char * s, size_t n); static char * vf_strcat (char * d, const char * s); static int vf_snprintf (char * d, size_t n);
static long live; static void * vf_malloc (size_t n); static void vf_free (void * p);
static DIR * vf_opendir (const char * d); static int vf_closedir (DIR * d); static struct dirent * vf_readdir (DIR * d);
static int vf_regcomp (const char * re); static int vf_regexec (const char * s); static void vf_regfree (void);
#define fopen(p, m) vf_fopen (p, m)
#define fclose(f) vf_fclose (f)
#define fwrite(p, s, n, f) vf_fwrite (p, s, n, f)
#define fread(p, s, n, f) vf_fread (p, s, n, f)
#define fseek(f, o, w) vf_fseek (f, o, w)
#define ftell(f) vf_ftell (f)
#define rewind(f) ((void) vf_fseek (f, 0, SEEK_SET))
#define fflush(f) vf_fflush (f)
#define rename(a, b) vf_rename (a, b)
#define remove(p) vf_remove (p)
#define unlink(p) vf_remove (p)
#define opendir(d) vf_opendir (d)
#define closedir(d) vf_closedir (d)
#define readdir(d) vf_readdir (d)
#define regcomp(r, p, f) vf_regcomp (p)
#define regexec(r, s, n, m, f) vf_regexec (s)
#define regfree(r) vf_regfree ()
#define malloc(n) vf_malloc (n)
#define free(p) vf_free (p)
#ifndef NAMES
#undef strncpy
#undef strcat
#define strncpy(d, s, n) vf_strncpy (d, s, n)
#define strcat(d, s) vf_strcat (d, s)
#define snprintf(d, n, ...) vf_snprintf (d, n)
#endif
#ifdef NAMES
static char * vf_strndup (const char * s, size_t n);
#undef strndup
#define strndup(s, n) vf_strndup (s, n)
#endif
#define IOT_HAS_FILE
#include "src/c/file.c"
#include "src/c/store.c"
#undef malloc
#undef free
#undef strncpy
#undef strcat
#undef snprintf
#undef strndup
#undef fflush
static void * vf_malloc (size_t n) { live++; return malloc (n); }
static void vf_free (void * p) { if (p) live--; free (p); }
static bool same (const char * a, const char * b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
/* file 0 is the target, 1 its replacement under construction */
typedef struct { bool exists; const void * data; size_t len; bool whole; } file_t;
static file_t fs [2], before; static uint64_t handle [2]; static bool open_ [2], wr [2], bad [2]; static long pos [2];
static int opens, closes; static bool failed; static bool is_dir;
static int which_path (const char * p) { if (p[0] == 't' && p[1] == 0) return 0; VF_ASSERT (p[0] == 't', "paths derive from the path given"); return 1; }
static int which (FILE * f) { int i = f == (FILE*) &handle[0] ? 0 : 1; VF_ASSERT (f == (FILE*) &handle[i] && open_[i], "an open file"); return i; }
static FILE * vf_fopen (const char * p, const char * mode)
{
  int i = which_path (p);
  if (vf_bool ()) { failed = true; return NULL; }
  if (mode[0] == 'r' && !fs[i].exists) { failed = true; return NULL; }
  VF_ASSERT (!open_[i], "opened once");
  open_[i] = true; opens++; wr[i] = mode[0] == 'w'; bad[i] = false; pos[i] = 0;
  if (wr[i]) { fs[i].exists = true; fs[i].data = NULL; fs[i].len = 0; fs[i].whole = false; }
  return (FILE*) &handle[i];
}
static int vf_fclose (FILE * f)
{
  int i = which (f);
  open_[i] = false; closes++;
  if (wr[i] && vf_bool ()) { fs[i].whole = false; failed = true; return EOF; }   /* what was buffered is lost */
  return 0;
}
static int vf_fflush (FILE * f) { int i = which (f); if (vf_bool ()) { fs[i].whole = false; bad[i] = true; failed = true; return EOF; } return 0; }
static size_t vf_fwrite (const void * p, size_t s, size_t n, FILE * f)
{
  int i = which (f);
  VF_ASSERT (wr[i] && fs[i].data == NULL, "written once");
#ifndef VF_NATIVE
  VF_ASSERT (s == 0 || n == 0 || (n == 1 && __CPROVER_r_ok (p, s)) || (s == 1 && __CPROVER_r_ok (p, n)), "from within the content");
#endif
  size_t total = n == 1 ? s : s == 1 ? n : s * n;
  if (total == 0) return 0;
  fs[i].data = p; fs[i].len = total;
  if (vf_bool ()) { failed = true; fs[i].whole = false; return s == 1 ? (size_t) vf_below (2) * (n - 1) : 0; }
  fs[i].whole = true;
  return n;
}
static int vf_fseek (FILE * f, long o, int w) { int i = which (f); if (w == SEEK_END && vf_bool ()) { failed = true; return -1; } pos[i] = w == SEEK_END ? (is_dir ? LONG_MAX : (long) fs[i].len) : 0; VF_ASSERT (o == 0, "whole files"); return 0; }
static long vf_ftell (FILE * f) { int i = which (f); if (vf_bool ()) { failed = true; return -1; } return pos[i]; }
static void * read_to;
static size_t vf_fread (void * p, size_t s, size_t n, FILE * f)
{
  int i = which (f);
  VF_ASSERT (pos[i] == 0 && p != NULL && !is_dir, "read from its beginning");
  size_t total = n == 1 ? s : s == 1 ? n : s * n;
  VF_ASSERT (total >= fs[i].len, "all of it");
#ifndef VF_NATIVE
  VF_ASSERT (__CPROVER_w_ok (p, total), "into the space there is");
#endif
  if (vf_bool ()) { failed = true; return 0; }
  size_t k = (size_t) vf_u64 (); VF_ASSUME (k < fs[i].len);   /* any one of its bytes */
  ((uint8_t*) p)[k] = ((const uint8_t*) fs[i].data)[k];
  read_to = p;
  return n == 1 ? (total == fs[i].len ? 1 : 0) : fs[i].len;
}
static bool renamed; static int removes;
static int vf_rename (const char * a, const char * b)
{
  int i = which_path (a), j = which_path (b);
  VF_ASSERT (i == 1 && j == 0 && !open_[1], "the closed replacement becomes the target");
  VF_ASSERT (fs[1].exists && fs[1].whole, "only a file that was written whole replaces the target");
  if (vf_bool ()) { failed = true; return -1; }
  fs[0] = fs[1]; fs[1].exists = false; renamed = true;
  return 0;
}
static int vf_remove (const char * p) { int i = which_path (p); removes++; if (!fs[i].exists || vf_bool ()) { return -1; } fs[i].exists = false; return 0; }
static size_t path_len, tmp_len; static const char * path;
#ifndef NAMES
/* texts of paths: the path stands for one of any length */
static char * vf_strncpy (char * d, const char * s, size_t n)
{
  VF_ASSERT (s == path, "the path is copied");
#ifndef VF_NATIVE
  VF_ASSERT (__CPROVER_w_ok (d, n), "within the space there is");
#endif
  d[0] = 't'; d[1] = 0;
  if (path_len >= n) d[n - 1] = 'x';
  tmp_len = path_len < n ? path_len : n;
  return d;
}
static char * vf_strcat (char * d, const char * s)
{
  size_t l = strlen (s);
  VF_ASSERT (tmp_len == path_len || d[tmp_len] == 0, "a terminated text is extended");
#ifndef VF_NATIVE
  VF_ASSERT (__CPROVER_w_ok (d + tmp_len, l + 1), "within the space there is");
#endif
  d[1] = s[0]; d[2] = 0; tmp_len += l;
  return d;
}
static int vf_snprintf (char * d, size_t n)
{
#ifndef VF_NATIVE
  VF_ASSERT (__CPROVER_w_ok (d, n), "within the space there is");
#endif
  VF_ASSERT (n > 2, "space"); d[0] = 't'; d[1] = '.'; d[2] = 0; return (int) path_len + 4;
}
static uint8_t * content; static size_t size;
static void setup (void)
{
  static char p [2] = "t"; static uint8_t old [4];
  path = p; path_len = (size_t) vf_u64 (); VF_ASSUME (path_len >= 1 && path_len < (1u << 20));
  size = (size_t) vf_u64 (); VF_ASSUME (size >= 1 && size < (1ull << 32));
#ifdef VF_NATIVE
  size = 1 + size % 5000;
#endif
  content = malloc (size);
  fs[0].exists = vf_bool (); fs[0].data = old; fs[0].len = vf_below (5); fs[0].whole = true; before = fs[0];
  fs[1].exists = vf_bool (); fs[1].data = old; fs[1].len = 2;   /* left behind by a crash */
}
/*@ OBL F01.write class=proved unwind=8 fns=iot_file_write_binary,iot_file_read_binary,iot_store_write_binary,iot_store_read_binary
*/
void h_write (void)
{
  setup ();
  bool ok = vf_bool () ? iot_store_write_binary (path, content, size) : iot_file_write_binary (path, content, size);
  VF_ASSERT (opens == closes, "no file is left open");
  VF_ASSERT (live == 0, "nothing is leaked");
  if (!ok)
  {
    VF_ASSERT (failed, "a write fails for a reason");
    VF_ASSERT (fs[0].exists == before.exists && fs[0].data == before.data && fs[0].len == before.len && fs[0].whole, "a failed write leaves the previous content");
    VF_REACH ("failed");
    return;
  }
  VF_ASSERT (!failed, "a write that failed at some step is reported");
  VF_ASSERT (fs[0].exists && fs[0].data == content && fs[0].len == size && fs[0].whole && !fs[1].exists, "the content is there, all of it and nothing else");
  VF_REACH ("end");
}
/*@ OBL F01.read class=proved unwind=8 fns=iot_file_read_binary,iot_file_read,iot_store_read_binary,iot_store_read
*/
void h_read (void)
{
  setup ();
  size_t k = (size_t) vf_u64 (); VF_ASSUME (k < size);
  fs[0].exists = vf_bool (); fs[0].data = content; fs[0].len = vf_bool () ? size : 0; before = fs[0]; is_dir = vf_bool ();
  size_t got = 77; uint32_t op = vf_below (4);
  uint8_t * r = op == 0 ? iot_file_read_binary (path, &got) : op == 1 ? (uint8_t*) iot_file_read (path) : op == 2 ? iot_store_read_binary (path, &got) : (uint8_t*) iot_store_read (path);
  bool counted = op == 0 || op == 2;
  VF_ASSERT (opens == closes, "no file is left open");
  if (r)
  {
    VF_ASSERT (!failed && fs[0].exists && !is_dir && fs[0].len > 0 && read_to == r, "what was read whole");
    VF_ASSERT (!counted || got == fs[0].len, "with its exact length");
    VF_ASSERT (r[fs[0].len] == 0, "text is terminated");
    VF_ASSERT (live == 1, "the caller owns it");
    vf_free (r);
    VF_REACH ("end");
  }
  else
  {
    VF_ASSERT (failed || is_dir || !fs[0].exists || fs[0].len == 0, "reading fails for a reason");
    VF_ASSERT (!counted || got == 0, "nothing has no length");
    VF_ASSERT (live == 0, "nothing is leaked");
    VF_REACH ("nothing");
  }
  VF_ASSERT (fs[0].exists == before.exists && fs[0].data == before.data && fs[0].len == before.len, "reading changes nothing");
}
/*@ OBL F01.text class=bounded unwind=12 fns=iot_file_write,iot_store_write,iot_file_delete,iot_store_delete bound="texts of up to 7 characters"
*/
void h_text (void)
{
  setup ();
  char t [8]; uint32_t n = 1 + vf_below (7);
  for (uint32_t i = 0; i < 8; i++) { t[i] = (char) vf_u64 (); if (i < n) { VF_ASSUME (t[i] != 0); } }
  t[n] = 0;
  bool ok = vf_bool () ? iot_file_write (path, t) : iot_store_write (path, t);
  VF_ASSERT (ok == !failed, "written unless some step failed");
  if (ok) VF_ASSERT (fs[0].data == (void*) t && fs[0].len == n, "all of the text, without its terminator");
  bool was = fs[0].exists; opens = closes = 0;
  bool del = vf_bool () ? iot_file_delete (path) : iot_store_delete (path);
  VF_ASSERT (del == (was && !fs[0].exists), "deletion is reported as it is");
  VF_REACH ("end");
}
#else
/* names in the store; listing */
static char * vf_strndup (const char * s, size_t n) { size_t l = 0; while (l < n && s[l]) l++; char * r = malloc (l + 1); for (size_t i = 0; i < l; i++) r[i] = s[i]; r[l] = 0; return r; }
static char * seen [4]; static int nseen; static const char * given;
static uint8_t * rd (const char * p, size_t * len) { VF_ASSERT (same (p, given), "the file of that name is read"); nseen++; return NULL; }
static bool wrt (const char * p, const uint8_t * b, size_t len) { VF_ASSERT (same (p, given) && len == 2 && b[0] == '{', "the file of that name is written"); nseen++; return true; }
static bool del (const char * p) { VF_ASSERT (same (p, given), "the file of that name is deleted"); nseen++; return true; }
/*@ OBL F01.names class=bounded unwind=24 defs=-DNAMES fns=iot_store_config_path,iot_store_config_load,iot_store_config_save,iot_store_config_delete,iot_store_config bound="names and directories of up to 3 characters"
*/
void h_names (void)
{
  static const char * const nm [3] = { "n", "ab", "c.d" }; static const char * const dir [4] = { NULL, "u", "vw", "x/y" };
  static const char * const full [3][4] = { { "n.json", "u/n.json", "vw/n.json", "x/y/n.json" }, { "ab.json", "u/ab.json", "vw/ab.json", "x/y/ab.json" }, { "c.d.json", "u/c.d.json", "vw/c.d.json", "x/y/c.d.json" } };
  for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++)
  {
    given = full[i][j]; nseen = 0;
    iot_store_config (rd, wrt, del);
    VF_ASSERT (iot_store_config_load (nm[i], dir[j]) == NULL, "what the reader returns");
    VF_ASSERT (iot_store_config_save (nm[i], dir[j], "{}") && iot_store_config_delete (nm[i], dir[j]) && nseen == 3, "each function goes to the store");
    iot_store_config (NULL, NULL, NULL);
    VF_ASSERT (iot_store_config_load (nm[i], dir[j]) == NULL && !iot_store_config_save (nm[i], dir[j], "{}") && !iot_store_config_delete (nm[i], dir[j]), "without a store everything fails");
    VF_ASSERT (live == 0, "nothing is leaked");
    VF_NEXT ();
  }
  VF_REACH ("end");
}
/* a regular expression of single characters, '.', [x], \x, $ */
static const char * pattern; static bool compiled; static uint64_t adir; static bool dir_open; static int at;
static bool match_here (const char * re, const char * s)
{
  while (re[0])
  {
    if (re[0] == '$' && re[1] == 0) return s[0] == 0;
    if (s[0] == 0) return false;
    if (re[0] == '[') { VF_ASSERT (re[2] == ']', "a bracket of one character"); if (s[0] != re[1]) return false; re += 3; }
    else if (re[0] == '\\') { if (s[0] != re[1]) return false; re += 2; }
    else { if (re[0] != '.' && re[0] != s[0]) return false; re++; }
    s++;
  }
  return true;
}
static bool match (const char * re, const char * s) { if (re[0] == '^') return match_here (re + 1, s); for (;; s++) { if (match_here (re, s)) return true; if (!*s) return false; } }
static int vf_regcomp (const char * re) { pattern = re; if (re[0] == '!') return 1; compiled = true; return 0; }
static int vf_regexec (const char * s) { VF_ASSERT (compiled, "a compiled pattern"); return match (pattern, s) ? 0 : 1; }
static void vf_regfree (void) { VF_ASSERT (compiled, "released once"); compiled = false; }
static bool dir_there; static struct dirent ent; static int files [3], nfiles;
static const char * const fname [4] = { "a.json", "bjson", ".json", "c.json.x" };
static DIR * vf_opendir (const char * d) { if (!dir_there) return NULL; dir_open = true; at = 0; return (DIR*) &adir; }
static int vf_closedir (DIR * d) { VF_ASSERT (dir_open, "closed once"); dir_open = false; return 0; }
static struct dirent * vf_readdir (DIR * d)
{
  if (at == nfiles) return NULL;
  int f = files[at++];
  ent.d_type = f < 4 ? DT_REG : DT_DIR;
  const char * n = fname[f & 3]; int i = 0; do ent.d_name[i] = n[i]; while (n[i++]);
  return &ent;
}
/* lists and strings by their contracts (D05, D11) */
static uint64_t the_list, strs [8]; static char sval [8][12]; static int nstr, litems [4], nlist; static bool sfreed [8], list_freed;
iot_data_t * iot_data_alloc_list (void) { nlist = 0; return (iot_data_t*) &the_list; }
iot_data_t * iot_data_alloc_string (const char * s, iot_data_ownership_t o)
{
  int i = 0; do sval[nstr][i] = s[i]; while (s[i++]);
  if (o == IOT_DATA_TAKE) free ((void*) s);
  return (iot_data_t*) &strs[nstr++];
}
void iot_data_list_tail_push (iot_data_t * l, iot_data_t * v) { litems[nlist++] = (int) ((uint64_t*) v - strs); }
void iot_data_list_iter (const iot_data_t * l, iot_data_list_iter_t * it) { VF_ASSERT (l == (const iot_data_t*) &the_list, "a list"); at = -1; }
bool iot_data_list_iter_next (iot_data_list_iter_t * it) { return ++at < nlist; }
const char * iot_data_list_iter_string_value (const iot_data_list_iter_t * it) { return sval[litems[at]]; }
const char * iot_data_list_iter_value_string (const iot_data_list_iter_t * it) { return sval[litems[at]]; }
iot_data_t * iot_data_list_iter_replace (const iot_data_list_iter_t * it, iot_data_t * v) { iot_data_t * o = (iot_data_t*) &strs[litems[at]]; litems[at] = (int) ((uint64_t*) v - strs); return o; }
void iot_data_free (iot_data_t * d) { if (d == (iot_data_t*) &the_list) { list_freed = true; return; } if (d == NULL) return; int i = (int) ((uint64_t*) d - strs); VF_ASSERT (!sfreed[i], "released once"); sfreed[i] = true; }
/*@ OBL F01.list class=bounded unwind=16 defs=-DNAMES fns=iot_file_list,iot_store_config_list split=9 bound="directories of up to 2 entries of 8 sorts"
*/
void h_list (void)
{
  int code = 0;
  for (int a = -1; a < 8; a++)
  {
    if (!VF_MINE (code++)) continue;
    for (int b = -1; b < 8; b++)
    {
      if (a < 0 && b >= 0) continue;
      for (int op = 0; op < 2; op++)
      {
        nfiles = 0; if (a >= 0) files[nfiles++] = a; if (b >= 0) files[nfiles++] = b;
        nstr = 0; for (int i = 0; i < 8; i++) sfreed[i] = false;
        dir_there = true;
        iot_data_t * l = op ? iot_store_config_list ("d") : iot_file_list ("d", NULL);
        int k = 0;
        for (int i = 0; i < nfiles; i++)
        {
          int f = files[i]; if (f >= 4) continue;
          if (op == 0) { VF_ASSERT (k < nlist && same (sval[litems[k]], fname[f]), "every regular file is listed"); k++; }
          else if (f == 0 || f == 2) { VF_ASSERT (k < nlist && same (sval[litems[k]], f == 0 ? "a" : ""), "every stored configuration is listed by its name"); k++; }
        }
        VF_ASSERT (l != NULL && k == nlist, "and nothing else");
        int alive = 0; for (int i = 0; i < nstr; i++) alive += !sfreed[i];
        VF_ASSERT (!dir_open && !compiled && alive == nlist, "nothing is leaked");
        VF_NEXT ();
      }
    }
  }
  dir_there = false;
  VF_ASSERT (iot_file_list ("d", NULL) == NULL && iot_store_config_list ("d") == NULL, "no directory, no list");
  dir_there = true;
  VF_ASSERT (iot_file_list ("d", "!") == NULL && !dir_open, "no list by a bad pattern, and nothing is leaked");
  VF_REACH ("end");
}
#endif
