/* L01: loggers. Component functions by their contract (K01); output functions are ghosts that check what they are given. */
#include "vf.h"
#include "iot/os.h"
#include "iot/data.h"
#include "iot/container.h"
#include "iot/component.h"
#include "iot/logger.h"
#include "iot/time.h"
static int vf_vsnprintf (char * s, size_t n, const char * fmt);
static int vf_snprintf (char * s, size_t n, const char * fmt, const char * tname, uint64_t ts, const char * name, const char * level, const char * message);
static int vf_fprintf (FILE * f, const char * fmt, const char * text);
static ssize_t vf_sendto (int sock, const void * buf, size_t len);
static long live; static void vf_free (void * p);
static void * vf_calloc (size_t n, size_t s) { live++; return calloc (n, s); }
static char * vf_strdup (const char * s);
static int vf_inet_aton (const char * cp); static FILE * vf_fopen (const char * p);
#define vsnprintf(s, n, f, a) vf_vsnprintf (s, n, f)
#define snprintf(s, n, ...) vf_snprintf (s, n, __VA_ARGS__)
#define fprintf(f, ...) vf_fprintf (f, __VA_ARGS__)
#define sendto(s, b, l, f, a, al) vf_sendto (s, b, l)
#define socket(a, b, c) 5
#define setsockopt(a, b, c, d, e) 0
#define close(s) (closed++, 0)
#define inet_aton(cp, a) vf_inet_aton (cp)
#define fopen(p, m) vf_fopen (p)
#define fclose(f) (closed++, 0)
#define prctl(a, b) 0
#define calloc(n, s) vf_calloc (n, s)
#define free(p) vf_free (p)
#undef strdup
#define strdup(s) vf_strdup (s)
static int closed;
#include "src/c/logger.c"
#undef calloc
#undef free
static void vf_free (void * p) { if (p) live--; free (p); }
static char * vf_strdup (const char * s) { live++; char * d = malloc (2); d[0] = s[0]; d[1] = 0; return d; }
/* component contract: one state per logger, references */
static int held;
static bool set_state (iot_component_t * c, iot_component_state_t s) { bool changed = c->state != s; c->state = s; return changed; }
bool iot_component_set_running (iot_component_t * c) { return set_state (c, IOT_COMPONENT_RUNNING); }
bool iot_component_set_stopped (iot_component_t * c) { return set_state (c, IOT_COMPONENT_STOPPED); }
iot_component_state_t iot_component_lock (iot_component_t * c) { VF_ASSERT (!held, "no double lock"); held = 1; return c->state; }
iot_component_state_t iot_component_unlock (iot_component_t * c) { VF_ASSERT (held, "only a held lock is released"); held = 0; return c->state; }
static int finis;
void iot_component_init (iot_component_t * c, const iot_component_factory_t * f, iot_component_start_fn_t a, iot_component_stop_fn_t b) { c->refs = 1; c->start_fn = a; c->stop_fn = b; }
void iot_component_fini (iot_component_t * c) { finis++; }
void iot_component_add_ref (iot_component_t * c) { c->refs++; }
bool iot_component_dec_ref (iot_component_t * c) { return c->refs-- <= 1; }
static uint64_t stamp; uint64_t iot_time_usecs (void) { stamp = vf_u64 (); return stamp; }
static const char * cfg_to; static iot_component_t * cfg_next;
iot_component_t * iot_container_find_component (iot_container_t * c, const char * n) { return cfg_next; }
const char * iot_data_string_map_get_string (const iot_data_t * m, const char * k) { return k[0] == 'T' ? cfg_to : k[0] == 'L' ? "Warn" : "n"; }
bool iot_data_string_map_get_bool (const iot_data_t * m, const char * k, bool d) { return d; }

/* formatting: any length; terminated within the space given */
static int want_len; static const char * want_fmt; static const char * want_msg; static uint32_t formats;
static int vf_vsnprintf (char * s, size_t n, const char * fmt)
{
  VF_ASSERT (fmt == want_fmt && n >= 2, "the message is formatted");
#ifndef VF_NATIVE
  VF_ASSERT (__CPROVER_w_ok (s, n), "within the space there is");
#endif
  s[0] = 'm'; s[1] = 0; s[n - 1] = 0; formats++;
  return want_len;
}
static char * the_buff;
static size_t text_len;
static int vf_snprintf (char * s, size_t n, const char * fmt, const char * tname, uint64_t ts, const char * name, const char * level, const char * message)
{
  VF_ASSERT (held, "the format buffer is used under the lock");
#ifndef VF_NATIVE
  VF_ASSERT (__CPROVER_w_ok (s, n), "within the space there is");
#endif
  VF_ASSERT (n >= 1 && message == want_msg && level != NULL && ts == stamp, "the message, its level and time");
  text_len = (size_t) want_len < n ? (size_t) want_len : n - 1;
  s[text_len] = 0; s[n - 1] = 0; the_buff = s;
  return want_len;
}
static FILE * out_seen; static int outs;
static int vf_fprintf (FILE * f, const char * fmt, const char * text) { VF_ASSERT (held && text == the_buff && fmt[0] == '%' && fmt[1] == 's', "the text formatted is written as it is"); out_seen = f; outs++; return 0; }
static ssize_t vf_sendto (int sock, const void * buf, size_t len) { VF_ASSERT (held && buf == (void*) the_buff && len == text_len, "exactly the text formatted is sent"); outs++; return 0; }

/* delivery */
#define NL 4
static iot_logger_impl_t chain [NL]; static int got [NL]; static iot_loglevel_t want_level;
static void impl_fn (iot_logger_t * l, iot_loglevel_t level, uint64_t ts, const char * message, const void * ctx)
{
  int i = (int) (uintptr_t) ctx;
  VF_ASSERT (i >= 0 && i < NL && l == &chain[i].base, "a logger is given itself and its context");
  VF_ASSERT (level == want_level && ts == stamp && message[0] == 'm' && message[1] == 0 && formats == 1, "and the level, time and formatted text");
  got[i]++;
}
static bool admits (iot_loglevel_t l, iot_loglevel_t level) { return (uint32_t) l >= (uint32_t) level; }
/*@ OBL L01.deliver class=bounded unwind=6 fns=iot_log__log,iot_log__va_log bound="chains of up to 4 loggers, any levels, any length of the formatted text"
*/
void h_deliver (void)
{
  uint32_t n = 1 + vf_below (NL);
  for (uint32_t i = 0; i < NL; i++)
  {
    chain[i].impl = impl_fn; chain[i].ctx = (void*) (uintptr_t) i; chain[i].next = i + 1 < n ? &chain[i + 1] : NULL;
    chain[i].base.level = (iot_loglevel_t) vf_below (6); chain[i].save = (iot_loglevel_t) vf_below (6);
  }
  want_level = (iot_loglevel_t) (1 + vf_below (5)); want_len = vf_i32 (); VF_ASSUME (want_len >= 0); want_fmt = "%d";
  iot_log__log (&chain[0].base, want_level, want_fmt, 3);
  for (uint32_t i = 0; i < NL; i++) VF_ASSERT (got[i] == (i < n && admits (chain[i].base.level, want_level) ? 1 : 0), "delivered once to each logger that admits the level, to no other");
  VF_REACH ("end");
}
/*@ OBL L01.levels class=bounded unwind=8 fns=iot_logger_alloc_custom,iot_logger_start,iot_logger_stop,iot_logger_set_level,iot_logger_free bound="every history of 5 starts, stops and changes of the level of a running logger"
*/
void h_levels (void)
{
  iot_loglevel_t conf = (iot_loglevel_t) vf_below (6); bool on = vf_bool ();
  iot_logger_t * l = iot_logger_alloc_custom ("n", conf, on, NULL, impl_fn, NULL, NULL);
  VF_ASSERT (l->level == (on ? conf : IOT_LOG_NONE), "a logger is silent until started");
  for (int i = 0; i < 5; i++)
  {
    uint32_t op = vf_below (3);
    bool was = on || i > 0;
    if (i == 0 && !on && op != 0) op = 0;   /* from its first start on */
    if (op == 0) { iot_logger_start (l); on = true; }
    else if (op == 1) { iot_logger_stop (l); on = false; }
    else if (on) { conf = (iot_loglevel_t) vf_below (6); iot_logger_set_level (l, conf); }
    VF_ASSERT (l->level == (on ? conf : IOT_LOG_NONE), "stopped it is silent, started it has its last level");
  }
  iot_logger_free (l);
  VF_ASSERT (live == 0 && finis == 1, "released");
  VF_REACH ("end");
}
/*@ OBL L01.output class=proved unwind=20 fns=iot_logger_format_log,iot_logger_log_to_fd,iot_log_console,iot_log_file,iot_log_udp
*/
void h_output (void)
{
  static iot_logger_impl_t l; static iot_logger_udp_ctx_t udp; static char msg [2] = "m"; static uint64_t file;
  iot_loglevel_t level = (iot_loglevel_t) (1 + vf_below (5));
  l.name = msg; want_msg = msg; stamp = vf_u64 (); want_len = vf_i32 (); VF_ASSUME (want_len >= 5);
  uint32_t op = vf_below (3);
  if (op == 0) { iot_log_console (&l.base, level, stamp, msg, NULL); VF_ASSERT (outs == 1 && out_seen == (level > IOT_LOG_WARN ? stdout : stderr), "warnings and errors go to the error stream, others to the output"); }
  else if (op == 1) { bool open = vf_bool (); iot_log_file (&l.base, level, stamp, msg, open ? &file : NULL); VF_ASSERT (outs == (open ? 1 : 0) && (!open || out_seen == (FILE*) &file), "to the file, if it is open"); }
  else { udp.sock = vf_bool () ? -1 : 7; iot_log_udp (&l.base, level, stamp, msg, &udp); VF_ASSERT (outs == (udp.sock == -1 ? 0 : 1), "to the socket, if there is one"); }
  VF_ASSERT (!held, "no lock is kept");
  VF_REACH ("end");
}
static char host_text [40]; static int atons; static const char * path_seen;
static int vf_inet_aton (const char * cp)
{
  size_t n = strlen (cp); atons++;
  for (size_t i = 0; i < n; i++) VF_ASSERT (cp[i] == host_text[i], "the host is what stands before the port");
  VF_ASSERT (host_text[n] == ':' || n >= 15, "all of it, or as much as an address can have");
  return 1;
}
static FILE * vf_fopen (const char * p) { path_seen = p; return NULL; }
/*@ OBL L01.config class=bounded unwind=44 split=4 fns=iot_logger_config,iot_logger_alloc_udp,iot_logger_alloc_file,iot_logger_udp_ctx_free,iot_logger_config_level bound="targets: udp with hosts of 0 to 24 characters or none, file, neither"
*/
void h_config (void)
{
  static char to [48];
  uint32_t code = 0;
  for (uint32_t h = 0; h <= 27; h++)
  {
    if (!VF_MINE (code++)) continue;
    char * exact = NULL; size_t n = 0; atons = 0; path_seen = NULL; closed = 0; live = 0; finis = 0;
    if (h <= 24)
    {
      to[n++] = 'u'; to[n++] = 'd'; to[n++] = 'p'; to[n++] = ':';
      for (uint32_t i = 0; i < h; i++) { to[n++] = (char) ('0' + i % 10); host_text[i] = (char) ('0' + i % 10); }
      host_text[h] = ':'; to[n++] = ':'; to[n++] = '9'; to[n++] = 0;
    }
    else { const char * t = h == 25 ? "udp:77" : h == 26 ? "file:/x" : "console"; for (n = 0; t[n]; n++) to[n] = t[n]; to[n++] = 0; }
    exact = vf_exact (to, n); cfg_to = exact; cfg_next = NULL;
    iot_logger_t * l = (iot_logger_t*) iot_logger_config (NULL, NULL);
    iot_logger_impl_t * im = (iot_logger_impl_t*) l;
    VF_ASSERT (l->level == IOT_LOG_WARN, "the level is the one configured");
    if (h <= 25) VF_ASSERT (im->impl == iot_log_udp && atons == (h <= 24 ? 1 : 0) && ((iot_logger_udp_ctx_t*) im->ctx)->sock == 5 && ((iot_logger_udp_ctx_t*) im->ctx)->addr.sin_port == htons (h <= 24 ? 9 : 77), "a UDP logger of that host and port");
    else if (h == 26) VF_ASSERT (im->impl == iot_log_file && path_seen == exact + 5, "a file logger of that path");
    else VF_ASSERT (im->impl == iot_log_console, "a console logger");
    iot_logger_free (l);
    VF_ASSERT (live == 0 && finis == 1 && closed == (h <= 25 ? 1 : 0), "released");
    free (exact);
  }
  VF_REACH ("end");
}
/*@ OBL L01.chain class=bounded unwind=6 fns=iot_logger_set_next,iot_logger_free,iot_logger_add_ref,iot_logger_default,iot_logger_alloc,iot_logger_level_from_string,iot_logger_level_to_string bound="chains of 2 loggers; every first character of a level name"
*/
void h_chain (void)
{
  iot_logger_t * a = iot_logger_alloc_custom ("a", IOT_LOG_INFO, false, NULL, impl_fn, NULL, NULL);
  iot_logger_t * b = iot_logger_alloc_custom ("b", IOT_LOG_INFO, false, a, impl_fn, NULL, NULL);
  iot_logger_t * c = iot_logger_alloc ("c", IOT_LOG_INFO, true);
  VF_ASSERT (a->component.refs == 2, "a chained logger is held");
  uint32_t op = vf_below (3);
  if (op == 0) iot_logger_free (a);   /* only the chain holds it now */
  if (op != 2) iot_logger_set_next (b, a); else iot_logger_set_next (b, c);
  VF_ASSERT (((iot_logger_impl_t*) b)->next == (iot_logger_impl_t*) (op == 2 ? c : a), "the next logger is the one set");
  VF_ASSERT ((op == 2 ? c : a)->component.refs == (op == 0 ? 1 : 2) && (op != 2 || a->component.refs == 1), "and is held once for it");
  iot_logger_free (b); if (op != 0) iot_logger_free (a); iot_logger_free (c);
  VF_ASSERT (live == 0 && finis == 3, "everything is released once");
  iot_logger_t * d = iot_logger_default ();
  VF_ASSERT (d == iot_logger_default () && d->level == IOT_LOGLEVEL_DEFAULT, "one default logger");
  iot_logger_free (d);
  VF_ASSERT (live == 0 && finis == 3, "which is never released");
  char s[2]; s[0] = vf_char (); s[1] = 0;
  iot_loglevel_t l = iot_logger_level_from_string (vf_bool () ? s : NULL);
  VF_ASSERT ((uint32_t) l < 6, "a level");
  l = iot_logger_level_from_string (s);
  char u = (char) (s[0] >= 'a' && s[0] <= 'z' ? s[0] - 32 : s[0]);
  iot_loglevel_t want = u == 0 ? IOT_LOG_NONE : u == 'E' ? IOT_LOG_ERROR : u == 'W' ? IOT_LOG_WARN : u == 'I' ? IOT_LOG_INFO : u == 'D' ? IOT_LOG_DEBUG : u == 'T' ? IOT_LOG_TRACE : IOT_LOGLEVEL_DEFAULT;
  VF_ASSERT (l == want, "levels are told by their first letter");
  VF_ASSERT (iot_logger_level_to_string (l) != NULL, "and have a name");
  VF_REACH ("end");
}
