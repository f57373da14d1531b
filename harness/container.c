/* N01: containers. Lists and maps of values, configuration texts and component factories by contract:
 * the component list is a ghost array, a configuration text is the name it was loaded for, a component of
 * this harness looks up the components it refers to while it is being configured. */
#include "vf.h"
#define IOT_BUILD_DYNAMIC_LOAD 1
#include "iot/os.h"
#include "iot/container.h"
#include "iot/component.h"
#include "iot/logger.h"
#include "iot/config.h"
#include "iot/time.h"
#define NC 3
#define NI 8
static const char NAME [NC + 1][2] = { "a", "b", "c", "k" };
/* ------------------------------------------------------------------ ghost locks */
static int mutex_held, rd, wr;
static int vf_mlock (void) { VF_ASSERT (!mutex_held, "the factory mutex is taken once"); mutex_held = 1; return 0; }
static int vf_munlock (void) { VF_ASSERT (mutex_held, "only a held mutex is released"); mutex_held = 0; return 0; }
static int vf_rd (void) { VF_ASSERT (!wr, "no deadlock with itself"); rd++; return 0; }
static int vf_wr (void) { VF_ASSERT (!wr && !rd, "no deadlock with itself"); wr = 1; return 0; }
static int vf_rwun (void) { VF_ASSERT (wr || rd, "only a held lock is released"); if (wr) wr = 0; else rd--; return 0; }
#define pthread_mutex_lock(m) vf_mlock ()
#define pthread_mutex_unlock(m) vf_munlock ()
#define pthread_rwlock_init(l, a) 0
#define pthread_rwlock_destroy(l) 0
#define pthread_rwlock_rdlock(l) vf_rd ()
#define pthread_rwlock_wrlock(l) vf_wr ()
#define pthread_rwlock_unlock(l) vf_rwun ()
/* ------------------------------------------------------------------ dynamic libraries */
static int lib_key, fn_key;
static void * vf_dlopen (const char * l, int f); static void * vf_dlsym (void * h, const char * s);
#define dlopen(l, f) vf_dlopen (l, f)
#define dlsym(h, s) vf_dlsym (h, s)
#define dlclose(h) 0
#define dlerror() "no"
static int same (const char * x, const char * y) { return x[0] == y[0] ? 0 : 1; } /* all names here differ in their first character */
#define strcmp(x, y) same (x, y)
static long live_text;
static char * text (char c) { char * t = malloc (2); t[0] = c; t[1] = 0; live_text++; return t; }
#define strdup(s) text ((s)[0])
static void vf_free (void * p) { if (p) live_text--; free (p); }
static void * vf_malloc (size_t n) { live_text++; return malloc (n); }
#define free(p) vf_free (p)
#define malloc(n) vf_malloc (n)
#include "src/c/container.c"
#undef strcmp
#undef strdup
#undef free
#undef malloc
/* ------------------------------------------------------------------ the configuration */
static bool listed [NC], has_config [NC], ref [NC][NC], strict [NC], broken_container; static int type [NC]; /* 0 known, 1 unknown, 2 by library, 3 not a text */
static int idx (char c) { return c == 'k' ? NC : c - 'a'; }
static char * conf_load (const char * name, const char * uri)
{
  int i = idx (name[0]);
  if (i == NC ? broken_container : !has_config[i]) return NULL;
  return text (name[0]);
}
static iot_container_config_t conf = { conf_load, "uri", NULL };
char * iot_config_substitute_env (const char * s, iot_logger_t * l) { return s ? text (s[0]) : NULL; }
static uint64_t maps [NC + 1]; static int map_refs [NC + 1]; static int list_obj, live_maps;
iot_data_t * iot_data_from_json (const char * s) { int i = idx (s[0]); map_refs[i]++; live_maps++; return (iot_data_t*) &maps[i]; }
bool iot_data_map_key_is_of_type (const iot_data_t * m, iot_data_type_t t) { return m != NULL; }
static const char T_known [] = "T", T_unknown [] = "X", T_library [] = "L";
static const char * type_name (int i) { return type[i] == 0 ? T_known : type[i] == 1 ? T_unknown : type[i] == 2 ? T_library : NULL; }
static int map_of (const iot_data_t * m) { int i = (int) ((const uint64_t*) m - maps); VF_ASSERT (i >= 0 && i <= NC && map_refs[i] > 0, "a live map"); return i; }
const char * iot_data_string_map_get_string (const iot_data_t * m, const char * key)
{
  int i = map_of (m);
  if (key[0] == 'L' || key[0] == 'F') return i < NC && type[i] == 2 ? key : NULL;
  VF_ASSERT (i == NC, "component types are in the configuration of the container");
  i = idx (key[0]);
  return i < NC && listed[i] ? type_name (i) : NULL;
}
void iot_data_map_iter (const iot_data_t * m, iot_data_map_iter_t * it) { VF_ASSERT (map_of (m) == NC, "the configuration of the container"); it->_map = (const void*) m; it->_count = 0; }
bool iot_data_map_iter_next (iot_data_map_iter_t * it)
{
  for (uint32_t k = 1; k <= NC; k++) if (k > it->_count && listed[k - 1]) { it->_count = k; return true; }
  it->_count = 0; return false;
}
const char * iot_data_map_iter_string_key (const iot_data_map_iter_t * it) { return NAME[it->_count - 1]; }
const char * iot_data_map_iter_string_value (const iot_data_map_iter_t * it) { const char * t = type_name ((int) it->_count - 1); VF_ASSERT (t != NULL, "a text is read as a text"); return t; }
/* ------------------------------------------------------------------ the list of components: entry 0 is the oldest */
static iot_component_t * entry [NI]; static iot_data_free_fn entry_free [NI]; static int entries, list_live;
static iot_component_t * pending; static iot_data_free_fn pending_free;
iot_data_t * iot_data_alloc_typed_list (iot_data_type_t t) { list_live++; return (iot_data_t*) &list_obj; }
iot_data_t * iot_data_alloc_pointer (void * p, iot_data_free_fn fn) { VF_ASSERT (pending == NULL, "one at a time"); pending = p; pending_free = fn; return (iot_data_t*) &pending; }
void iot_data_list_head_push (iot_data_t * l, iot_data_t * v)
{
  VF_ASSERT (l == (iot_data_t*) &list_obj && v == (iot_data_t*) &pending && pending, "a component joins the list");
  VF_ASSERT (entries < NI, "no more than there can be");
  entry[entries] = pending; entry_free[entries++] = pending_free; pending = NULL;
}
const void * iot_data_pointer (const iot_data_t * v) { return *(iot_component_t * const *) v; }
static int find_entry (iot_data_cmp_fn cmp, const void * arg) { for (int i = NI - 1; i >= 0; i--) if (i < entries && cmp ((const iot_data_t*) &entry[i], arg)) return i; return -1; }
const iot_data_t * iot_data_list_find (const iot_data_t * l, iot_data_cmp_fn cmp, const void * arg) { int i = find_entry (cmp, arg); return i < 0 ? NULL : (const iot_data_t*) &entry[i]; }
bool iot_data_list_remove (iot_data_t * l, iot_data_cmp_fn cmp, const void * arg)
{
  int i = find_entry (cmp, arg);
  if (i < 0) return false;
  iot_component_t * c = entry[i]; iot_data_free_fn fn = entry_free[i];
  for (int k = 0; k + 1 < NI; k++) if (k >= i) { entry[k] = entry[k + 1]; entry_free[k] = entry_free[k + 1]; }
  entries--;
  if (fn) fn (c);
  return true;
}
void iot_data_list_iter (const iot_data_t * l, iot_data_list_iter_t * it) { it->_list = (const void*) l; it->_element = NULL; }
#define POS(it) ((iot_component_t**) (it)->_element)
bool iot_data_list_iter_next (iot_data_list_iter_t * it)
{
  int i = it->_element ? (int) (POS (it) - entry) + 1 : 0;
  it->_element = i < entries ? (void*) &entry[i] : NULL; return i < entries;
}
bool iot_data_list_iter_prev (iot_data_list_iter_t * it)
{
  int i = it->_element ? (int) (POS (it) - entry) - 1 : entries - 1;
  it->_element = i >= 0 ? (void*) &entry[i] : NULL; return i >= 0;
}
const void * iot_data_list_iter_pointer_value (const iot_data_list_iter_t * it) { return *POS (it); }
void iot_data_free (iot_data_t * d)
{
  if (d == NULL) return;
  if (d == (iot_data_t*) &list_obj)
  {
    VF_ASSERT (list_live == 1, "the list is released once"); list_live = 0;
    for (int i = 0; i < NI; i++) if (i < entries && entry_free[i]) entry_free[i] (entry[i]);
    entries = 0;
    return;
  }
  int i = map_of (d); map_refs[i]--; live_maps--;
}
iot_logger_t * iot_logger_default (void) { static iot_logger_t l; return &l; }
void iot_logger_start (iot_logger_t * l) {}
void iot_log__log (iot_logger_t * l, iot_loglevel_t v, ...) {}
/* ------------------------------------------------------------------ components */
static iot_component_t inst [NI]; static int kind [NI], insts; static int started [NI], stopped [NI], released [NI];
static bool configuring [NC]; static int loads [NC]; /* successful loads of a name still in the container */
static iot_container_t * the;
static int which (const iot_component_t * c) { int i = (int) (c - inst); VF_ASSERT (i >= 0 && i < insts && released[i] == 0, "a live component"); return i; }
static char log_kind [40]; static int log_comp [40], logs;
static void note (char k, const iot_component_t * c) { VF_ASSERT (logs < 40, "no more events than expected"); log_kind[logs] = k; log_comp[logs++] = which (c); }
static bool becomes_running [NI]; static bool tracing;
static void c_start (iot_component_t * c) { int i = which (c); started[i]++; if (becomes_running[i]) c->state = IOT_COMPONENT_RUNNING; if (tracing) note ('s', c); }
static void c_stop (iot_component_t * c) { int i = which (c); stopped[i]++; c->state = IOT_COMPONENT_STOPPED; if (tracing) note ('e', c); }
static void c_starting (iot_component_t * c) { note ('S', c); }
static void c_stopping (iot_component_t * c) { note ('E', c); }
static bool was_timeout;
static void c_running (iot_component_t * c, bool timeout) { was_timeout = timeout; note ('R', c); }
static void c_free (iot_component_t * c)
{
  int i = which (c);
  VF_ASSERT (c->state == IOT_COMPONENT_STOPPED, "a component is stopped before it is released");
  VF_ASSERT (c->config != NULL && c->name != NULL, "it has its name and configuration until then");
  loads[kind[i]]--;
  iot_data_free (c->config); vf_free (c->name);
  released[i]++;
}
static iot_component_t * c_config (iot_container_t * cont, const iot_data_t * map);
static iot_component_factory_t F_known = { T_known, "C", c_config, c_free, NULL, NULL }, F_library = { T_library, "D", c_config, c_free, NULL, NULL };
static int depth;
static iot_component_t * c_config (iot_container_t * cont, const iot_data_t * map)
{
  int c = map_of (map);
  VF_ASSERT (c < NC && cont == the, "configured with its own configuration");
  VF_ASSERT (!configuring[c], "a cyclic reference is refused");
  VF_ASSERT (loads[c] == 0, "a component is loaded at most once");
  configuring[c] = true;
  bool missing = false;
  for (int r = 0; r < NC; r++) if (ref[c][r])
  {
    char name [2] = { NAME[r][0], 0 }; /* as in a configuration: the same text elsewhere */
    iot_component_t * p = iot_container_find_component (cont, name);
    VF_ASSERT (p == NULL || (kind[which (p)] == r && p->name[0] == NAME[r][0]), "what is found is what was asked for");
    VF_ASSERT (p == NULL || !configuring[r], "nothing is found before it is there");
    if (p == NULL) missing = true;
  }
  configuring[c] = false;
  if (missing && strict[c]) return NULL;
  int i = insts++;
  VF_ASSERT (i < NI, "no more components than there can be");
  kind[i] = c; loads[c]++;
  inst[i].start_fn = c_start; inst[i].stop_fn = c_stop; inst[i].state = IOT_COMPONENT_INITIAL;
  return &inst[i];
}
static const iot_component_factory_t * make_factory (void) { return &F_library; }
static void * vf_dlopen (const char * l, int f) { VF_ASSERT (l[0] == 'L', "the library named"); return &lib_key; }
static void * vf_dlsym (void * h, const char * s) { VF_ASSERT (h == &lib_key && s[0] == 'F', "the factory named"); return (void*) make_factory; }
iot_data_t * iot_component_read (iot_component_t * c) { return NULL; }
static unsigned waited; static bool late;
void iot_wait_msecs (uint64_t ms) { waited++; if (late && waited == 2) for (int i = 0; i < insts; i++) inst[i].state = IOT_COMPONENT_RUNNING; }
iot_data_t * iot_data_alloc_list (void) { return NULL; }
void iot_data_list_tail_push (iot_data_t * l, iot_data_t * v) {}

static void begin (void)
{
  entries = insts = logs = 0; live_text = 0; live_maps = 0; pending = NULL; iot_component_factories = NULL; F_known.next = F_library.next = NULL; tracing = false; waited = 0;
  for (int i = 0; i < NI; i++) { started[i] = stopped[i] = released[i] = 0; }
  for (int i = 0; i < NC; i++) { loads[i] = 0; configuring[i] = false; map_refs[i] = 0; } map_refs[NC] = 0;
  iot_config = NULL; iot_load_in_progress = NULL;
  iot_container_config (&conf);
  VF_ASSERT (iot_container_get_config () == &conf, "the configuration in use is the one set");
  iot_component_factory_add (&F_known);
  the = iot_container_alloc ("k");
}
static void finish (void)
{
  iot_container_free (the);
  VF_ASSERT (list_live == 0 && entries == 0, "the list is released");
  for (int i = 0; i < NI; i++) if (i < insts) VF_ASSERT (released[i] == 1 && stopped[i] == 1, "each component is stopped and released exactly once");
  VF_ASSERT (live_maps == 0, "configurations are released");
  VF_ASSERT (live_text == 0, "names and texts are released");
  VF_ASSERT (!rd && !wr && !mutex_held && iot_load_in_progress == NULL, "nothing is held, nothing is in progress");
}
/* can c be loaded, with the components on the way (in) being configured? */
static bool loadable (int c, unsigned in)
{
  if (!listed[c] || !has_config[c] || type[c] == 1 || type[c] == 3) return false;
  if (strict[c]) for (int r = 0; r < NC; r++) if (ref[c][r] && (r == c || (in & 1u << r) || !loadable (r, in | 1u << c))) return false;
  return true;
}
static bool in_library_only (void) { for (int i = 0; i < NC; i++) if (listed[i] && type[i] == 2) return true; return false; }
/*@ OBL N01.load class=bounded unwind=80 split=37 flags="--max-field-sensitivity-array-size 64 --unwindset loadable:4,iot_container_find_component:5,iot_container_load_locked:5,iot_container_typed_load:5,iot_component_create:5" fns=iot_container_init,iot_container_find_component,iot_container_load_locked,iot_container_typed_load,iot_component_create,iot_container_free,iot_component_free,iot_component_config_to_map bound="3 components with every reference graph, strict or tolerant (the last two alike), loaded by the container or first by name"
*/
void h_load (void)
{
  int code = 0;
  for (unsigned g = 0; g < 64; g++) for (unsigned s = 0; s < 8; s++)
  {
    if (((s >> 1) ^ (s >> 2)) & 1) continue; /* b and c alike */
    if (!VF_MINE (code++)) continue;
    for (int k = 0; k < NC; k++) { listed[k] = has_config[k] = true; type[k] = 0; strict[k] = (s >> k) & 1; for (int r = 0; r < NC; r++) ref[k][r] = false; }
    ref[0][1] = g & 1; ref[0][2] = g & 2; ref[1][0] = g & 4; ref[1][2] = g & 8; ref[2][0] = g & 16; ref[2][1] = g & 32;
    if (g == 63) ref[0][0] = true;
    for (int first = -1; first < NC; first += 2)
    {
      begin ();
      if (first < 0) VF_ASSERT (iot_container_init (the), "initialised"); else iot_container_find_component (the, NAME[first]);
      iot_component_t * p [NC];
      for (int k = 0; k < NC; k++)
      {
        p[k] = iot_container_find_component (the, NAME[k]);
        VF_ASSERT (p[k] == NULL || kind[which (p[k])] == k, "found under its name");
        if (loadable (k, 0)) VF_ASSERT (p[k] != NULL, "what can be loaded is found");
        VF_ASSERT (loads[k] == (p[k] != NULL), "once");
      }
      for (int k = 0; k < NC; k++) if (p[k]) VF_ASSERT (iot_container_find_component (the, NAME[k]) == p[k], "the same again");
      VF_ASSERT (iot_container_find_component (the, NULL) == NULL, "no name, no component");
      finish (); VF_NEXT ();
    }
  }
  VF_REACH ("end");
}
/*@ OBL N01.config class=bounded unwind=80 split=8 flags="--max-field-sensitivity-array-size 64 --unwindset loadable:4,iot_container_find_component:5,iot_container_load_locked:5,iot_container_typed_load:5,iot_component_create:5" fns=iot_container_init,iot_container_try_load_component,iot_container_typed_load,iot_container_add_component,iot_container_delete_component,iot_component_factory_add,iot_component_factory_find bound="3 components, each listed or not, with or without configuration, of a known, unknown, loadable type or of none"
*/
void h_config (void)
{
  int code = 0;
  for (int how = 0; how < 4; how++) for (unsigned s = 0; s < 6 * 6 * 2; s++)
  {
    if (!VF_MINE (code++)) continue;
    unsigned q [NC] = { s % 6, s / 6 % 6, s / 36 };
    for (int k = 0; k < NC; k++)
    {
      for (int r = 0; r < NC; r++) ref[k][r] = false;
      strict[k] = true; listed[k] = q[k] != 5; has_config[k] = q[k] != 4; type[k] = q[k] < 4 ? (int) q[k] : 0;
    }
    ref[0][1] = true; broken_container = how == 3 && (s & 1);
    begin ();
    if (how == 0 || how == 3) VF_ASSERT (iot_container_init (the) == !broken_container, "initialised when there is a configuration");
    else if (how == 1) iot_container_add_component (the, "T", NAME[1], "b");
    else if (q[1] == 2) { iot_container_add_component (the, "L", NAME[1], "b"); VF_ASSERT (loads[1] == 1, "added by its library"); }
    iot_component_t * p [NC];
    for (int k = 0; k < NC; k++)
    {
      p[k] = iot_container_find_component (the, NAME[k]);
      bool there = p[k] != NULL;
      VF_ASSERT (!there || kind[which (p[k])] == k, "found under its name");
      VF_ASSERT (loads[k] == (there ? 1 : 0), "once");
      if (k == 1 && how == 1) VF_ASSERT (there, "what was added is found");
      if (how == 0) VF_ASSERT (there == loadable (k, 0), "what can be loaded, and nothing else, is found");
      if (broken_container) VF_ASSERT (!there, "nothing is loaded without a configuration");
    }
    /* deleting */
    int d = (int) (s % NC);
    iot_container_delete_component (the, NAME[d]);
    VF_ASSERT (loads[d] == 0, "a deleted component is released");
    for (int k = 0; k < NC; k++) if (k != d) VF_ASSERT (loads[k] == (p[k] != NULL), "the others are not");
    for (int k = 0; k < NC; k++) if (k != d && p[k]) VF_ASSERT (iot_container_find_component (the, NAME[k]) == p[k], "the others are still found");
    finish (); VF_NEXT ();
  }
  broken_container = false;
  VF_REACH ("end");
}
/*@ OBL N01.run class=bounded unwind=41 split=8 flags="--max-field-sensitivity-array-size 64 --unwindset loadable:4,iot_container_find_component:5,iot_container_load_locked:5,iot_container_typed_load:5,iot_component_create:5" fns=iot_container_start,iot_container_running,iot_container_stop,iot_container_free,iot_component_free,iot_container_delete_component bound="up to 3 components with and without callbacks, that run at once, late or never"
*/
void h_run (void)
{
  int code = 0;
  for (int n = 0; n <= NC; n++) for (unsigned cb = 0; cb < 8; cb++) for (int when = 0; when < 3; when++)
  {
    if (!VF_MINE (code++)) continue;
    for (int k = 0; k < NC; k++) { for (int r = 0; r < NC; r++) ref[k][r] = false; strict[k] = true; listed[k] = k < n; has_config[k] = true; type[k] = 0; }
    ref[0][2] = n == 3 && (cb & 1); /* then c is loaded before a */
    begin ();
    iot_container_init (the);
    VF_ASSERT (insts == n && entries == n, "all are loaded");
    if (ref[0][2]) VF_ASSERT (kind[0] == 2 && kind[1] == 0 && kind[2] == 1, "what is referred to is loaded first");
    for (int i = 0; i < n; i++)
    {
      bool has = (cb >> i) & 1;
      inst[i].starting_fn = has ? c_starting : NULL; inst[i].stopping_fn = has ? c_stopping : NULL; inst[i].running_fn = has ? c_running : NULL;
      becomes_running[i] = when == 0 || i != n - 1;
    }
    late = when == 1; tracing = true; logs = 0;
    iot_container_start (the);
    int e = 0;
    for (int i = 0; i < n; i++) if ((cb >> i) & 1) { VF_ASSERT (e < logs && log_kind[e] == 'S' && log_comp[e] == i, "starting is announced to all first, in load order"); e++; }
    for (int i = 0; i < n; i++) { VF_ASSERT (e < logs && log_kind[e] == 's' && log_comp[e] == i, "then all are started in load order"); e++; }
    for (int i = 0; i < n; i++) if ((cb >> i) & 1) { VF_ASSERT (e < logs && log_kind[e] == 'R' && log_comp[e] == i, "then all are told"); VF_ASSERT (was_timeout == (when == 2), "whether all came to run in time"); e++; }
    VF_ASSERT (e == logs, "and nothing else");
    VF_ASSERT (when != 0 || waited == 0, "no wait when all run");
    logs = 0;
    iot_container_stop (the);
    e = 0;
    for (int i = n - 1; i >= 0; i--) if ((cb >> i) & 1) { VF_ASSERT (e < logs && log_kind[e] == 'E' && log_comp[e] == i, "stopping is announced to all first, in reverse order"); e++; }
    for (int i = n - 1; i >= 0; i--) { VF_ASSERT (e < logs && log_kind[e] == 'e' && log_comp[e] == i, "then all are stopped in reverse order"); e++; }
    VF_ASSERT (e == logs, "and nothing else");
    if (cb == 5) iot_container_delete_component (the, "b");
    finish (); VF_NEXT ();
  }
  VF_REACH ("end");
}
