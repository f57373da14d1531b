/* D13: the block allocator of the cached (NDEBUG) build never hands out memory that is in use */
#include "vf.h"
#define NDEBUG 1
#define IOT_DATA_CACHE
/* ghost mutex: every access to the free list is inside one lock section; outside, the list pointer is
 * invalid, and between sections other threads may have replaced the list by any other */
static int held, sections;
static int vf_lock (pthread_mutex_t * m);
static int vf_unlock (pthread_mutex_t * m);
#define pthread_mutex_lock(m) vf_lock (m)
#define pthread_mutex_unlock(m) vf_unlock (m)
#undef IOT_DATA_CACHE
#define VF_TYPED
#include "vf_alloc.h"
#include "iot/data.h"
#include "iot/hash.h"
#include "iot/uuid.h"
static inline int vf_atexit (void (*fn) (void)) { return 0; }
#define atexit(f) vf_atexit (f)
#ifdef POLICY
#define memset(p,c,n) vf_block_memset (p, c, n)   /* the typed blocks of h_policy are zero until first used */
static void vf_block_memset (void * p, int c, size_t n);
#endif
#include "src/c/data.c"
#include "src/c/hash.c"
#undef atexit
#ifndef IOT_DATA_CACHE
#error the release build no longer has a block cache
#endif
#ifndef VF_NATIVE
/* the layout of iot_memory_block_t with typed blocks */
#define CHUNK_W (IOT_DATA_BLOCK_SIZE / sizeof (void*))
typedef struct { struct { iot_block_t b; void * w [CHUNK_W - 1]; } blk [IOT_DATA_BLOCKS]; void * next; char pad [IOT_MEMORY_BLOCK_SIZE - sizeof (void*) - IOT_DATA_BLOCKS * IOT_DATA_BLOCK_SIZE]; } chunk_t;
void * vf_calloc_typed (const char * fn, int ty, size_t n, size_t s)
{
#undef malloc
  if (s == IOT_MEMORY_BLOCK_SIZE && n == 1)
  {
    chunk_t * p = malloc (sizeof (chunk_t));
    p->next = NULL;
    for (size_t i = 0; i < IOT_DATA_BLOCKS; i++) { p->blk[i].b.next = NULL; for (int j = 0; j < CHUNK_W - 1; j++) p->blk[i].w[j] = NULL; }
    return p;
  }
#define malloc(s) vf_malloc (s)
  return NULL;
}
void * vf_realloc_typed (const char * fn, void * p, size_t s) { return NULL; }
#endif

#ifdef MONITOR
typedef union { iot_block_t b; void * w [IOT_DATA_BLOCK_SIZE / sizeof (void*)]; } raw_t;
static raw_t pool [3];
static iot_block_t * at_lock, * at_unlock; static iot_block_t poison;
static int vf_lock (pthread_mutex_t * m)
{
  VF_ASSERT (m == &iot_data_mutex && !held, "the list is locked once, by its mutex");
  held = 1; sections++;
  uint32_t c = vf_below (3);
  pool[0].b.next = NULL; pool[1].b.next = &pool[0].b;
  iot_data_cache = at_lock = c == 0 ? NULL : c == 1 ? &pool[0].b : &pool[1].b;
  return 0;
}
static int vf_unlock (pthread_mutex_t * m)
{
  VF_ASSERT (m == &iot_data_mutex && held, "only a held mutex is released");
  held = 0;
  at_unlock = iot_data_cache;
  iot_data_cache = (iot_block_t*) (uintptr_t) 1;   /* dereferencing the list from here on is an error */
  return 0;
}
/*@ OBL D13.lock_alloc prop=D13,D04 class=bounded defs=-DMONITOR unwind=520 cost=3 flags="--object-bits 12" fns=iot_data_alloc_block,iot_data_block_alloc,iot_data_block_size bound="free list of 0, 1 or 2 blocks at the time of locking, replaced by other threads at any time outside the lock"
*/
void h_lock_alloc (void)
{
  size_t size = (size_t) vf_u64 ();
  iot_block_t * n0 = NULL;
  uint8_t * p = iot_data_block_alloc (size);
  VF_ASSERT ((p == NULL) == (size > iot_data_block_size ()), "requests larger than the block size are refused, others served");
  VF_ASSERT (!held && sections == (p ? 1 : 0), "one lock section per allocation");
  if (p)
  {
    VF_ASSERT (((uintptr_t) p & 7u) == 0, "aligned");
    for (uint32_t i = 0; i < IOT_DATA_BLOCK_SIZE; i++) VF_ASSERT (p[i] == 0, "zeroed");
    if (at_lock) VF_ASSERT ((void*) p == at_lock && at_unlock == (at_lock == &pool[1].b ? &pool[0].b : NULL), "the block handed out has left the free list");
    else VF_ASSERT (at_unlock != (void*) p && at_unlock != NULL && __CPROVER_same_object (at_unlock, p) && iot_data_blocks == (void*) p, "a new chunk is handed out from its start");
  }
  VF_REACH ("end");
}
/*@ OBL D13.lock_free prop=D13,D04 class=bounded defs=-DMONITOR unwind=520 flags="--object-bits 12" fns=iot_data_block_free bound="free list of 0, 1 or 2 blocks at the time of locking, replaced by other threads at any time outside the lock"
*/
void h_lock_free (void)
{
  iot_data_block_free (&pool[2]);
  VF_ASSERT (!held && sections == 1, "one lock section per release");
  VF_ASSERT (at_unlock == &pool[2].b && pool[2].b.next == at_lock, "the released block heads the free list, which is otherwise unchanged");
  VF_REACH ("end");
}
#elif defined (POLICY)
/* typed free blocks in the order of allocation: at every allocation the free list holds the next one of
 * them, so that the harness sees which block was handed out and which one was given back */
static iot_data_value_t pv0, pv1;
static struct { iot_data_list_t v; char pad [IOT_DATA_BLOCK_SIZE - sizeof (iot_data_list_t)]; } pl;
static struct { iot_data_map_t v; char pad [IOT_DATA_BLOCK_SIZE - sizeof (iot_data_map_t)]; } pm;
static struct { iot_element_t v; char pad [IOT_DATA_BLOCK_SIZE - sizeof (iot_element_t)]; } pe;
static struct { iot_node_t v; char pad [IOT_DATA_BLOCK_SIZE - sizeof (iot_node_t)]; } pn;
static iot_block_t * pool [4]; static bool used [4]; static uint32_t npool, nused, taken;
static iot_block_t spare;
static void vf_block_memset (void * p, int c, size_t n)
{
  VF_ASSERT (taken > 0 && p == (void*) pool[taken - 1] && c == 0 && n == IOT_DATA_BLOCK_SIZE, "the block handed out is zeroed");
}
static int vf_lock (pthread_mutex_t * m)
{
  VF_ASSERT (!held, "no nested locking"); held = 1;
  iot_data_cache = taken < npool ? pool[taken] : &spare;
  return 0;
}
static int vf_unlock (pthread_mutex_t * m)
{
  VF_ASSERT (held, "no release without lock"); held = 0;
  if (iot_data_cache == NULL) { VF_ASSERT (taken < npool, "no block beyond the expected ones"); used[taken++] = true; nused++; }
  else
  {
    bool known = false;
    for (uint32_t i = 0; i < npool; i++) if (iot_data_cache == pool[i]) { VF_ASSERT (used[i], "a block is given back once, and only when in use"); used[i] = false; nused--; known = true; }
    VF_ASSERT (known, "only blocks go back to the free list");
  }
  return 0;
}
/*@ OBL D13.policy prop=D13,D04 class=bounded split=12 unwind=64 cost=3 defs=-DPOLICY timeout=200 flags="--object-bits 12" fns=iot_data_alloc_heap,iot_element_alloc,iot_element_free,iot_node_alloc,iot_node_delete,iot_data_block_alloc_data,iot_data_block_free_data bound="a value, a list of one element and a map of one entry, allocated under either policy and released under either"
*/
void h_policy (void)
{
  uint32_t code = 0;
  for (int kind = 0; kind < 3; kind++) for (int heap = 0; heap < 2; heap++) for (int other = 0; other < 2; other++)
  {
    if (!VF_MINE (code++)) continue;
    npool = nused = taken = 0;
    if (kind == 1) pool[npool++] = (iot_block_t*) &pl;
    if (kind == 2) pool[npool++] = (iot_block_t*) &pm;
    pool[npool++] = (iot_block_t*) &pv0;
    if (kind == 2) pool[npool++] = (iot_block_t*) &pv1;
    if (kind == 1) pool[npool++] = (iot_block_t*) &pe;
    if (kind == 2) pool[npool++] = (iot_block_t*) &pn;
    iot_data_alloc_heap (heap);
    iot_data_t * d;
    if (kind == 0) d = iot_data_alloc_ui64 (vf_u64 ());
    else if (kind == 1) { d = iot_data_alloc_list (); iot_data_list_tail_push (d, iot_data_alloc_ui8 (1)); }
    else { d = iot_data_alloc_map (IOT_DATA_UINT8); iot_data_t * k = iot_data_alloc_ui8 (1); iot_data_map_add (d, k, iot_data_alloc_ui8 (2)); }
    VF_ASSERT (heap ? nused == 0 && vf_live == npool : nused == npool && vf_live == 0, "allocated from the heap or from the blocks, as the policy says");
    VF_ASSERT (iot_data_alloc_heap (other) == (heap != 0), "the policy is reported");
    iot_data_free (d);
    VF_ASSERT (nused == 0 && vf_live == 0, "every block returns to where it came from");
  }
  VF_REACH ("end");
}
#else
static int vf_lock (pthread_mutex_t * m) { VF_ASSERT (!held, "no nested locking"); held = 1; return 0; }
static int vf_unlock (pthread_mutex_t * m) { VF_ASSERT (held, "no release without lock"); held = 0; return 0; }

/*@ OBL D13.refill prop=D13 class=proved unwind=520 cost=3 timeout=200 flags="--object-bits 12 --max-field-sensitivity-array-size 1024" fns=iot_data_alloc_block,iot_data_fini
*/
void h_refill (void)
{
  uint8_t * first = iot_data_block_alloc (iot_data_block_size ()), * prev = first;
  uint8_t * base = (uint8_t*) iot_data_blocks;
  VF_ASSERT (first >= base && (uint32_t) (first - base) + IOT_DATA_BLOCK_SIZE <= IOT_MEMORY_BLOCK_SIZE, "inside the chunk");
  uint32_t n = 1;
  iot_block_t * last = NULL;
  for (iot_block_t * blk = iot_data_cache; blk && n < 200; blk = blk->next, n++)
  {
    uint8_t * p = (uint8_t*) blk;
    VF_ASSERT (((uintptr_t) (p - base) & 7u) == 0, "aligned");
    VF_ASSERT (p >= prev + iot_data_block_size (), "disjoint from every block before it");
    VF_ASSERT ((uint32_t) (p - base) + IOT_DATA_BLOCK_SIZE <= IOT_MEMORY_BLOCK_SIZE, "inside the chunk");
    prev = p; last = blk;
  }
  VF_ASSERT (n > 1 && n < 200 && iot_data_blocks != NULL, "a chunk holds several blocks");
  VF_ASSERT (vf_live == 1, "one allocation per chunk");
  iot_data_cache = last;
  VF_ASSERT ((void*) iot_data_block_alloc (1) == last && iot_data_cache == NULL, "the last block of the chunk is handed out too");
  memset (last, 0x55, iot_data_block_size ());   /* using the block does not disturb the allocator */
  uint8_t * q = iot_data_block_alloc (1);
  VF_ASSERT (!__CPROVER_same_object (q, base) && vf_live == 2, "an exhausted list is refilled with a new chunk");
  iot_data_fini ();
  VF_ASSERT (vf_live == 0, "all chunks are released at the end");
  VF_REACH ("end");
}

/*@ OBL D13.history prop=D13 class=bounded split=8 unwind=520 cost=4 timeout=200 flags="--object-bits 12" fns=iot_data_alloc_block,iot_data_block_free bound="every history of 5 allocations and releases (oldest, newest) from a list of 2 blocks"
*/
void h_history (void)
{
  static struct { void * w [IOT_DATA_BLOCK_SIZE / sizeof (void*)]; } pool [2];
  for (uint32_t code = 0; code < 243; code++)
  {
    if (!VF_MINE (code)) continue;
    uint64_t mark = vf_u64 ();
    uint8_t * used [6]; uint32_t n = 0, c = code;
    ((iot_block_t*) &pool[0])->next = (iot_block_t*) &pool[1]; ((iot_block_t*) &pool[1])->next = NULL;
    iot_data_cache = (iot_block_t*) &pool[0];
    bool skip = false;
    for (int i = 0; i < 5; i++, c /= 3)
    {
      uint32_t op = c % 3;
      if (op && n == 0) { skip = true; continue; }
      if (op == 0)
      {
        if (n == 2) { skip = true; continue; }   /* refilling: D13.refill */
        uint8_t * p = iot_data_block_alloc (iot_data_block_size ());
        for (uint32_t j = 0; j < IOT_DATA_BLOCK_SIZE; j++) VF_ASSERT (p[j] == 0, "zeroed");
        for (uint32_t j = 0; j < n; j++) VF_ASSERT (p != used[j], "disjoint from every block in use");
        for (uint32_t j = 0; j < IOT_DATA_BLOCK_SIZE / 8; j++) ((uint64_t*) p)[j] = mark + n;
        used[n++] = p;
      }
      else
      {
        uint32_t k = op == 1 ? 0 : n - 1;
        uint8_t * p = used[k];
        used[k] = used[--n];
        iot_data_block_free (p);
      }
    }
    VF_ASSERT (!held && vf_live == 0, "no lock is kept and nothing allocated while the list lasts");
    if (skip) continue;
  }
  VF_REACH ("end");
}

#endif
