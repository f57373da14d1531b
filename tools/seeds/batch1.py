H='#include "iot/data.h"\n#include "iot/base64.h"\n#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#define CHECK(c) do { if (!(c)) { printf ("FAILED %s\\n", #c); return 1; } } while (0)\n'
D='src/c/data.c'
B=[
('list_middle_remove_hash','D01',D,('''    list->head->length--;
    list->base.rehash = true;
    iot_element_free (element);''','''    list->head->length--;
    iot_element_free (element);'''),
 'a list of at least three elements whose hash was already computed, then removal of an element that is neither first nor last',
 'the cached hash of the list is stale, so it differs from the hash of an equal list and equal lists compare unequal',
 H+'''static bool is2 (const iot_data_t * d, const void * a) { return iot_data_ui32 (d) == 2; }
int main (void) {
 iot_data_t * a = iot_data_alloc_list (), * b = iot_data_alloc_list ();
 for (uint32_t i = 1; i < 4; i++) iot_data_list_tail_push (a, iot_data_alloc_ui32 (i));
 iot_data_hash (a);
 CHECK (iot_data_list_remove (a, is2, NULL));
 iot_data_list_tail_push (b, iot_data_alloc_ui32 (1)); iot_data_list_tail_push (b, iot_data_alloc_ui32 (3));
 CHECK (iot_data_hash (a) == iot_data_hash (b));
 CHECK (iot_data_equal (a, b));
 iot_data_free (a); iot_data_free (b); return 0; }
'''),
('vector_resize_zero_leak','D04',D,('''  if (size < vec->size)
  {
    for''','''  if (size && size < vec->size)
  {
    for'''),
 'a vector with elements resized to size zero',
 'the dropped elements are never released',
 H+'''static int freed; static void fn (void * p) { freed++; }
int main (void) {
 iot_data_t * v = iot_data_alloc_vector (3);
 for (uint32_t i = 0; i < 3; i++) iot_data_vector_add (v, i, iot_data_alloc_pointer (&freed, fn));
 iot_data_vector_resize (v, 1); CHECK (freed == 2);
 iot_data_vector_resize (v, 0);
 iot_data_free (v);
 CHECK (freed == 3); return 0; }
'''),
('b64_partial_overflow','B01','src/c/base64.c',('if ((len += 2) > *outLen) { return false; }','if ((len += 2) > *outLen + 1) { return false; }'),
 'text whose last group holds two bytes, decoded into a buffer exactly one byte too small',
 'one byte is written beyond the stated buffer and success is reported',
 H+'''int main (void) {
 char out [8]; memset (out, 'x', 8); size_t n = 4;
 bool ok = iot_b64_decode ("QUJDREU=", out, &n);
 CHECK (!ok); CHECK (out[4] == 'x');
 n = 5; CHECK (iot_b64_decode ("QUJDREU=", out, &n) && n == 5); return 0; }
'''),
('copy_list_shares_vectors','D08',D,('''        iot_data_t * val = iot_data_copy (iot_data_list_iter_value (&iter));''','''        const iot_data_t * item = iot_data_list_iter_value (&iter);
        iot_data_t * val = (iot_data_type (item) == IOT_DATA_VECTOR) ? iot_data_add_ref (item) : iot_data_copy (item);'''),
 'a list holding a vector is copied and the vector inside one of them is changed',
 'the deep copy shares the vector with its source, so a change of one shows in the other',
 H+'''int main (void) {
 iot_data_t * l = iot_data_alloc_list (), * v = iot_data_alloc_vector (1);
 iot_data_vector_add (v, 0, iot_data_alloc_ui32 (1)); iot_data_list_tail_push (l, v);
 iot_data_t * c = iot_data_copy (l);
 iot_data_vector_add (v, 0, iot_data_alloc_ui32 (2));
 CHECK (iot_data_ui32 (iot_data_vector_get (iot_data_list_head_pop (c), 0)) == 1);
 iot_data_free (l); iot_data_free (c); return 0; }
'''),
('string_inline_boundary','D11',D,('if (len < IOT_DATA_VALUE_BUFF_SIZE) // If','if (len <= IOT_DATA_VALUE_BUFF_SIZE) // If'),
 'a copied string whose length is exactly the size of the inline buffer',
 'the terminator is written one byte beyond the value',
 H+'''int main (void) {
 for (size_t n = 0; n < 100; n++) { char b [128]; memset (b, 'a', n); b[n] = 0;
  iot_data_t * d = iot_data_alloc_string (b, IOT_DATA_COPY); CHECK (!strcmp (iot_data_string (d), b)); iot_data_free (d); }
 return 0; }
''',{'cflags':'-fsanitize=address','lib':'src/c/data.c src/c/data-json.c src/c/json.c src/c/hash.c src/c/base64.c src/c/uuid.c src/c/time.c src/c/util.c -lpthread -lm'}),
('block_free_outside_lock','D13',D,('''  pthread_mutex_lock (&iot_data_mutex);
  iot_block_t * block = ptr;
  block->next = iot_data_cache;
  iot_data_cache = block;''','''  iot_block_t * block = ptr;
  block->next = iot_data_cache;
  pthread_mutex_lock (&iot_data_mutex);
  iot_data_cache = block;'''),
 'release build; another thread allocates between reading the list head and taking the lock',
 'the free list head is a block which the other thread is using, so it is handed out again',
 '''/* the release build with one scheduling point: another thread runs just before the lock is taken */
#define NDEBUG
#include <pthread.h>
static int my_lock (pthread_mutex_t * m);
#define pthread_mutex_lock(m) my_lock (m)
#include "data.c"
#undef pthread_mutex_lock
#include <stdio.h>
static int armed; static void * other;
static void * worker (void * a) { other = iot_data_block_alloc (8); return NULL; }
static int my_lock (pthread_mutex_t * m) { if (armed) { armed = 0; pthread_t t; pthread_create (&t, NULL, worker, NULL); pthread_join (t, NULL); } return pthread_mutex_lock (m); }
int main (void) {
 void * p = iot_data_block_alloc (8), * q = iot_data_block_alloc (8);
 armed = 1; iot_data_block_free (p);
 void * a = iot_data_block_alloc (8), * b = iot_data_block_alloc (8);
 if (a == other || b == other || a == b || a == q || b == q) { printf ("FAILED: a block in use was handed out\\n"); return 1; }
 return 0; }
''',{'lib':'src/c/hash.c src/c/base64.c src/c/uuid.c src/c/time.c src/c/util.c -lpthread -lm'}),
('vector_iter_has_next_stale','D06',D,('''      for (uint32_t j = i + 1; j < vec->size; j++)
      {
        if (vec->values[j])
        {
          vec->values[i] = vec->values[j];
          vec->values[j] = NULL;''','''      for (uint32_t j = i + 1; j < vec->size; j++)
      {
        if (vec->values[j])
        {
          vec->values[i] = vec->values[j];
          if (j + 1 < vec->size || j == i + 1) vec->values[j] = NULL;'''),
 'compaction of a vector with two or more adjacent empty slots before its last element',
 'the last element stays in its old slot too, so it appears twice and is released twice',
 H+'''int main (void) {
 iot_data_t * v = iot_data_alloc_vector (4);
 iot_data_vector_add (v, 0, iot_data_alloc_ui32 (7)); iot_data_vector_add (v, 3, iot_data_alloc_ui32 (9));
 CHECK (iot_data_vector_compact (v) == 2);
 CHECK (iot_data_vector_size (v) == 2);
 CHECK (iot_data_ui32 (iot_data_vector_get (v, 1)) == 9);
 return 0; }
'''),
]
