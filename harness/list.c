/* D05: lists against the mathematical sequence */
#include "vf_data.h"

#define MAXN 8
typedef struct { iot_data_t * v [MAXN]; uint32_t n; } seq_t;   /* v[0] is the head */

static void seq_insert (seq_t * s, uint32_t at, iot_data_t * x)
{
  for (uint32_t j = s->n; j > at; j--) s->v[j] = s->v[j - 1];
  s->v[at] = x; s->n++;
}
static void seq_delete (seq_t * s, uint32_t at)
{
  for (uint32_t j = at; j + 1 < s->n; j++) s->v[j] = s->v[j + 1];
  s->n--;
}
static void seq_check (const iot_data_t * list, const seq_t * s)
{
  iot_data_list_iter_t it;
  iot_data_iter_t git = { 0 };
  VF_ASSERT (iot_data_list_length (list) == s->n, "length is that of the sequence");
  VF_ASSERT (iot_data_length (list) == s->n, "generic length is that of the sequence");
  /* forward iteration runs from the tail to the head */
  iot_data_list_iter (list, &it);
  iot_data_iter (list, &git);
  VF_ASSERT (iot_data_list_iter_value (&it) == NULL, "no value before the first step");
  VF_ASSERT (iot_data_list_iter_has_next (&it) == (s->n > 0) && iot_data_iter_has_next (&git) == (s->n > 0), "has_next at the start");
  for (uint32_t i = 0; i < s->n; i++)
  {
    VF_ASSERT (iot_data_list_iter_next (&it) && iot_data_iter_next (&git), "forward iteration visits every element");
    VF_ASSERT (iot_data_list_iter_value (&it) == s->v[s->n - 1 - i] && iot_data_iter_value (&git) == s->v[s->n - 1 - i], "forward iteration order");
    VF_ASSERT (iot_data_list_iter_has_next (&it) == (i + 1 < s->n) && iot_data_iter_has_next (&git) == (i + 1 < s->n), "has_next while positioned");
  }
  VF_ASSERT (!iot_data_list_iter_next (&it) && !iot_data_iter_next (&git), "forward iteration ends after the last element");
  iot_data_list_iter (list, &it);
  iot_data_iter (list, &git);
  for (uint32_t i = 0; i < s->n; i++)
  {
    VF_ASSERT (iot_data_list_iter_prev (&it) && iot_data_iter_prev (&git), "backward iteration visits every element");
    VF_ASSERT (iot_data_list_iter_value (&it) == s->v[i] && iot_data_iter_value (&git) == s->v[i], "backward iteration order");
  }
  VF_ASSERT (!iot_data_list_iter_prev (&it) && !iot_data_iter_prev (&git), "backward iteration ends after the first element");
}
static void seq_hash (const iot_data_t * list, const seq_t * s)
{
  iot_data_t * other = iot_data_alloc_list ();
  for (uint32_t i = 0; i < s->n; i++) iot_data_list_tail_push (other, iot_data_alloc_i32 (iot_data_i32 (s->v[i])));
  VF_ASSERT (iot_data_hash (list) == iot_data_hash (other), "a list hashes like a freshly built list of the same elements");
  VF_ASSERT (iot_data_equal (list, other), "a list equals a freshly built list of the same elements");
  iot_data_free (other);
}
static bool is_same (const iot_data_t * d, const void * arg) { return d == arg; }
static bool has_value (const iot_data_t * d, const void * arg) { return iot_data_i32 (d) == *(const int32_t*) arg; }

/* a list of n values built from either end */
static iot_data_t * build (seq_t * s, uint32_t n, bool tail)
{
  iot_data_t * list = iot_data_alloc_list ();
  s->n = 0;
  for (uint32_t i = 0; i < n; i++)
  {
    iot_data_t * x = iot_data_alloc_i32 (vf_i32 ());
    if (tail) { seq_insert (s, s->n, x); iot_data_list_tail_push (list, x); }
    else { seq_insert (s, 0, x); iot_data_list_head_push (list, x); }
  }
  return list;
}
/* one operation; returns false when the code is not applicable */
#define OPS 17
static bool apply (iot_data_t * list, seq_t * s, uint32_t op)
{
  iot_data_t * x;
  iot_data_list_iter_t it;
  switch (op)
  {
    case 0: x = iot_data_alloc_i32 (vf_i32 ()); seq_insert (s, 0, x); iot_data_list_head_push (list, x); break;
    case 1: x = iot_data_alloc_i32 (vf_i32 ()); seq_insert (s, s->n, x); iot_data_list_tail_push (list, x); break;
    case 2:
    case 3:
      x = (op == 2) ? iot_data_list_head_pop (list) : iot_data_list_tail_pop (list);
      VF_ASSERT ((x == NULL) == (s->n == 0), "pop returns nothing exactly when the list is empty");
      if (s->n)
      {
        VF_ASSERT (x == s->v[op == 2 ? 0 : s->n - 1], "pop returns the element at its end");
        seq_delete (s, op == 2 ? 0 : s->n - 1);
        iot_data_free (x);
      }
      break;
    case 4: iot_data_list_empty (list); s->n = 0; break;
    case 5: case 6: case 7:   /* remove by search */
      if (op - 5 >= s->n) return false;
      VF_ASSERT (iot_data_list_find (list, is_same, s->v[op - 5]) == s->v[op - 5], "search finds a present element");
      VF_ASSERT (iot_data_list_remove (list, is_same, s->v[op - 5]), "removing a present element succeeds");
      seq_delete (s, op - 5);
      break;
    case 8:
      VF_ASSERT (iot_data_list_find (list, is_same, list) == NULL && !iot_data_list_remove (list, is_same, list), "an absent element is not found and not removed");
      break;
    case 9: case 10: case 11:   /* remove during forward iteration: the walk continues with the following element */
    {
      uint32_t pos = op - 9;
      if (pos >= s->n) return false;
      iot_data_list_iter (list, &it);
      VF_ASSERT (!iot_data_list_iter_remove (&it), "nothing to remove before the first step");
      for (uint32_t i = 0; i <= pos; i++) iot_data_list_iter_next (&it);
      VF_ASSERT (iot_data_list_iter_remove (&it), "removal during iteration succeeds");
      seq_delete (s, s->n - 1 - pos);
      for (uint32_t i = pos; i < s->n; i++)
      {
        VF_ASSERT (iot_data_list_iter_has_next (&it) && iot_data_list_iter_next (&it), "the walk continues after a removal");
        VF_ASSERT (iot_data_list_iter_value (&it) == s->v[s->n - 1 - i], "with the element that follows the removed one");
      }
      VF_ASSERT (!iot_data_list_iter_has_next (&it) && !iot_data_list_iter_next (&it), "and ends after the last element");
      break;
    }
    case 12: case 13: case 14:   /* replace during iteration */
    {
      uint32_t pos = op - 12;
      if (pos >= s->n) return false;
      iot_data_list_iter (list, &it);
      x = iot_data_alloc_i32 (vf_i32 ());
      VF_ASSERT (iot_data_list_iter_replace (&it, x) == NULL, "nothing is replaced before the first step");
      for (uint32_t i = 0; i <= pos; i++) iot_data_list_iter_next (&it);
      iot_data_t * old = iot_data_list_iter_replace (&it, x);
      VF_ASSERT (old == s->v[s->n - 1 - pos], "replacing returns the old element");
      iot_data_free (old);
      s->v[s->n - 1 - pos] = x;
      break;
    }
    case 15:   /* search by value, values arbitrary: the first match in iteration order */
    {
      int32_t k = vf_i32 ();
      const iot_data_t * f = iot_data_list_find (list, has_value, &k), * want = NULL;
      for (uint32_t i = 0; i < s->n; i++) if (iot_data_i32 (s->v[i]) == k) want = s->v[i];
      VF_ASSERT (f == want, "search returns the first element in iteration order that matches");
      break;
    }
    default: /* hash in between, so that later changes have to invalidate it */
      iot_data_hash (list);
      break;
  }
  return true;
}

/*@ OBL D05.deque prop=D05 class=bounded light=1 split=8 unwind=1100 cost=5 flags="--object-bits 14" fns=iot_data_list_head_push,iot_data_list_head_pop,iot_data_list_tail_push,iot_data_list_tail_pop,iot_data_list_length,iot_data_list_iter,iot_data_list_iter_next,iot_data_list_iter_prev,iot_data_iter,iot_data_iter_next,iot_data_iter_prev,iot_data_iter_value,iot_data_iter_has_next,iot_data_length bound="every history of 4 pushes and pops, all values"
*/
void h_deque (void)
{
  vf_data_init ();
  for (uint32_t h = 0; h < 256; h++)
  {
    if (!VF_MINE (h)) continue;
    iot_data_t * list = iot_data_alloc_list ();
    seq_t s = { .n = 0 };
    for (int i = 0; i < 4; i++) apply (list, &s, (h >> (2 * i)) & 3u);
    seq_check (list, &s);
    iot_data_free (list);
    VF_ASSERT (vf_live == 0, "everything is released");
  }
  VF_REACH ("end");
}

/*@ OBL D05.ops prop=D05,D01 class=bounded light=1 split=16 unwind=80 cost=5 flags="--object-bits 14" fns=iot_data_list_find,iot_data_list_remove,iot_data_list_iter_remove,iot_data_list_iter_replace,iot_data_list_empty,iot_data_list_iter_has_next bound="every operation on every list of up to 3 elements, with every follow-up operation on lists of 3"
*/
/*@ OBL D05.ops_safe prop=D05,D04,D01 class=bounded split=8 defs=-DSAFE unwind=80 cost=5 flags="--object-bits 14" fns=iot_data_list_find,iot_data_list_remove,iot_data_list_iter_remove,iot_data_list_iter_replace,iot_data_list_empty,iot_data_list_iter_has_next bound="every operation on every list of up to 3 elements, memory safety included"
*/
void h_ops (void)
{
  vf_data_init ();
  for (uint32_t n = 0; n <= 3; n++) for (uint32_t op = 0; op < OPS; op++)
  {
    #ifdef SAFE
    uint32_t last = 1;
#else
    uint32_t last = n == 3 ? OPS : 1;
#endif
    for (uint32_t op2 = 0; op2 < last; op2++)
    {
      if (!VF_MINE (n * OPS * OPS + op * OPS + op2)) continue;
      if (n < 3 && op2 > 0) continue;
      seq_t s;
      iot_data_t * list = build (&s, n, op & 1);
      bool ok = apply (list, &s, op);
      if (ok && last > 1) ok = apply (list, &s, op2);
      if (ok) { seq_check (list, &s); seq_hash (list, &s); }
      iot_data_free (list);
      VF_ASSERT (vf_live == 0, "everything is released");
    }
  }
  VF_REACH ("end");
}

/*@ OBL D05.values class=bounded unwind=12 fns=iot_data_alloc_const_list,iot_data_list_type,iot_data_alloc_typed_list,iot_data_list_iter_string_value,iot_data_list_iter_pointer_value bound="typed and constant lists of 2 elements"
*/
void h_values (void)
{
  vf_data_init ();
  iot_data_list_static_t st;
  iot_data_t * list = iot_data_alloc_const_list (&st);
  VF_ASSERT (list == IOT_DATA_STATIC (&st) && iot_data_type (list) == IOT_DATA_LIST && iot_data_list_length (list) == 0 && iot_data_list_type (list) == IOT_DATA_MULTI, "static list");
  iot_data_t * str = iot_data_alloc_typed_list (IOT_DATA_STRING);
  VF_ASSERT (iot_data_list_type (str) == IOT_DATA_STRING && iot_data_list_length (str) == 0 && iot_data_type (str) == IOT_DATA_LIST, "typed list");
  iot_data_list_iter_t it;
  iot_data_list_tail_push (str, iot_data_alloc_string ("ab", IOT_DATA_REF));
  iot_data_list_tail_push (str, iot_data_alloc_string ("cd", IOT_DATA_COPY));
  iot_data_list_iter (str, &it);
  VF_ASSERT (iot_data_list_iter_string_value (&it) == NULL && iot_data_list_iter_pointer_value (&it) == NULL, "no value before the first step");
  iot_data_list_iter_next (&it);
  VF_ASSERT (strcmp (iot_data_list_iter_string_value (&it), "cd") == 0, "text of the tail");
  iot_data_list_iter_next (&it);
  VF_ASSERT (strcmp (iot_data_list_iter_string_value (&it), "ab") == 0, "text of the head");
  iot_data_free (str);
  iot_data_t * ptr = iot_data_alloc_list ();
  iot_data_list_head_push (ptr, iot_data_alloc_pointer (&st, NULL));
  iot_data_list_iter (ptr, &it);
  iot_data_list_iter_prev (&it);
  VF_ASSERT (iot_data_list_iter_pointer_value (&it) == &st, "pointer value");
  iot_data_free (ptr);
  VF_ASSERT (vf_live == 0, "everything is released");
  VF_REACH ("end");
}

#ifdef LOCAL
/* Contracts over arbitrarily long lists.  An operation at an end or at a position touches only the
 * list header and the elements next to that place: a window of the chain is laid out, everything
 * beyond it is the two outside elements XP (towards the tail) and XN (towards the head), the stored
 * length is arbitrary.  Each contract states every field of the header and of the window afterwards;
 * together with "forward is the reverse of backward" on the rest of the chain this is the induction
 * step of the sequence property for any length. */
static iot_element_t * node (void) { iot_element_t * e = iot_element_alloc (); e->value = iot_data_alloc_i32 (vf_i32 ()); return e; }
static bool same_elem (const iot_element_t * a, const iot_element_t * b) { return a->next == b->next && a->prev == b->prev && a->value == b->value; }

/*@ OBL D05.local_push class=proved defs=-DLOCAL unwind=12 fns=iot_data_list_head_push,iot_data_list_tail_push
*/
/*@ OBL D05.local_push_tail class=proved defs="-DLOCAL -DTAIL" unwind=12 fns=iot_data_list_head_push,iot_data_list_tail_push
*/
void h_local_push (void)
{
  vf_data_init ();
  iot_data_list_t l = { 0 };
  l.base.type = IOT_DATA_LIST; l.base.element_type = IOT_DATA_MULTI; l.base.refs = 1; l.base.hash = vf_u32 (); l.base.rehash = vf_bool ();
  uint32_t h0 = l.base.hash, n = vf_range (2, UINT32_MAX - 1);
  bool r0 = l.base.rehash;
  iot_element_t * h = node (), * t = node (), * xh = node (), * xt = node ();
  /* h - xh ... xt - t, or h - t */
  bool two = vf_bool ();
  h->next = NULL; t->prev = NULL;
  if (two) { n = 2; h->prev = t; t->next = h; }
  else { VF_ASSUME (n > 2); h->prev = xh; xh->next = h; t->next = xt; xt->prev = t; xh->prev = xt; xt->next = xh; }
  h->length = n; l.head = h; l.tail = t;
  iot_element_t h1 = *h, t1 = *t, xh1 = *xh, xt1 = *xt;
  iot_data_t * x = iot_data_alloc_i32 (vf_i32 ());
#ifdef TAIL
  iot_data_list_tail_push (&l.base, x);
  VF_ASSERT (l.head == h && same_elem (h, &h1), "the head is unchanged");
  VF_ASSERT (l.tail != t && l.tail->value == x && l.tail->next == t && l.tail->prev == NULL, "the new tail precedes the old one");
  VF_ASSERT (t->prev == l.tail && t->next == t1.next && t->value == t1.value, "the old tail follows it");
#else
  iot_data_list_head_push (&l.base, x);
  VF_ASSERT (l.tail == t && same_elem (t, &t1), "the tail is unchanged");
  VF_ASSERT (l.head != h && l.head->value == x && l.head->prev == h && l.head->next == NULL, "the new head follows the old one");
  VF_ASSERT (h->next == l.head && h->prev == h1.prev && h->value == h1.value, "the old head precedes it");
#endif
  VF_ASSERT (iot_data_list_length (&l.base) == n + 1, "one element more");
  if (!two) VF_ASSERT (same_elem (xh, &xh1) && same_elem (xt, &xt1), "the rest is untouched");
  if (!r0 && !l.base.rehash) VF_ASSERT (l.base.hash == (h0 ^ iot_data_hash (x)), "the hash covers the new element");
  if (r0) VF_ASSERT (l.base.rehash, "a pending hash calculation stays pending");
  VF_REACH ("end");
}

/*@ OBL D05.local_remove class=proved split=4 defs=-DLOCAL unwind=12 cost=3 fns=iot_data_list_head_pop,iot_data_list_tail_pop,iot_data_list_iter_remove,iot_data_list_remove_element
*/
void h_local_remove (void)
{
  vf_data_init ();
  /* chain c[0]=head .. c[k-1]=tail; with k == 6 the list is longer than the window and its length is arbitrary */
  for (uint32_t k = 1; k <= 6; k++) for (uint32_t at = 0; at < k; at++) for (uint32_t how = 0; how < 2; how++)
  {
    if (!VF_MINE (k + at)) continue;
    if (how == 1 && at != 0 && at != k - 1) continue;
    iot_data_list_t l = { 0 };
    iot_element_t * c [6];
    iot_element_t o [6];
    l.base.type = IOT_DATA_LIST; l.base.element_type = IOT_DATA_MULTI; l.base.refs = 1; l.base.hash = vf_u32 ();
    for (uint32_t i = 0; i < k; i++) c[i] = node ();
    for (uint32_t i = 0; i < k; i++) { c[i]->next = i ? c[i - 1] : NULL; c[i]->prev = i + 1 < k ? c[i + 1] : NULL; }
    l.head = c[0]; l.tail = c[k - 1];
    uint32_t n = k < 6 ? k : vf_range (6, UINT32_MAX);
    c[0]->length = n;
    for (uint32_t i = 0; i < k; i++) o[i] = *c[i];
    iot_data_t * value = c[at]->value;
    if (how == 1)
    {
      iot_data_t * p = at == 0 ? iot_data_list_head_pop (&l.base) : iot_data_list_tail_pop (&l.base);
      VF_ASSERT (p == value, "the end element is returned");
      iot_data_free (p);
    }
    else
    {
      iot_data_list_iter_t it = { &l, c[at] };
      VF_ASSERT (iot_data_list_iter_remove (&it) && it._element == (at + 1 < k ? c[at + 1] : NULL), "the iterator moves to the preceding element");
    }
    VF_ASSERT (vf_live == 2 * ((long) k - 1), "exactly the element and its value are released");
    VF_ASSERT (iot_data_list_length (&l.base) == n - 1 || k == 1, "one element less");
    if (k == 1) VF_ASSERT (l.head == NULL && l.tail == NULL && iot_data_list_length (&l.base) == 0, "an empty list");
    else
    {
      VF_ASSERT (l.head == c[at == 0 ? 1 : 0] && l.tail == c[at == k - 1 ? k - 2 : k - 1], "ends");
      for (uint32_t i = 0; i < k; i++)
      {
        if (i == at) continue;
        VF_ASSERT (c[i]->value == o[i].value, "other values are untouched");
        VF_ASSERT (c[i]->next == ((at + 1 == i) ? o[at].next : o[i].next), "next links skip the removed element");
        VF_ASSERT (c[i]->prev == ((i + 1 == at) ? o[at].prev : o[i].prev), "prev links skip the removed element");
      }
    }
    VF_ASSERT (l.base.rehash, "the hash is recalculated");
    for (uint32_t i = 0; i < k; i++) if (i != at) { iot_data_free (c[i]->value); iot_element_free (c[i]); }
  }
  VF_REACH ("end");
}
#endif
