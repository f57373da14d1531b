From fc259788d998d31c07e39545dc1d095d7a1f88a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:49 +0000
Subject: [PATCH 01/36] fix: refuse numeric casts of NaN and of values just
 above the 64 bit integer limits

---
 src/c/data.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/data.c b/src/c/data.c
index 6f6b451..4f100f5 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -10,6 +10,7 @@
 #include "iot/uuid.h"
 #include <stdarg.h>
 #include <float.h>
+#include <math.h>
 
 #define IOT_DATA_IS_COMPOSED_TYPE(t) ((t) >= IOT_DATA_VECTOR && (t) <= IOT_DATA_MAP)
 #define IOT_DATA_IS_FLOAT_TYPE(t) ((t) == IOT_DATA_FLOAT32 || (t) == IOT_DATA_FLOAT64)
@@ -495,6 +496,10 @@ static bool iot_data_cast_val (const iot_data_union_t in, void * out, iot_data_t
   }
   // Check value within max/min for target type
   if ((out_type < IOT_DATA_FLOAT64) && (VALUE () > max_vals[out_type] || VALUE () < min_vals[out_type])) return false;
+  // 64 bit integer limits have no exact double representation, and NaN has no integer value
+  if (dfloat && (out_type <= IOT_DATA_UINT64) && isnan (uval.f64)) return false;
+  if ((out_type == IOT_DATA_INT64) && ((dfloat && uval.f64 >= 0x1p63) || (usign && uval.ui64 > INT64_MAX))) return false;
+  if ((out_type == IOT_DATA_UINT64) && dfloat && uval.f64 >= 0x1p64) return false;
 
   // Cast to target type
   switch (out_type)
-- 
2.43.0


From b42365ad0ca26a8d5d1f8ca7578005f2a6f37138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:49 +0000
Subject: [PATCH 02/36] fix: compare negative signed and unsigned integers by
 value

---
 src/c/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 4f100f5..60d6e98 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -543,9 +543,10 @@ static int iot_data_cmp (const iot_data_t * v1, const iot_data_t * v2, bool by_v
       if (IOT_DATA_IS_SIGNED_TYPE (v1->type))
       {
         if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv1.i64 == uv2.i64) ? 0 : ((uv1.i64 < uv2.i64) ? -1 : 1);
-        return (uv1.i64 == uv2.ui64) ? 0 : ((uv1.i64 < uv2.ui64) ? -1 : 1);
+        if (uv1.i64 < 0) return -1; // A negative value is less than any unsigned value
+        return (uv1.ui64 == uv2.ui64) ? 0 : ((uv1.ui64 < uv2.ui64) ? -1 : 1);
       }
-      if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv1.ui64 == uv2.i64) ? 0 : ((uv1.ui64 < uv2.i64) ? -1 : 1);
+      if (IOT_DATA_IS_SIGNED_TYPE (v2->type) && (uv2.i64 < 0)) return 1; // Any unsigned value is greater than a negative value
       return (uv1.ui64 == uv2.ui64) ? 0 : ((uv1.ui64 < uv2.ui64) ? -1 : 1);
     }
     return (v1->type < v2->type) ? -1 : 1;
-- 
2.43.0


From 11da8588006dec37440f7f7df46d580aa0544f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 03/36] fix: keep a pending hash recalculation when a vector is
 resized to its own size

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 60d6e98..db8e182 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2055,7 +2055,7 @@ void iot_data_vector_resize (iot_data_t * vector, uint32_t size)
     vec->values = realloc (vec->values, size * sizeof (iot_data_t*));
     memset (&vec->values[vec->size], 0, (size - vec->size) * sizeof (iot_data_t*));
   }
-  vector->rehash = vec->size != size;
+  if (vec->size != size) vector->rehash = true;
   vec->size = size;
 }
 
-- 
2.43.0


From 22831a21107a3426d2491e9d338d73624ce7c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 04/36] fix: recalculate a map hash after its values are
 replaced in place

---
 src/c/data.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index db8e182..b4a48ff 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1828,6 +1828,7 @@ bool iot_data_map_base64_to_array (const iot_data_t * map, const iot_data_t * ke
     {
       iot_data_free (node->value);
       node->value = array;
+      ((iot_data_map_t*) map)->base.rehash = true;
     }
   }
   return (array != NULL);
@@ -2364,7 +2365,12 @@ iot_data_t * iot_data_map_iter_replace_value (const iot_data_map_iter_t * iter,
 {
   assert (iter && iter->_map && value && (iter->_map->base.element_type == IOT_DATA_MULTI || iter->_map->base.element_type == value->type));
   iot_data_t * res = (iter->_node) ? iter->_node->value : NULL;
-  if (res) iter->_node->value = value;
+  if (res)
+  {
+    iot_data_t * base = (iot_data_t*) &iter->_map->base;
+    base->rehash = true;
+    iter->_node->value = value;
+  }
   return res;
 }
 
-- 
2.43.0


From b077252da24b4b76527340f9f21de6beacb012bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 05/36] fix: hash empty arrays alike and release their unused
 buffer

---
 src/c/data.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index b4a48ff..e8e5489 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1591,13 +1591,14 @@ extern iot_data_t * iot_data_alloc_array (void * data, uint32_t length, iot_data
   array->base.element_type = type;
   array->data = length ? data : NULL;
   array->length = length;
-  array->base.hash = data ? iot_hash_data (data, size) : 0;
-  array->base.release = data ? (ownership != IOT_DATA_REF) : false;
-  if (length && data && (ownership == IOT_DATA_COPY))
+  array->base.hash = length ? iot_hash_data (data, size) : 0;
+  array->base.release = length ? (ownership != IOT_DATA_REF) : false;
+  if (length && (ownership == IOT_DATA_COPY))
   {
     array->data = malloc (size);
     memcpy (array->data, data, size);
   }
+  if ((length == 0) && (ownership == IOT_DATA_TAKE)) free (data);
   return (iot_data_t*) array;
 }
 
-- 
2.43.0


From a41afe4502f7629539e18b1335ad3d4073e4950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 06/36] fix: allocate all bytes of the array copied by
 iot_data_binary_take and reset the hash of the emptied array

---
 src/c/data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index e8e5489..7a7af24 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1544,10 +1544,11 @@ extern void * iot_data_binary_take (iot_data_t * data, uint32_t * len)
     ret = array->data;
     array->data = NULL;
     array->length = 0u;
+    array->base.hash = 0u;
   }
   else
   {
-    ret = malloc (array->length);
+    ret = malloc (*len);
     memcpy (ret, array->data, *len);
   }
   return ret;
-- 
2.43.0


From fd42ae9a125dc2a7018f3b6264c2d8abd6bdf5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 07/36] fix: update the hash of a value when it is incremented
 or decremented

---
 src/c/data.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 7a7af24..92cae6e 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1252,16 +1252,16 @@ static void iot_data_inc_dec (iot_data_t * data, bool inc)
   iot_data_union_t * val = &((iot_data_value_t*) data)->value;
   switch (data->type)
   {
-    case IOT_DATA_INT8: inc ? val->i8++ : val->i8--; break;
-    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; break;
-    case IOT_DATA_INT16: inc ? val->i16++ : val->i16--; break;
-    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; break;
-    case IOT_DATA_INT32: inc ? val->i32++ : val->i32--; break;
-    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; break;
-    case IOT_DATA_INT64: inc ? val->i64++ : val->i64--; break;
-    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; break;
-    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; break;
-    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; break;
+    case IOT_DATA_INT8: inc ? val->i8++ : val->i8--; data->hash = (uint32_t) val->i8; break;
+    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; data->hash = (uint32_t) val->ui8; break;
+    case IOT_DATA_INT16: inc ? val->i16++ : val->i16--; data->hash = (uint32_t) val->i16; break;
+    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; data->hash = (uint32_t) val->ui16; break;
+    case IOT_DATA_INT32: inc ? val->i32++ : val->i32--; data->hash = (uint32_t) val->i32; break;
+    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; data->hash = (uint32_t) val->ui32; break;
+    case IOT_DATA_INT64: inc ? val->i64++ : val->i64--; data->hash = (uint32_t) val->i64; break;
+    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; data->hash = (uint32_t) val->ui64; break;
+    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; data->hash = (uint32_t) val->f32; break;
+    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; data->hash = (uint32_t) val->f64; break;
     default: break;
   }
 }
-- 
2.43.0


From 5be7c13beb80504fc1d64062394a5c568968e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 08/36] fix: report no next element for iterators of empty
 lists, vectors and arrays, and for map iterators moved backwards

---
 src/c/data.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 92cae6e..12a6d19 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -913,7 +913,7 @@ bool iot_data_list_iter_next (iot_data_list_iter_t * iter)
 bool iot_data_list_iter_has_next (const iot_data_list_iter_t * iter)
 {
   assert (iter);
-  return ((iter->_element == NULL) ||  iter->_element->next);
+  return (iter->_element ? iter->_element->next : iter->_list->tail) != NULL;
 }
 
 bool iot_data_list_iter_prev (iot_data_list_iter_t * iter)
@@ -2308,7 +2308,7 @@ bool iot_data_map_iter_next (iot_data_map_iter_t * iter)
 bool iot_data_map_iter_has_next (const iot_data_map_iter_t * iter)
 {
   assert (iter && iter->_map);
-  return (iter->_count < iter->_map->size);
+  return (iter->_node ? iot_node_next (iter->_node) : iter->_map->tree) != NULL;
 }
 
 static inline iot_node_t * iot_node_end (iot_node_t * node)
@@ -2417,7 +2417,7 @@ bool iot_data_array_iter_next (iot_data_array_iter_t * iter)
 bool iot_data_array_iter_has_next (const iot_data_array_iter_t * iter)
 {
   assert (iter);
-  return ((iter->_index == iter->_array->length) || (iter->_index + 1 < iter->_array->length));
+  return ((iter->_index == iter->_array->length) ? (iter->_array->length > 0) : (iter->_index + 1 < iter->_array->length));
 }
 
 bool iot_data_array_iter_prev (iot_data_array_iter_t * iter)
@@ -2455,7 +2455,7 @@ bool iot_data_vector_iter_next (iot_data_vector_iter_t * iter)
 
 bool iot_data_vector_iter_has_next (const iot_data_vector_iter_t * iter)
 {
-  return ((iter->_index == iter->_vector->size) || (iter->_index + 1 < iter->_vector->size));
+  return ((iter->_index == iter->_vector->size) ? (iter->_vector->size > 0) : (iter->_index + 1 < iter->_vector->size));
 }
 
 bool iot_data_vector_iter_prev (iot_data_vector_iter_t * iter)
-- 
2.43.0


From 529bbc4682b8d977aaf64b83e349c6b9008100be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 09/36] fix: do not add a metadata reference when copying a
 pointer value

---
 src/c/data.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 12a6d19..4e1a1ea 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2693,9 +2693,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
     }
     case IOT_DATA_POINTER:
     {
-      ret = (iot_data_t*) data;
-      iot_data_add_ref (ret);
-      break;
+      return iot_data_add_ref (data); // Same instance, so shares metadata
     }
     default: // basic types
     {
-- 
2.43.0


From 3203bc7c4c8e6ea35978922fc1737f0af253c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 10/36] fix: ignore empty vector elements when compressing data

---
 src/c/data.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/data.c b/src/c/data.c
index 4e1a1ea..d55723a 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1082,6 +1082,7 @@ bool iot_data_is_nan (const iot_data_t * data)
 
 static void iot_data_cache_add (iot_data_t * cache, iot_data_t ** data)
 {
+  if (*data == NULL) return; // Empty vector element
   iot_data_t * cached = (iot_data_t*) iot_data_map_get (cache, *data);
   if (cached)
   {
-- 
2.43.0


From a7ee0c64f2cf0a625b399047a93c1c07a499bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 11/36] fix: return NULL from iot_data_get_at for a path that
 does not match the data

---
 src/c/data.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index d55723a..bc4477d 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2784,14 +2784,23 @@ extern const iot_data_t * iot_data_get_at (const iot_data_t * data, const iot_da
 {
   assert (data && path);
   const iot_data_t * result = data;
-  if (iot_data_list_length (path) > 0)
+  iot_data_list_iter_t iter;
+  iot_data_list_iter (path, &iter);
+  while (result && iot_data_list_iter_prev (&iter)) // Path runs from the list head
   {
-    assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
-    iot_data_t * p = iot_data_copy (path);
-    iot_data_t * index = iot_data_list_head_pop (p);
-    result = (data->type == IOT_DATA_MAP) ? iot_data_get_at (iot_data_map_get (data, index), p) : iot_data_get_at (iot_data_vector_get (data, iot_data_ui32 (index)), p);
-    iot_data_free (index);
-    iot_data_free (p);
+    const iot_data_t * index = iot_data_list_iter_value (&iter);
+    if (result->type == IOT_DATA_MAP)
+    {
+      result = iot_data_map_get (result, index);
+    }
+    else if ((result->type == IOT_DATA_VECTOR) && (index->type == IOT_DATA_UINT32) && (iot_data_ui32 (index) < iot_data_vector_size (result)))
+    {
+      result = iot_data_vector_get (result, iot_data_ui32 (index));
+    }
+    else
+    {
+      result = NULL;
+    }
   }
   return result;
 }
-- 
2.43.0


From fefc95d28a83becba5b914032a6d3df31dc38e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 12/36] fix: do not modify a constant path list in path
 operations

---
 src/c/data.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index bc4477d..0bf9253 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2818,7 +2818,7 @@ extern iot_data_t * iot_data_add_at (const iot_data_t * data, const iot_data_t *
   if (iot_data_list_length (path) > 0)
   {
     assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
-    iot_data_t * p = iot_data_copy (path);
+    iot_data_t * p = iot_data_shallow_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
     result = iot_data_shallow_copy (data);
     (data->type == IOT_DATA_MAP) ?
@@ -2841,7 +2841,7 @@ extern iot_data_t * iot_data_remove_at (const iot_data_t * data, const iot_data_
   if (iot_data_list_length (path) > 0)
   {
     assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
-    iot_data_t * p = iot_data_copy (path);
+    iot_data_t * p = iot_data_shallow_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
     if (data->type == IOT_DATA_MAP)
     {
@@ -2884,7 +2884,7 @@ extern iot_data_t * iot_data_update_at (const iot_data_t * data, const iot_data_
   else
   {
     result = iot_data_shallow_copy (data);
-    iot_data_t * p = iot_data_copy (path);
+    iot_data_t * p = iot_data_shallow_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
     if (data->type == IOT_DATA_MAP)
     {
-- 
2.43.0


From 4d083a62b39318e047a48e4e7bb3a9c3f15164f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 13/36] fix: allow iot_data_add_at to add a new element

---
 src/c/data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 0bf9253..2c86a00 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2813,11 +2813,11 @@ extern void iot_data_list_empty (iot_data_t * list)
 
 extern iot_data_t * iot_data_add_at (const iot_data_t * data, const iot_data_t * path, iot_data_t * val)
 {
-  assert (data && path && val);
+  assert (path && val);
   iot_data_t * result;
   if (iot_data_list_length (path) > 0)
   {
-    assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
+    assert (data && (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR));
     iot_data_t * p = iot_data_shallow_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
     result = iot_data_shallow_copy (data);
-- 
2.43.0


From 761c86e28708f9836b9b3152f9462fb9172d9cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 14/36] fix: leave data unchanged when a path to remove or
 update does not exist

---
 src/c/data.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 2c86a00..78abf49 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2847,7 +2847,8 @@ extern iot_data_t * iot_data_remove_at (const iot_data_t * data, const iot_data_
     {
       if (iot_data_list_length (p) > 0)
       {
-        iot_data_map_add (result, iot_data_add_ref (index), iot_data_remove_at (iot_data_map_get (result, index), p));
+        const iot_data_t * val = iot_data_map_get (result, index);
+        if (val) iot_data_map_add (result, iot_data_add_ref (index), iot_data_remove_at (val, p));
       }
       else
       {
@@ -2859,7 +2860,8 @@ extern iot_data_t * iot_data_remove_at (const iot_data_t * data, const iot_data_
       uint32_t i = iot_data_ui32 (index);
       if (iot_data_list_length (p) > 0)
       {
-        iot_data_vector_add (result, i, iot_data_remove_at (iot_data_vector_get (result, i), p));
+        const iot_data_t * val = iot_data_vector_get (result, i);
+        if (val) iot_data_vector_add (result, i, iot_data_remove_at (val, p));
       }
       else
       {
@@ -2893,7 +2895,8 @@ extern iot_data_t * iot_data_update_at (const iot_data_t * data, const iot_data_
     }
     else if (data->type == IOT_DATA_VECTOR)
     {
-      iot_data_vector_add (result, iot_data_ui32 (index), iot_data_update_at (iot_data_vector_get (data, iot_data_ui32 (index)), p, fn, arg));
+      const iot_data_t * val = iot_data_vector_get (data, iot_data_ui32 (index));
+      if (val) iot_data_vector_add (result, iot_data_ui32 (index), iot_data_update_at (val, p, fn, arg));
     }
     iot_data_free (index);
     iot_data_free (p);
-- 
2.43.0


From c30c5710dcba76a2a347d1b629df7762e747053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:58 +0000
Subject: [PATCH 15/36] fix: do not write beyond the dimensions of a vector
 whose elements have different depths

---
 src/c/data.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 78abf49..2f35188 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2123,7 +2123,7 @@ static uint32_t iot_data_vector_depth (const iot_data_t * vector)
   return depth + 1u;
 }
 
-static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t * dims, uint32_t * total)
+static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t depth, uint32_t * dims, uint32_t * total)
 {
   uint32_t size = iot_data_vector_size (vector);
   uint32_t vecs = iot_data_vector_element_count (vector, IOT_DATA_VECTOR, false);
@@ -2133,14 +2133,14 @@ static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t * dims, ui
     *total = *total ? *total * size : size;
   }
   bool ok = (*dims == size);
-  if (ok && (size == vecs)) // Only regard as multidimensional vector if all elements also vectors
+  if (ok && (depth > 1u) && (size == vecs)) // Only regard as multidimensional vector if all elements also vectors of the same depth
   {
     dims++;
     iot_data_vector_iter_t iter;
     iot_data_vector_iter (vector, &iter);
     while (ok && iot_data_vector_iter_next (&iter))
     {
-      ok = iot_data_vector_dims (iot_data_vector_iter_value (&iter), dims, total);
+      ok = iot_data_vector_dims (iot_data_vector_iter_value (&iter), depth - 1u, dims, total);
     }
   }
   return ok;
@@ -2153,7 +2153,7 @@ iot_data_t * iot_data_vector_dimensions (const iot_data_t * vector, uint32_t * t
   uint32_t depth = iot_data_vector_depth (vector);
   uint32_t * dims = calloc (depth, sizeof (uint32_t));
   *total = 0u;
-  if (iot_data_vector_dims (vector, dims, total))
+  if (iot_data_vector_dims (vector, depth, dims, total))
   {
     dimarray = iot_data_alloc_array (dims, depth, IOT_DATA_UINT32, IOT_DATA_TAKE);
   }
-- 
2.43.0


From fb0cd187554e11ed5ff998e53d4921057a936bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 16/36] fix: JSON escape of a character the locale cannot
 represent moved the output before its buffer

---
 src/c/data-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 2d2306d..f550cc6 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -219,7 +219,7 @@ static char * iot_data_string_from_json_token (const char * json, const iot_json
               mbstate_t ps = { 0 };
               sscanf (++src, "%4" SCNx32, &wc);
               size_t charsz = c32rtomb (dst, wc, &ps);
-              if (charsz > 0) dst += charsz;
+              if (charsz != (size_t) -1) dst += charsz;
               src += 3;
             }
             break;
-- 
2.43.0


From 29c5ff295577ef837911e46c938f39f3105f5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 17/36] fix: decoding a JSON object key without a value read
 beyond the tokens

---
 src/c/data-json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index f550cc6..814d9f7 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -303,9 +303,10 @@ static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char
   (*tokens)++;
   while  (elements--)
   {
+    bool hasval = (*tokens)->size > 0;
     iot_data_t * key = iot_data_string_from_json (tokens, json, cache);
     if (ordered) iot_data_vector_add (ordering, i++, iot_data_add_ref (key));
-    iot_data_map_add (map, key, iot_data_value_from_json (tokens, json, ordered, cache));
+    iot_data_map_add (map, key, hasval ? iot_data_value_from_json (tokens, json, ordered, cache) : iot_data_alloc_null ());
   }
   if (ordered) iot_data_set_metadata (map, ordering,IOT_DATA_STATIC (&iot_data_order));
   return map;
-- 
2.43.0


From bd786c2b478ccc98e3120e9d64d10fd04a188650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 18/36] fix: decoding a JSON primitive that is not a value
 stored a NULL element

---
 src/c/data-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 814d9f7..4038446 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -290,7 +290,7 @@ static iot_data_t * iot_data_primitive_from_json (iot_json_tok_t ** tokens, cons
     }
   }
   free (str);
-  return ret;
+  return ret ? ret : iot_data_alloc_null ();
 }
 
 static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache)
-- 
2.43.0


From 4747dffa13b62c4bc78edbcc3c9da140730710de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 19/36] fix: encoding a vector with an unset element as JSON
 dereferenced NULL

---
 src/c/data-json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 4038446..f462479 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -146,7 +146,8 @@ static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t *
       iot_data_strcat (holder, "[");
       while (iot_data_vector_iter_next (&iter))
       {
-        iot_data_dump_json (holder, iot_data_vector_iter_value (&iter));
+        const iot_data_t * value = iot_data_vector_iter_value (&iter);
+        if (value) iot_data_dump_json (holder, value); else iot_data_strcat (holder, "null");
         if (iot_data_vector_iter_has_next (&iter)) iot_data_strcat (holder, ",");
       }
       iot_data_strcat (holder, "]");
-- 
2.43.0


From 6966f455873d92a224f6fc76f5caf6910660ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 20/36] fix: negative infinity lost its sign in JSON

---
 src/c/data-json.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index f462479..b725ec8 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -65,9 +65,9 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
     case IOT_DATA_INT64: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRId64, *(const int64_t *) ptr); break;
     case IOT_DATA_UINT64: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRIu64, *(const uint64_t *) ptr); break;
     case IOT_DATA_FLOAT32:
-      (fpclassify (*(const float*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "1e400") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.8e", *(const float*) ptr); break;
+      (fpclassify (*(const float*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, signbit (*(const float*) ptr) ? "-1e400" : "1e400") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.8e", *(const float*) ptr); break;
     case IOT_DATA_FLOAT64:
-      (fpclassify (*(const double*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "1e800") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.16e", *(const double*) ptr); break;
+      (fpclassify (*(const double*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, signbit (*(const double*) ptr) ? "-1e800" : "1e800") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.16e", *(const double*) ptr); break;
     case IOT_DATA_NULL: strncpy (buff, "null", IOT_VAL_BUFF_SIZE); break;
     default: strncpy (buff, (*(const bool*) ptr) ? "true" : "false", IOT_VAL_BUFF_SIZE); break;
   }
-- 
2.43.0


From 6187c7741054a164c75d320a86c4c10bfbb447cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 21/36] fix: JSON tokenizer accepted a closing bracket that had
 no opening bracket

---
 src/c/json.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/c/json.c b/src/c/json.c
index 18ded8c..58207e1 100644
--- a/src/c/json.c
+++ b/src/c/json.c
@@ -230,11 +230,7 @@ int iot_json_parse (iot_json_parser *parser, const char * json, size_t len, iot_
           }
           if (token->parent == -1)
           {
-            if (token->type != type || parser->toksuper == -1)
-            {
-              return IOT_JSON_ERROR_INVAL;
-            }
-            break;
+            return IOT_JSON_ERROR_INVAL; /* No bracket is open */
           }
           token = &tokens[token->parent];
         }
-- 
2.43.0


From 2e435ffc6c46b652eea8e7887c3a0158c739bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 22/36] fix: CBOR floats with a small bit pattern, such as
 zero, were encoded as simple values or shorter floats

---
 src/c/data-cbor.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index 609f549..53ce3f5 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -73,6 +73,24 @@ static void iot_data_cbor_write_uint (iot_cbor_holder_t * holder, uint64_t value
   }
 }
 
+static void iot_data_cbor_write_f32 (iot_cbor_holder_t * holder, const void * ptr)
+{
+  uint32_t value;
+  memcpy (&value, ptr, sizeof (value));
+  value = htobe32 (value);
+  iot_data_cbor_write_bytes (holder, "\xfa", 1u);
+  iot_data_cbor_write_bytes (holder, &value, sizeof (value));
+}
+
+static void iot_data_cbor_write_f64 (iot_cbor_holder_t * holder, const void * ptr)
+{
+  uint64_t value;
+  memcpy (&value, ptr, sizeof (value));
+  value = htobe64 (value);
+  iot_data_cbor_write_bytes (holder, "\xfb", 1u);
+  iot_data_cbor_write_bytes (holder, &value, sizeof (value));
+}
+
 static void iot_data_cbor_write_int (iot_cbor_holder_t * holder, int64_t value)
 {
   iot_data_cbor_write_uint (holder, value < 0 ? -value : value, value < 0 ? 0x20 : 0);
@@ -90,8 +108,8 @@ static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr
     case IOT_DATA_UINT32: iot_data_cbor_write_uint (holder, *(const uint32_t *) ptr, 0); break;
     case IOT_DATA_INT64: iot_data_cbor_write_int (holder, *(const int64_t *) ptr); break;
     case IOT_DATA_UINT64: iot_data_cbor_write_uint (holder, *(const uint64_t *) ptr, 0); break;
-    case IOT_DATA_FLOAT32: iot_data_cbor_write_uint (holder, *(const uint32_t *) ptr, 0xe0); break;
-    case IOT_DATA_FLOAT64: iot_data_cbor_write_uint (holder, *(const uint64_t *) ptr, 0xe0); break;
+    case IOT_DATA_FLOAT32: iot_data_cbor_write_f32 (holder, ptr); break;
+    case IOT_DATA_FLOAT64: iot_data_cbor_write_f64 (holder, ptr); break;
     case IOT_DATA_NULL:
       iot_cbor_holder_check_size (holder, 1); holder->data[holder->index++] = 0xf6; break;
     default:
@@ -129,18 +147,14 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       break;
     case IOT_DATA_FLOAT32:
     {
-      uint32_t v;
       float f = iot_data_f32 (data);
-      memcpy (&v, &f, sizeof (v));
-      iot_data_cbor_write_uint (holder, v, 0xe0);
+      iot_data_cbor_write_f32 (holder, &f);
       break;
     }
     case IOT_DATA_FLOAT64:
     {
-      uint64_t v;
       double d = iot_data_f64 (data);
-      memcpy (&v, &d, sizeof (v));
-      iot_data_cbor_write_uint (holder, v, 0xe0);
+      iot_data_cbor_write_f64 (holder, &d);
       break;
     }
     case IOT_DATA_BOOL:
-- 
2.43.0


From b6f81e76eefe45b75d9dda069cde597fdf22c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 23/36] fix: encoding a vector with an unset element as CBOR
 dereferenced NULL

---
 src/c/data-cbor.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index 53ce3f5..8d4a6c0 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -198,7 +198,8 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       iot_data_vector_iter (data, &iter);
       while (iot_data_vector_iter_next (&iter))
       {
-        iot_data_dump_cbor (holder, iot_data_vector_iter_value (&iter));
+        const iot_data_t * value = iot_data_vector_iter_value (&iter);
+        iot_data_dump_cbor (holder, value ? value : iot_data_alloc_null ());
       }
       break;
     }
-- 
2.43.0


From 15ea90253628bf21611b52a1939ed19f826b0e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 24/36] fix: only one of several threads in iot_threadpool_wait
 was woken

---
 src/c/threadpool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/threadpool.c b/src/c/threadpool.c
index 42b590e..d4de189 100644
--- a/src/c/threadpool.c
+++ b/src/c/threadpool.c
@@ -116,7 +116,7 @@ static void * iot_threadpool_thread (void * arg)
       {
         pool->front = NULL;
         pool->rear = NULL;
-        pthread_cond_signal (&pool->work_cond); // Signal no jobs in queue
+        pthread_cond_broadcast (&pool->work_cond); // Signal no jobs in queue
       }
       if ((pool->jobs + 1) == pool->max_jobs)
       {
@@ -136,7 +136,7 @@ static void * iot_threadpool_thread (void * arg)
       iot_component_lock (comp);
       if (--pool->working == 0)
       {
-        pthread_cond_signal (&pool->work_cond); // Signal when no threads working
+        pthread_cond_broadcast (&pool->work_cond); // Signal when no threads working
       }
     }
     else
-- 
2.43.0


From 4f5b1814f0ce5146da268cbbd2b583fba32f9c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 25/36] fix: waking the scheduler thread could wake a thread
 waiting for a component state instead

---
 src/c/scheduler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 892e838..9914a2b 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -335,7 +335,7 @@ bool iot_schedule_add (iot_scheduler_t * scheduler, iot_schedule_t * schedule)
     /* If the schedule was placed and the front of the queue and the scheduler is running */
     if (front && (scheduler->component.state == IOT_COMPONENT_RUNNING))
     {
-      pthread_cond_signal (&scheduler->component.cond);
+      pthread_cond_broadcast (&scheduler->component.cond);
     }
   }
   iot_component_unlock (&scheduler->component);
@@ -371,7 +371,7 @@ void iot_schedule_reset (iot_scheduler_t * scheduler, iot_schedule_t * schedule,
     bool front = iot_schedule_queue_update (scheduler, schedule, next);
     if (front && (scheduler->component.state == IOT_COMPONENT_RUNNING))
     {
-      pthread_cond_signal (&scheduler->component.cond);
+      pthread_cond_broadcast (&scheduler->component.cond);
     }
   }
   else
-- 
2.43.0


From eb5c3db24f08f51f7abbc8437ac537c6ce246306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 26/36] fix: a schedule removed in its run callback was queued
 again when its thread could not be created

---
 src/c/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 9914a2b..c52a09c 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -219,7 +219,7 @@ static void * iot_scheduler_thread (void * arg)
           iot_log_trace (scheduler->logger, "Running schedule #%" PRIu64 " as thread", current->id);
           if (!iot_thread_create (NULL, schedule_fn, current, current->priority, IOT_THREAD_NO_AFFINITY, scheduler->logger))
           {
-            valid_current = atomic_load (&current->refs) > 1u;
+            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);
             iot_schedule_free (current);
           }
         }
-- 
2.43.0


From b97efcc79578da4c84894e59f9090ec7effe94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 27/36] fix: stopping a stopped logger lost its saved level

---
 src/c/logger.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 5ff1ef0..9eb18b4 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -145,9 +145,11 @@ void iot_logger_stop (iot_logger_t * logger)
 {
   assert (logger);
   iot_logger_impl_t * impl = (iot_logger_impl_t*) logger;
-  iot_component_set_stopped (&logger->component);
-  impl->save = logger->level;
-  logger->level = IOT_LOG_NONE;
+  if (iot_component_set_stopped (&logger->component))
+  {
+    impl->save = logger->level;
+    logger->level = IOT_LOG_NONE;
+  }
 }
 
 static inline size_t iot_logger_format_log (iot_logger_impl_t * logger, iot_loglevel_t level, uint64_t timestamp, const char * message)
-- 
2.43.0


From d1d6d4dafff306775cd6c2d418b237beaea3e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 28/36] fix: setting the next logger again to the same one used
 it after release

---
 src/c/logger.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 9eb18b4..ed7ea1a 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -278,8 +278,8 @@ const char * iot_logger_level_to_string (iot_loglevel_t level)
 void iot_logger_set_next (iot_logger_t * logger, iot_logger_t * next)
 {
   iot_logger_impl_t * logimpl = (iot_logger_impl_t*) logger;
-  iot_logger_free ((iot_logger_t*) logimpl->next);
   iot_logger_add_ref (next);
+  iot_logger_free ((iot_logger_t*) logimpl->next);
   logimpl->next = (iot_logger_impl_t*) next;
 }
 
-- 
2.43.0


From aab7c5f5e7d35e72af17ab6794c9ef62b29848d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 29/36] fix: a truncated message was sent over UDP with its
 untruncated length

---
 src/c/logger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index ed7ea1a..367f2b8 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -158,7 +158,8 @@ static inline size_t iot_logger_format_log (iot_logger_impl_t * logger, iot_logl
 #ifdef IOT_HAS_PRCTL
   prctl (PR_GET_NAME, tname);
 #endif
-  return (size_t) snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  int len = snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  return (len < (int) sizeof (logger->buff)) ? (size_t) len : sizeof (logger->buff) - 1u;
 }
 
 static inline void iot_logger_log_to_fd (iot_logger_impl_t * logger, FILE * fd, iot_loglevel_t level, uint64_t timestamp, const char *message)
-- 
2.43.0


From 6e4bf415522dc560ee0b18a9d51f2a333d0ca4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 30/36] fix: a long UDP host name overflowed its buffer in the
 logger configuration

---
 src/c/logger.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 367f2b8..eb37e48 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -317,7 +317,7 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
       const char * sep = strchr (to, ':');
       if (sep)
       {
-        strncpy (target, to, (size_t) (sep - to));
+        strncpy (target, to, ((size_t) (sep - to) < sizeof (target)) ? (size_t) (sep - to) : sizeof (target) - 1u);
         host = target;
         to = sep + 1;
       }
-- 
2.43.0


From d1f6c241c8ef4e2ad3fc1092b29e69df421c48df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 31/36] fix: the scheduler missed schedules added while it was
 stopped or about to wait

---
 src/c/scheduler.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index c52a09c..97e4054 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -154,15 +154,17 @@ static void * schedule_fn (void * data)
 static void * iot_scheduler_thread (void * arg)
 {
   iot_component_state_t state;
-  uint64_t next = iot_time_nsecs ();
+  uint64_t next;
   iot_scheduler_t * scheduler = (iot_scheduler_t*) arg;
   iot_data_t * queue = scheduler->queue;
 
-  nsToTimespec (next, &scheduler->schd_time);
   while (true)
   {
     state = iot_component_wait_and_lock (&scheduler->component, (uint32_t) IOT_COMPONENT_DELETED | (uint32_t) IOT_COMPONENT_RUNNING); // State wait
     if (state == IOT_COMPONENT_DELETED) break; // Exit thread on deletion
+    iot_schedule_t * current = iot_schedule_queue_next (queue);
+    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
+    nsToTimespec (next, &scheduler->schd_time); /* Calculate next execution time, the queue may have changed while unlocked */
     pthread_cond_timedwait (&scheduler->component.cond, &scheduler->component.mutex, &scheduler->schd_time); // Schedule wait
     state = scheduler->component.state;
     if (state != IOT_COMPONENT_RUNNING)
@@ -174,7 +176,7 @@ static void * iot_scheduler_thread (void * arg)
     }
 
     /* Get the schedule at the front of the queue */
-    iot_schedule_t * current = iot_schedule_queue_next (queue);
+    current = iot_schedule_queue_next (queue);
     if (current && current->start < iot_time_nsecs ()) // If a schedule and ready to run
     {
       bool valid_current = atomic_load (&current->scheduled);
@@ -250,10 +252,7 @@ static void * iot_scheduler_thread (void * arg)
       {
         iot_log_trace (scheduler->logger, "Current schedule deleted");
       }
-      current = iot_schedule_queue_next (queue);
     }
-    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
-    nsToTimespec (next, &scheduler->schd_time); /* Calculate next execution time */
     iot_component_unlock (&scheduler->component);
   }
   iot_component_unlock (&scheduler->component);
-- 
2.43.0


From 3a0a4ce753c4922c14e17f605dd0991e65cd74eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 32/36] fix: starting a running logger no longer restores a
 stale level

---
 src/c/logger.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index eb37e48..d1060ea 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -137,8 +137,7 @@ void iot_logger_start (iot_logger_t * logger)
 {
   assert (logger);
   const iot_logger_impl_t * impl = (const iot_logger_impl_t*) logger;
-  iot_component_set_running (&logger->component);
-  logger->level = impl->save;
+  if (iot_component_set_running (&logger->component)) logger->level = impl->save;
 }
 
 void iot_logger_stop (iot_logger_t * logger)
-- 
2.43.0


From 3654726c938a0ba45f767b5b3888fc741d28123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 33/36] fix: file reads of directories or shrinking files fail
 cleanly, failed closes and renames are reported

---
 src/c/file.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index b1c4445..71b05c4 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -87,16 +87,22 @@ uint8_t * iot_file_read_binary (const char * path, size_t * len)
   FILE * fd = fopen (path, "r");
   if (fd)
   {
-    fseek (fd, 0, SEEK_END);
-    size = ftell (fd);
-    if (size) // Return NULL if file empty
+    long end = (fseek (fd, 0, SEEK_END) == 0) ? ftell (fd) : 0;
+    if (end > 0 && end < LONG_MAX) // Return NULL if file empty or not a regular file
     {
+      size = (size_t) end;
       rewind (fd);
       ret = malloc (size + 1); // Allocate extra byte so can be NULL terminated if a string
-      size_t items = fread (ret, size, 1u, fd);
-      assert (items == 1);
-      (void) items;
-      ret[size] = 0; // String NULL terminator
+      if (fread (ret, size, 1u, fd) == 1u)
+      {
+        ret[size] = 0; // String NULL terminator
+      }
+      else
+      {
+        free (ret);
+        ret = NULL;
+        size = 0;
+      }
     }
     fclose (fd);
   }
@@ -116,8 +122,9 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
   if (fd)
   {
     ok = (fwrite (binary, len, 1u, fd) == 1u);
-    fclose (fd);
-    if (ok) rename (tmp_path, path);
+    if (fclose (fd) != 0) ok = false;
+    if (ok) ok = (rename (tmp_path, path) == 0);
+    if (! ok) remove (tmp_path);
   }
   return ok;
 }
-- 
2.43.0


From 5e518751110d66bd4a0829a031bbe045150fd0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 34/36] fix: listing stored configurations: missing directory,
 names merely ending in json, bad pattern

---
 src/c/file.c  | 6 +++++-
 src/c/store.c | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index 71b05c4..89888dd 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -147,7 +147,11 @@ iot_data_t * iot_file_list (const char * directory, const char * regex_str)
   DIR *d = opendir (directory);
   if (!d) goto DONE;
   regex_t regex;
-  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0) goto DONE;
+  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0)
+  {
+    closedir (d);
+    goto DONE;
+  }
   list = iot_data_alloc_list ();
   const struct dirent *dir;
   while ((dir = readdir (d)))
diff --git a/src/c/store.c b/src/c/store.c
index 87cf2ac..c5e800c 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -96,14 +96,16 @@ bool iot_store_config_delete (const char * name, const char * uri)
 iot_data_t * iot_store_config_list (const char * directory)
 {
 #ifndef _AZURESPHERE_
-  static const char extension_regex[] = ".json$";
+  static const char extension_regex[] = "[.]json$";
+  static const char extension[] = ".json";
   iot_data_t * file_list = iot_file_list (directory, extension_regex);
+  if (file_list == NULL) return NULL;
   iot_data_list_iter_t list_iter;
   iot_data_list_iter (file_list, &list_iter);
   while (iot_data_list_iter_next (&list_iter))
   {
     const char *full_name = iot_data_list_iter_string_value (&list_iter);
-    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 2));
+    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension) - 1));
     iot_data_t *old_iot = iot_data_list_iter_replace (&list_iter, iot_data_alloc_string (new_name, IOT_DATA_TAKE));
     iot_data_free (old_iot);
   }
-- 
2.43.0


From 9a89720e22e74b0aab80cad0777c6a0d1b3c5803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:51 +0000
Subject: [PATCH 35/36] fix: container loads a component of a reference cycle
 only once

A component created by iot_container_init or iot_container_add_component was
not on the load in progress chain, so a cycle back to it created it again.
---
 src/c/container.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c/container.c b/src/c/container.c
index 188c38e..a364e2f 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -81,7 +81,10 @@ static void iot_component_create (iot_container_t * cont, const char *cname, con
   iot_data_t * map = iot_component_config_to_map (config, cont->logger);
 
   if (map == NULL) goto ERROR;
+  iot_load_in_progress_t this = { cname, iot_load_in_progress };
+  iot_load_in_progress = &this;
   comp = (factory->config_fn) (cont, map);
+  iot_load_in_progress = this.next;
   if (comp == NULL)
   {
     iot_data_free (map);
@@ -193,7 +196,6 @@ static bool iot_container_load_locked (iot_container_t * cont, const char * cnam
 
   if (! result)
   {
-    iot_load_in_progress_t this = {cname, iot_load_in_progress};
     iot_load_in_progress_t *loading = iot_load_in_progress;
     assert (iot_config && cont);
 
@@ -205,7 +207,6 @@ static bool iot_container_load_locked (iot_container_t * cont, const char * cnam
     }
     if (!loading)
     {
-      iot_load_in_progress = &this;
       char * config = (iot_config->load) (cont->name, iot_config->uri);
       iot_data_t * map = iot_component_config_to_map (config, cont->logger);
       free (config);
@@ -216,7 +217,6 @@ static bool iot_container_load_locked (iot_container_t * cont, const char * cnam
         if (ctype) result = iot_container_typed_load (cont, cname, ctype);
       }
       iot_data_free (map);
-      iot_load_in_progress = this.next;
     }
     else
     {
-- 
2.43.0


From d93bf12e225e8f922aa144394f13de83479c8f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:51 +0000
Subject: [PATCH 36/36] fix: a component type that is not a string in the
 container configuration faulted

---
 src/c/container.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/c/container.c b/src/c/container.c
index a364e2f..b64bcb8 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -269,7 +269,8 @@ bool iot_container_init (iot_container_t * cont)
     while (iot_data_map_iter_next (&iter))
     {
       cname = iot_data_map_iter_string_key (&iter);
-      ctype = iot_data_map_iter_string_value (&iter);
+      ctype = iot_data_string_map_get_string (map, cname);
+      if (ctype == NULL) continue;
       config = (iot_config->load) (cname, iot_config->uri);
 
       if ((iot_component_factory_find (ctype) == NULL) && config)
@@ -283,8 +284,15 @@ bool iot_container_init (iot_container_t * cont)
     while (iot_data_map_iter_next (&iter))
     {
       cname = iot_data_map_iter_string_key (&iter);
-      ctype = iot_data_map_iter_string_value (&iter);
-      iot_container_typed_load (cont, cname, ctype);
+      ctype = iot_data_string_map_get_string (map, cname);
+      if (ctype)
+      {
+        iot_container_typed_load (cont, cname, ctype);
+      }
+      else
+      {
+        iot_log_error (cont->logger, "Invalid configuration, type of component %s is not a string", cname);
+      }
     }
     iot_data_free (map);
   }
-- 
2.43.0

