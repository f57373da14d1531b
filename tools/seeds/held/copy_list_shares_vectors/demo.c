#include "iot/data.h"
#include "iot/base64.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define CHECK(c) do { if (!(c)) { printf ("FAILED %s\n", #c); return 1; } } while (0)
int main (void) {
 iot_data_t * l = iot_data_alloc_list (), * v = iot_data_alloc_vector (1);
 iot_data_vector_add (v, 0, iot_data_alloc_ui32 (1)); iot_data_list_tail_push (l, v);
 iot_data_t * c = iot_data_copy (l);
 iot_data_vector_add (v, 0, iot_data_alloc_ui32 (2));
 CHECK (iot_data_ui32 (iot_data_vector_get (iot_data_list_head_pop (c), 0)) == 1);
 iot_data_free (l); iot_data_free (c); return 0; }
