#include "iot/data.h"
#include "iot/base64.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define CHECK(c) do { if (!(c)) { printf ("FAILED %s\n", #c); return 1; } } while (0)
static bool is2 (const iot_data_t * d, const void * a) { return iot_data_ui32 (d) == 2; }
int main (void) {
 iot_data_t * a = iot_data_alloc_list (), * b = iot_data_alloc_list ();
 for (uint32_t i = 1; i < 4; i++) iot_data_list_tail_push (a, iot_data_alloc_ui32 (i));
 iot_data_hash (a);
 CHECK (iot_data_list_remove (a, is2, NULL));
 iot_data_list_tail_push (b, iot_data_alloc_ui32 (1)); iot_data_list_tail_push (b, iot_data_alloc_ui32 (3));
 CHECK (iot_data_hash (a) == iot_data_hash (b));
 CHECK (iot_data_equal (a, b));
 iot_data_free (a); iot_data_free (b); return 0; }
