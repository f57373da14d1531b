#include "iot/data.h"
#include "iot/base64.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define CHECK(c) do { if (!(c)) { printf ("FAILED %s\n", #c); return 1; } } while (0)
int main (void) {
 iot_data_t * v = iot_data_alloc_vector (4);
 iot_data_vector_add (v, 0, iot_data_alloc_ui32 (7)); iot_data_vector_add (v, 3, iot_data_alloc_ui32 (9));
 CHECK (iot_data_vector_compact (v) == 2);
 CHECK (iot_data_vector_size (v) == 2);
 CHECK (iot_data_ui32 (iot_data_vector_get (v, 1)) == 9);
 return 0; }
