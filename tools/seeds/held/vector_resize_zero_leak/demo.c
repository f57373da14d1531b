#include "iot/data.h"
#include "iot/base64.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define CHECK(c) do { if (!(c)) { printf ("FAILED %s\n", #c); return 1; } } while (0)
static int freed; static void fn (void * p) { freed++; }
int main (void) {
 iot_data_t * v = iot_data_alloc_vector (3);
 for (uint32_t i = 0; i < 3; i++) iot_data_vector_add (v, i, iot_data_alloc_pointer (&freed, fn));
 iot_data_vector_resize (v, 1); CHECK (freed == 2);
 iot_data_vector_resize (v, 0);
 iot_data_free (v);
 CHECK (freed == 3); return 0; }
