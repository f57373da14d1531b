#include "iot/data.h"
#include "iot/base64.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define CHECK(c) do { if (!(c)) { printf ("FAILED %s\n", #c); return 1; } } while (0)
int main (void) {
 for (size_t n = 0; n < 100; n++) { char b [128]; memset (b, 'a', n); b[n] = 0;
  iot_data_t * d = iot_data_alloc_string (b, IOT_DATA_COPY); CHECK (!strcmp (iot_data_string (d), b)); iot_data_free (d); }
 return 0; }
