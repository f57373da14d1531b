#include "iot/iot.h"
#include "iot/queue.h"
#include "iot/json.h"
#include "iot/config.h"
#include "iot/file.h"
#include "iot/time.h"
#include "iot/thread.h"
#include "iot/threadpool.h"
#include "iot/scheduler.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <pthread.h>
#include <unistd.h>
#define CHECK(c) do { if (!(c)) { printf ("FAILED %s\n", #c); return 1; } } while (0)
static volatile int ran; static void * fn (void * a) { ran++; return NULL; }
int main (void) {
 iot_scheduler_t * s = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL);
 iot_scheduler_start (s);
 iot_schedule_t * a = iot_schedule_create (s, fn, NULL, NULL, IOT_MS_TO_NS (100), IOT_SEC_TO_NS (30), 1, NULL, IOT_THREAD_NO_PRIORITY);
 iot_schedule_add (s, a); iot_wait_msecs (500);
 CHECK (!ran);
 iot_schedule_reset (s, a, 0);
 for (int i = 0; i < 100 && !ran; i++) iot_wait_msecs (50);
 CHECK (ran == 1); return 0; }
