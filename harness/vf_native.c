#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
extern void VF_ENTRY (void);
static uint64_t vals [200000];
static size_t count, next;
uint64_t vf_in (void) { return next < count ? vals[next++] : 0; }
void vf_fail (const char * msg, const char * file, int line)
{
  printf ("VF-FAIL: %s (%s:%d)\n", msg, file, line);
  fflush (stdout);
  _exit (66);
}
const char * __asan_default_options (void);
const char * __asan_default_options (void) { return "detect_leaks=0:exitcode=67:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=0"; }
const char * __ubsan_default_options (void);
const char * __ubsan_default_options (void) { return "print_stacktrace=0:halt_on_error=1:exitcode=67"; }
int main (int argc, char ** argv)
{
  FILE * f = fopen (argc > 1 ? argv[1] : "witness.txt", "r");
  char line [128];
  while (f && fgets (line, sizeof (line), f))
    if (line[0] != '#' && count < sizeof (vals) / sizeof (vals[0])) vals[count++] = strtoull (line, NULL, 0);
  if (f) fclose (f);
  alarm (20);
  VF_ENTRY ();
  printf ("VF-OK\n");
  return 0;
}
