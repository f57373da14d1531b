/* U01: UUIDs. The generator state is anything while the lock is free; random bytes come in any pieces or not at all for a while. */
#include "vf.h"
static int vf_lock (void); static int vf_unlock (void); static ssize_t vf_getrandom (void * p, size_t n);
#define pthread_mutex_lock(m) vf_lock ()
#define pthread_mutex_unlock(m) vf_unlock ()
#define getrandom(p, n, f) vf_getrandom (p, n)
#include "src/c/uuid.c"
#undef isxdigit
#define isxdigit(c) vf_isxdigit (c)
static int vf_isxdigit (int c);
#undef strlen
#define strlen(s) vf_strlen (s)
static size_t vf_strlen (const char * s);
#include "src/c/util.c"
#undef strlen
static int vf_isxdigit (int c)
{
  VF_ASSERT (c >= -128 && c <= 255, "a character");   /* glibc's table reaches from -128 */
  return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
}
static const char * txt; static size_t txt_len;
static size_t vf_strlen (const char * s) { VF_ASSERT (s == txt, "of the text"); return txt_len; }
static int held, tries; static bool seeded, filled; static uint64_t s0, s1, e0, e1;
static bool fixed_state; static uint64_t f0, f1;
static int vf_lock (void)
{
  VF_ASSERT (!held, "no double lock"); held = 1;
  s0 = fixed_state ? f0 : vf_u64 (); s1 = fixed_state ? f1 : vf_u64 ();
  uuid_seed[0] = s0; uuid_seed[1] = s1; uuid_initialized = seeded;
  if (seeded) filled = true;
  return 0;
}
static int vf_unlock (void)
{
  VF_ASSERT (held, "only a held lock is released"); held = 0;
  VF_ASSERT (uuid_initialized && filled, "nothing is generated before the generator is seeded");
  e0 = uuid_seed[0]; e1 = uuid_seed[1];
  VF_ASSERT ((s0 | s1) == 0 || e0 != s0 || e1 != s1, "the generator has moved on");
  VF_ASSERT ((s0 | s1) == 0 || (e0 | e1) != 0, "and never gets stuck");
  uuid_seed[0] = vf_u64 (); uuid_seed[1] = vf_u64 ();   /* others use it */
  s0 = uuid_seed[0]; s1 = uuid_seed[1];
  return 0;
}
static ssize_t vf_getrandom (void * p, size_t n)
{
  VF_ASSERT (held && !seeded && !filled, "seeded once, under the lock");
  VF_ASSERT (p == (void*) uuid_seed && n == sizeof (uuid_seed), "all of the state is seeded");
  uint32_t op = vf_below (3);
  if (op == 0) { filled = true; uuid_seed[0] = s0 = fixed_state ? f0 : vf_u64 (); uuid_seed[1] = s1 = fixed_state ? f1 : vf_u64 (); return (ssize_t) n; }
  if (++tries == 3) VF_STOP ();
  if (op == 1) { errno = EINTR; return -1; }
  size_t k = vf_below ((uint32_t) n); uuid_seed[0] = vf_u64 ();
  return (ssize_t) k;
}
void iot_wait_usecs (uint64_t t) { VF_ASSERT (t > 0, "waits before it asks again"); }
/*@ OBL U01.generate class=proved unwind=18 fns=iot_uuid_generate,uuid_init,xorshift128plus timeout=300
*/
void h_generate (void)
{
  iot_uuid_t u; seeded = vf_bool ();
  iot_uuid_generate (u);
  VF_ASSERT (!held, "no lock is kept");
  VF_ASSERT ((u[6] & 0xf0) == 0x40, "version 4");
  VF_ASSERT ((u[8] & 0xc0) == 0x80, "the random variant");
  VF_ASSERT (uuid_seed[0] == s0 && uuid_seed[1] == s1, "the generator is left alone outside the lock");
  VF_REACH ("end");
}
/*@ OBL U01.bits class=proved unwind=18 fns=iot_uuid_generate timeout=300
*/
void h_bits (void)
{
  /* the identifier depends on the state taken under the lock alone, and every other bit of it takes both values */
  iot_uuid_t a, b; seeded = true; fixed_state = true; f0 = vf_u64 (); f1 = vf_u64 ();
  iot_uuid_generate (a);
  iot_uuid_generate (b);
  VF_ASSERT (memcmp (a, b, 16) == 0, "decided by the state held under the lock");
#ifndef VF_NATIVE
  for (int i = 0; i < 16; i++)
  {
    uint8_t fix = i == 6 ? 0xf0 : i == 8 ? 0xc0 : 0;
    if ((a[i] & ~fix) == 0) { VF_REACH ("zero bits"); }
    if ((uint8_t) (a[i] | fix) == 0xff) { VF_REACH ("one bits"); }
  }
#endif
  VF_REACH ("end");
}
static char digit (unsigned v) { return (char) (v < 10 ? '0' + v : 'a' + (v - 10)); }
/*@ OBL U01.unparse class=proved unwind=40 fns=iot_uuid_unparse,iot_util_string_is_uuid timeout=200
*/
void h_unparse (void)
{
  iot_uuid_t u; char * out = malloc (37);
  for (int i = 0; i < 16; i++) u[i] = (uint8_t) vf_u64 ();
  iot_uuid_unparse (u, out);
  int k = 0;
  for (int i = 0; i < 16; i++)
  {
    if (i == 4 || i == 6 || i == 8 || i == 10) { VF_ASSERT (out[k] == '-', "groups are set apart"); k++; }
    VF_ASSERT (out[k] == digit (u[i] >> 4) && out[k + 1] == digit (u[i] & 15), "each byte in two lower case digits"); k += 2;
  }
  VF_ASSERT (k == 36 && out[36] == 0, "terminated");
  txt = out; txt_len = 36;
  VF_ASSERT (iot_util_string_is_uuid (out), "and accepted");
  free (out);
  VF_REACH ("end");
}
/*@ OBL U01.accept class=proved unwind=50 fns=iot_util_string_is_uuid timeout=200
*/
void h_accept (void)
{
  size_t len = (size_t) vf_u64 (); VF_ASSUME (len < (1ull << 40));
  size_t keep = len < 40 ? len : 40;   /* of a longer text nothing more can matter, and is not there to read */
  char * s = malloc (keep + 1);
  bool ok = len == 36;
  for (size_t i = 0; i < 41; i++)
  {
    if (i >= keep + 1) break;
    s[i] = (char) vf_u64 ();
    if (i < len) { VF_ASSUME (s[i] != 0); } else s[i] = 0;
    if (i < 36)
    {
      char c = s[i];
      if (i == 8 || i == 13 || i == 18 || i == 23) ok = ok && c == '-';
      else ok = ok && ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'));
    }
  }
  txt = s; txt_len = len;
  VF_ASSERT (iot_util_string_is_uuid (s) == ok, "accepted exactly in the canonical shape");
  VF_ASSERT (!iot_util_string_is_uuid (NULL), "nothing is no uuid");
  free (s);
  VF_REACH ("end");
}
