/* H01: iot_hash / iot_hash_data */
#include "vf.h"

#ifndef VF_NATIVE
const char * g_str; const uint8_t * g_data; size_t g_len, g_i, g_k; uint32_t g_h;
#endif
/* the specification: xor variant of the Bernstein hash, one step */
static inline uint32_t spec_step (uint32_t h, uint8_t b) { return ((h << 5) + h) ^ b; }  /* h * 33 ^ b, see H01.step */

#include "src/c/hash.c"


/*@ LOOP hash_str src=src/c/hash.c fn=iot_hash loop=1
  __CPROVER_assigns (hash, str, g_i, g_h)
  __CPROVER_loop_invariant (g_i <= g_len && str == g_str + g_i && hash == g_h)
  __CPROVER_loop_invariant (g_k < g_i ==> g_str[g_k] != 0)
  __CPROVER_decreases (g_len - g_i)
@body
  g_h = spec_step (g_h, (uint8_t) g_str[g_i]); g_i++;
@*/
/*@ LOOP hash_data src=src/c/hash.c fn=iot_hash_data loop=1
  __CPROVER_assigns (hash, data, len, g_i, g_h)
  __CPROVER_loop_invariant (g_i <= g_len && len == g_len - g_i && data == g_data + g_i && hash == g_h)
  __CPROVER_decreases (len)
@body
  g_h = spec_step (g_h, g_data[g_i]); g_i++;
@*/

/*@ OBL H01.bounded_str class=bounded unwind=14 fns=iot_hash bound="strings of up to 6 bytes"
*/
/*@ OBL H01.bounded_str_long class=bounded unwind=42 tier=thorough defs="-DLEN=8" timeout=600 fns=iot_hash bound="strings of up to 8 bytes"
*/
#ifndef LEN
#define LEN 6
#endif
void h_hash_str (void)
{
  for (size_t len = 0; len <= LEN; len++)
  {
    char buff [LEN + 1];
    char * s = malloc (len + 1);
    uint32_t h = 538u;
    for (size_t i = 0; i < len; i++)
    {
      buff[i] = vf_char ();
      VF_ASSUME (buff[i] != 0);
      s[i] = buff[i];
      h = spec_step (h, (uint8_t) buff[i]);
    }
    s[len] = 0;
    VF_ASSERT (iot_hash (s) == h, "string hash is the xor Bernstein hash of its bytes");
    VF_ASSERT (iot_hash_data ((const uint8_t*) s, len) == h, "string hash equals the hash of its bytes");
    for (size_t i = 0; i < len; i++) VF_ASSERT (s[i] == buff[i], "hashing leaves the text alone");
    VF_ASSERT (s[len] == 0, "hashing leaves the terminator alone");
    free (s);
  }
  VF_REACH ("end");
}

/*@ OBL H01.bounded_data class=bounded unwind=14 fns=iot_hash_data bound="buffers of up to 6 bytes"
*/
void h_hash_data (void)
{
  for (size_t len = 0; len <= LEN; len++)
  {
    uint8_t * p = malloc (len ? len : 1u);
    uint32_t h = 538u;
    for (size_t i = 0; i < len; i++) { p[i] = vf_u8 (); h = spec_step (h, p[i]); }
    VF_ASSERT (iot_hash_data (p, len) == h, "data hash is the xor Bernstein hash of the bytes");
    free (p);
  }
  VF_ASSERT (iot_hash_data (NULL, 0) == 538u, "hash of no bytes is the seed");
  VF_REACH ("end");
}

/*@ OBL H01.step class=proved unwind=3 fns=iot_hash,iot_hash_data
*/
void h_hash_step (void)
{
  uint32_t h = vf_u32 ();
  uint8_t b = vf_u8 ();
  VF_ASSERT (spec_step (h, b) == ((uint32_t) (h * 33u) ^ b), "one step multiplies by 33 and xors the byte");
  VF_ASSERT (iot_hash_data (&b, 1) == ((538u * 33u) ^ b), "hash of any one byte");
  VF_REACH ("end");
}

#ifndef VF_NATIVE
/* The ghost state folds spec_step over g_str[0..], g_i counting the bytes consumed. */
/*@ OBL H01.iot_hash class=contract unwind=2 inject=hash_str dfcc=1 fns=iot_hash
*/
void h_contract_hash (void)
{
  __CPROVER_assume (g_len < (1ull << 40));
  char * s = malloc (g_len + 1);
  __CPROVER_assume (s != NULL && s[g_len] == 0);
  g_str = s; g_i = 0; g_h = 538u;
  uint32_t h = iot_hash (s);
  VF_ASSERT (s[g_i] == 0 && (g_k < g_i ==> s[g_k] != 0), "exactly the bytes before the first terminator are hashed");
  VF_ASSERT (h == g_h, "string hash of any length is the fold of the step over its bytes");
  VF_REACH ("end");
}
/*@ OBL H01.iot_hash_data class=contract unwind=2 inject=hash_data dfcc=1 fns=iot_hash_data
*/
void h_contract_hash_data (void)
{
  __CPROVER_assume (g_len < (1ull << 40));
  uint8_t * s = malloc (g_len);
  __CPROVER_assume (s != NULL);
  g_data = s; g_i = 0; g_h = 538u;
  uint32_t h = iot_hash_data (s, g_len);
  VF_ASSERT (g_i == g_len, "exactly len bytes are hashed");
  VF_ASSERT (h == g_h, "data hash of any length is the fold of the step over the bytes");
  VF_REACH ("end");
}
#endif
