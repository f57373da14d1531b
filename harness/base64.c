/* B01: Base64 */
#include "vf.h"
#ifndef VF_NATIVE
size_t g_len, g_q, g_r, g_k, g_i; uint8_t g_a, g_b, g_c;                       /* encode */
const char * g_text; uint8_t * g_bin; size_t g_dq, g_e, g_tlen, g_cap; uint32_t g_s0, g_s1, g_s2, g_s3; /* decode */
#endif
static const char spec_alpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const uint8_t spec_tab [256] = {
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,  62, 255, 255, 255,  63,
   52,  53,  54,  55,  56,  57,  58,  59,  60,  61, 255, 255, 255, 255, 255, 255,
  255,   0,   1,   2,   3,   4,   5,   6,   7,   8,   9,  10,  11,  12,  13,  14,
   15,  16,  17,  18,  19,  20,  21,  22,  23,  24,  25, 255, 255, 255, 255, 255,
  255,  26,  27,  28,  29,  30,  31,  32,  33,  34,  35,  36,  37,  38,  39,  40,
   41,  42,  43,  44,  45,  46,  47,  48,  49,  50,  51, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255
};
#define SV(c) spec_tab[(uint8_t) (c)]
#define SC(v) spec_alpha[(uint8_t) (v) & 63]
/* value of an alphabet character, or 255 */
static inline uint8_t spec_val (char ch)
{
  uint8_t c = (uint8_t) ch;
  return (c >= 'A' && c <= 'Z') ? c - 'A' : (c >= 'a' && c <= 'z') ? c - 'a' + 26 : (c >= '0' && c <= '9') ? c - '0' + 52 : (c == '+') ? 62 : (c == '/') ? 63 : 255;
}
static inline char spec_chr (uint8_t v)
{
  return (v < 26) ? 'A' + v : (v < 52) ? 'a' + (v - 26) : (v < 62) ? '0' + (v - 52) : (v == 62) ? '+' : '/';
}

/* the expected byte number g_e of group g_k */
#define DEXP ((uint8_t) (g_e == 0 ? ((g_s0 << 2) | (g_s1 >> 4)) : g_e == 1 ? ((g_s1 << 4) | (g_s2 >> 2)) : ((g_s2 << 6) | g_s3)))
#include "src/c/base64.c"

/* reference codec used as the oracle of the bounded obligations (RFC 4648 section 4) */
static size_t spec_encode (const uint8_t * d, size_t n, char * out)
{
  size_t o = 0;
  for (size_t x = 0; x < n; x += 3)
  {
    uint8_t a = d[x], b = (x + 1 < n) ? d[x + 1] : 0, c = (x + 2 < n) ? d[x + 2] : 0;
    out[o++] = spec_chr (a >> 2);
    out[o++] = spec_chr ((uint8_t) (((a & 3) << 4) | (b >> 4)));
    out[o++] = (x + 1 < n) ? spec_chr ((uint8_t) (((b & 15) << 2) | (c >> 6))) : '=';
    out[o++] = (x + 2 < n) ? spec_chr (c & 63) : '=';
  }
  out[o] = 0;
  return o;
}

/*@ OBL B01.table class=proved unwind=3 fns=iot_b64_decode
*/
void h_table (void)
{
  /* every single character: alphabet, newline, padding, everything else */
  char c = vf_char ();
  VF_ASSUME (c != 0);
  uint8_t v = spec_val (c);
  uint8_t d = dec[(uint8_t) c];
  VF_ASSERT (SV (c) == v, "specification table");
  VF_ASSERT (v == 255 || d == v, "alphabet characters decode to their six bit value");
  VF_ASSERT (v != 255 || d >= 64, "no other character decodes to a value");
  char in[2] = { c, 0 };
  uint8_t out [4] = { 1, 2, 3, 4 };
  size_t olen = 4;
  bool ok = iot_b64_decode (in, out, &olen);
  VF_ASSERT (ok == (v != 255 || c == '=' || c == '\n'), "a character outside alphabet, padding and newline is rejected, any other accepted");
  VF_ASSERT (out[0] == 1 && out[1] == 2, "no byte is written for a single character");
  uint8_t k = vf_u8 ();
  VF_ASSUME (k < 64);
  VF_ASSERT (enc[k] == spec_chr (k) && enc[k] == spec_alpha[k] && spec_val (enc[k]) == k, "encoding table");
  VF_REACH ("end");
}

/*@ OBL B01.sizes class=proved unwind=3 fns=iot_b64_encodesize
*/
void h_sizes (void)
{
  size_t n = vf_u64 ();
  VF_ASSUME (n < (1ull << 62));
  VF_ASSERT (iot_b64_encodesize (n) == ((n + 2) / 3) * 4 + 1, "encode size is four characters per three bytes plus terminator");
  VF_REACH ("end");
}

/*@ OBL B01.roundtrip class=bounded unwind=40 cost=20 fns=iot_b64_encode,iot_b64_decode,iot_b64_encodesize,iot_b64_maxdecodesize bound="up to 8 bytes, up to 2 newlines anywhere"
*/
/*@ OBL B01.roundtrip_long class=bounded tier=thorough unwind=80 timeout=600 defs=-DB64N=16 fns=iot_b64_encode,iot_b64_decode bound="up to 16 bytes, up to 2 newlines anywhere"
*/
#ifndef B64N
#define B64N 8
#endif
void h_roundtrip (void)
{
  for (size_t n = 0; n <= B64N; n++)
  {
    uint8_t data [B64N + 1];
    uint8_t * d = malloc (n ? n : 1u);
    for (size_t i = 0; i < n; i++) { data[i] = vf_u8 (); d[i] = data[i]; }
    char ref [((B64N + 2) / 3) * 4 + 1];
    size_t rlen = spec_encode (data, n, ref);
    size_t esize = iot_b64_encodesize (n);
    VF_ASSERT (esize == rlen + 1, "advertised encode size");
    char * text = malloc (rlen + 1);
    VF_ASSERT (!iot_b64_encode (d, n, text, esize - 1), "encoding into an undersized buffer fails");
    VF_ASSERT (iot_b64_encode (d, n, text, esize), "encoding into the advertised size succeeds");
    for (size_t i = 0; i <= rlen; i++) VF_ASSERT (text[i] == ref[i], "encoded text is the standard padded Base64");
    for (size_t i = 0; i < n; i++) VF_ASSERT (d[i] == data[i], "encoding leaves the input alone");
    free (d);
    /* plain decode */
    size_t max = iot_b64_maxdecodesize (text);
    VF_ASSERT (max >= n, "advertised decode size is sufficient");
    uint8_t * out = malloc (n ? n : 1u);
    size_t olen = n;
    VF_ASSERT (iot_b64_decode (text, out, &olen), "decoding succeeds in a buffer of exactly the decoded size");
    VF_ASSERT (olen == n, "decoded length");
    for (size_t i = 0; i < n; i++) VF_ASSERT (out[i] == data[i], "decoded bytes");
    free (out);
    if (n)
    {
      out = malloc (n - 1 ? n - 1 : 1u);
      olen = n - 1;
      VF_ASSERT (!iot_b64_decode (text, out, &olen), "decoding into an undersized buffer fails");
      free (out);
    }
    free (text);
  }
  VF_REACH ("end");
}

/*@ OBL B01.decode_any class=bounded unwind=12 cost=10 fns=iot_b64_decode,iot_b64_maxdecodesize bound="arbitrary texts (newlines anywhere) of up to 9 characters, any stated buffer size"
*/
void h_decode_any (void)
{
  for (size_t n = 0; n <= 9; n++)
  {
    char * text = malloc (n + 1);
    size_t syms = 0;
    bool pad = false, bad = false;
    uint8_t exp [12] = { 0 };
    uint32_t acc = 0;
    size_t nexp = 0;
    for (size_t i = 0; i < n; i++)
    {
      text[i] = vf_char ();
      VF_ASSUME (text[i] != 0);
      if (text[i] == '=') pad = true;
      if (!pad && text[i] != '\n')
      {
        if (spec_val (text[i]) == 255) bad = true;
        else
        {
          acc = (acc << 6) | spec_val (text[i]);
          syms++;
          /* every symbol after the first of a group completes a byte */
          if (syms % 4 == 2) exp[nexp++] = (uint8_t) (acc >> 4);
          if (syms % 4 == 3) exp[nexp++] = (uint8_t) (acc >> 2);
          if (syms % 4 == 0) exp[nexp++] = (uint8_t) acc;
        }
      }
    }
    text[n] = 0;
    size_t need = syms / 4 * 3 + ((syms % 4) ? (syms % 4) - 1 : 0);
    size_t cap = vf_range (0, 8);
    uint8_t * out = malloc (8);
    for (size_t i = 0; i < 8; i++) out[i] = 0xA5;
    size_t olen = cap;
    bool ok = iot_b64_decode (text, out, &olen);
    if (bad) VF_ASSERT (!ok, "a character outside the alphabet before any padding is rejected");
    else
    {
      VF_ASSERT (ok == (need <= cap), "decoding succeeds exactly when the buffer is large enough");
      if (ok)
      {
        VF_ASSERT (olen == need && need == nexp, "decoded length");
        for (size_t i = 0; i < 8; i++) if (i < nexp) VF_ASSERT (out[i] == exp[i], "decoded bytes, newlines skipped and decoding ended by padding");
      }
      VF_ASSERT (iot_b64_maxdecodesize (text) >= need, "advertised decode size suffices for any text");
    }
    for (size_t i = 0; i < 8; i++) if (i >= cap) VF_ASSERT (out[i] == 0xA5, "nothing is written beyond the stated size");
    free (text);
    free (out);
  }
  VF_REACH ("end");
}

/* ---------------------------------------------------------------- unbounded */
#ifndef VF_NATIVE
/* g_len = 3 * g_q + g_r; g_i counts the groups done; g_k is an arbitrary full group */
/*@ LOOP b64_enc src=src/c/base64.c fn=iot_b64_encode loop=1
  __CPROVER_assigns (x, resultIndex, g_i, __CPROVER_object_whole (out))
  __CPROVER_loop_invariant (g_i <= g_q + 1 && x == 3 * g_i)
  __CPROVER_loop_invariant (g_i <= g_q ==> resultIndex == 4 * g_i)
  __CPROVER_loop_invariant (g_i > g_q ==> (g_r != 0 && resultIndex == 4 * g_q + g_r + 1))
  __CPROVER_loop_invariant ((g_k < g_q && g_k < g_i) ==> (out[4 * g_k] == SC (g_a >> 2) && out[4 * g_k + 1] == SC (((g_a & 3) << 4) | (g_b >> 4)) &&
     out[4 * g_k + 2] == SC (((g_b & 15) << 2) | (g_c >> 6)) && out[4 * g_k + 3] == SC (g_c & 63)))
  __CPROVER_loop_invariant ((g_i > g_q && g_k == g_q && g_r == 1) ==> (out[4 * g_k] == SC (g_a >> 2) && out[4 * g_k + 1] == SC ((g_a & 3) << 4)))
  __CPROVER_loop_invariant ((g_i > g_q && g_k == g_q && g_r == 2) ==> (out[4 * g_k] == SC (g_a >> 2) && out[4 * g_k + 1] == SC (((g_a & 3) << 4) | (g_b >> 4)) && out[4 * g_k + 2] == SC ((g_b & 15) << 2)))
  __CPROVER_decreases (g_q + 1 - g_i)
@body
  g_i++;
@*/
/*@ OBL B01.encode class=contract unwind=5 flags="--sat-solver cadical" inject=b64_enc dfcc=1 cost=30 timeout=300 fns=iot_b64_encode
*/
void h_contract_encode (void)
{
  __CPROVER_assume (g_q < (1ull << 30) && g_r < 3 && g_k <= g_q);
  g_len = 3 * g_q + g_r;
  uint8_t * in = malloc (g_len);
  size_t cap;
  __CPROVER_assume (cap < (1ull << 33));
  char * out = malloc (cap);
  __CPROVER_assume (in != NULL && out != NULL);
  g_i = 0;
  /* the bytes of the arbitrary group */
  if (3 * g_k < g_len) g_a = in[3 * g_k];
  if (3 * g_k + 1 < g_len) g_b = in[3 * g_k + 1];
  if (3 * g_k + 2 < g_len) g_c = in[3 * g_k + 2];
  bool ok = iot_b64_encode (in, g_len, out, cap);
  size_t need = (g_q + (g_r ? 1 : 0)) * 4 + 1;
  VF_ASSERT (ok == (cap >= need), "encoding succeeds exactly when the buffer holds the text");
  if (ok)
  {
    VF_ASSERT (out[need - 1] == 0, "text is terminated at the advertised size");
    if (g_k < g_q)
      VF_ASSERT (out[4 * g_k] == SC (g_a >> 2) && out[4 * g_k + 1] == SC (((g_a & 3) << 4) | (g_b >> 4)) && out[4 * g_k + 2] == SC (((g_b & 15) << 2) | (g_c >> 6)) && out[4 * g_k + 3] == SC (g_c & 63), "any full group");
    else if (g_r == 1) VF_ASSERT (out[4 * g_k] == SC (g_a >> 2) && out[4 * g_k + 1] == SC ((g_a & 3) << 4) && out[4 * g_k + 2] == '=' && out[4 * g_k + 3] == '=', "one trailing byte");
    else if (g_r == 2) VF_ASSERT (out[4 * g_k] == SC (g_a >> 2) && out[4 * g_k + 1] == SC (((g_a & 3) << 4) | (g_b >> 4)) && out[4 * g_k + 2] == SC ((g_b & 15) << 2) && out[4 * g_k + 3] == '=', "two trailing bytes");
  }
  VF_REACH ("end");
}

/* Decode of any text of any length without newlines up to its end or first padding
   character.  g_i symbols consumed, g_k an arbitrary group, g_s its symbol values. */
/*@ LOOP b64_dec src=src/c/base64.c fn=iot_b64_decode loop=1
  __CPROVER_assigns (in, iter, buf, len, out, g_dq, g_s0, g_s1, g_s2, g_s3, __CPROVER_object_whole (g_bin))
  __CPROVER_loop_invariant (iter >= 0 && iter < 4 && g_dq < (1ull << 29) && in == g_text + (4 * g_dq + iter) && 4 * g_dq + iter <= g_tlen)
  __CPROVER_loop_invariant (len == 3 * g_dq && len <= g_cap && out == g_bin + len)
  __CPROVER_loop_invariant (g_s0 < 64 && g_s1 < 64 && g_s2 < 64 && g_s3 < 64)
  __CPROVER_loop_invariant (iter == 0 ==> buf == 0)
  __CPROVER_loop_invariant ((g_dq == g_k && iter == 1) ==> buf == g_s0)
  __CPROVER_loop_invariant ((g_dq == g_k && iter == 2) ==> buf == ((g_s0 << 6) | g_s1))
  __CPROVER_loop_invariant ((g_dq == g_k && iter == 3) ==> buf == ((g_s0 << 12) | (g_s1 << 6) | g_s2))
  __CPROVER_loop_invariant (g_k < g_dq ==>
    g_bin[3 * g_k + g_e] == DEXP)
  __CPROVER_decreases (g_tlen - (4 * g_dq + iter))
@body
  {
    __CPROVER_assert (in == g_text + (4 * g_dq + iter) && out == g_bin + 3 * g_dq, "ghost identity");
    in = g_text + (4 * g_dq + iter);
    out = g_bin + 3 * g_dq;
    char g_ch = *in;
    uint8_t g_v = SV (g_ch);
    __CPROVER_assume (g_ch != '\n');
    if (g_v < 64 && g_dq == g_k)
    {
      if (iter == 0) g_s0 = g_v;
      if (iter == 1) g_s1 = g_v;
      if (iter == 2) g_s2 = g_v;
      if (iter == 3) g_s3 = g_v;
    }
    if (g_v < 64 && iter == 3) g_dq++;
  }
@after
  if (!(len > g_cap)) { __CPROVER_assert (out == g_bin + 3 * g_dq, "ghost identity"); out = g_bin + 3 * g_dq; }
@*/
/*@ OBL B01.decode class=contract unwind=5 inject=b64_dec dfcc=1 cost=30 timeout=300 fns=iot_b64_decode
*/
void h_contract_decode (void)
{
  __CPROVER_assume (g_tlen < (1ull << 31) && g_cap < (1ull << 31) && g_k < (1ull << 29) && g_e < 3);
  char * text = malloc (g_tlen + 1);
  uint8_t * bin = malloc (g_cap);
  __CPROVER_assume (text != NULL && bin != NULL && text[g_tlen] == 0);
  g_text = text; g_bin = bin; g_dq = 0;
  g_s0 = g_s1 = g_s2 = g_s3 = 0;
  size_t olen = g_cap;
  bool ok = iot_b64_decode (text, bin, &olen);
  VF_ASSERT (!ok || olen <= g_cap, "decoded length within the stated size");
  if (ok)
  {
    size_t tail = olen - 3 * g_dq;   /* bytes of the last, partial group */
    VF_ASSERT (tail <= 2, "decoded length is that of the full groups plus the partial one");
    char stop = text[4 * g_dq + (tail ? tail + 1 : 0)];
    if (tail == 0 && stop != 0 && stop != '=') stop = text[4 * g_dq + 1];   /* one left over symbol carries no byte */
    VF_ASSERT (stop == 0 || stop == '=', "decoding stops at the end or at padding only");
    if (g_k < g_dq || (g_k == g_dq && g_e < tail)) VF_ASSERT (bin[3 * g_k + g_e] == DEXP, "any decoded byte");
  }
  VF_REACH ("end");
}
#endif
