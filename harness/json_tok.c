/* J02: the JSON tokenizer */
#include "vf.h"
#include "iot/json.h"
#if defined (UNBOUNDED) && !defined (VF_NATIVE)
static int32_t g_k;   /* any one token */
static size_t g_len; static uint32_t g_num;
/* what holds of every token already allocated (the parts that the parser itself relies on hold for all
 * of them: assumed where another token than g_k is visited, asserted for g_k, which is any of them) */
#define LINKED(k) (tokens[k].parent >= -1 && tokens[k].parent < (int32_t) (k))
#define PLACED(k) (tokens[k].start >= 0 && (tokens[k].end == -1 ? ((tokens[k].type == IOT_JSON_OBJECT || tokens[k].type == IOT_JSON_ARRAY) && (uint32_t) tokens[k].start < parser->pos) \
  : (tokens[k].end >= tokens[k].start && (uint32_t) tokens[k].end <= parser->pos && tokens[k].type >= IOT_JSON_OBJECT && tokens[k].type <= IOT_JSON_PRIMITIVE)))
#define G_TOKEN (g_k >= parser->toknext || (LINKED (g_k) && PLACED (g_k)))
#ifdef COUNTING
#define TOKS_OK 1
#else
#define TOKS_OK (parser->toknext >= 0 && (uint32_t) parser->toknext <= num_tokens && parser->toksuper >= -1 && parser->toksuper < parser->toknext && count == parser->toknext && G_TOKEN)
#endif
/* one obligation per kind of character met, and one for the end of the text */
#define CLASS(c) ((c) == '{' || (c) == '[' ? 0 : (c) == '}' || (c) == ']' ? 1 : (c) == '"' ? 2 : (c) == ':' || (c) == ',' || (c) == ' ' || (c) == '\t' || (c) == '\r' || (c) == '\n' ? 3 : 4)
static void vf_havoc_tokens (iot_json_tok_t * t) { __CPROVER_havoc_object (t); }
#include "src/c/json.c"
/*@ LOOP tok_prim src=src/c/json.c fn=iot_json_parse_primitive loop=1
@inv parser->pos <= len && parser->pos >= start
@havoc parser->pos = vf_u32 ();
@dec len - parser->pos
@frame parser->toknext, parser->toksuper, len, js, start, num_tokens, tokens
@*/
/*@ LOOP tok_str src=src/c/json.c fn=iot_json_parse_string loop=1
@inv parser->pos <= len && parser->pos > start
@havoc parser->pos = vf_u32 (); escaped = vf_bool ();
@dec len - parser->pos
@frame parser->toknext, parser->toksuper, len, js, start, num_tokens, tokens
@*/
/*@ LOOP tok_main src=src/c/json.c fn=iot_json_parse loop=1
@inv parser->pos <= len && TOKS_OK
@havoc parser->pos = vf_u32 (); parser->toknext = vf_i32 (); parser->toksuper = vf_i32 (); count = vf_i32 (); if (tokens) vf_havoc_tokens (tokens);
@dec len - parser->pos
@frame len, json, num_tokens, tokens
@exit { if (!VF_MINE (5)) __CPROVER_assume (0); break; }
@body
if (!VF_MINE (CLASS (json[parser->pos]))) __CPROVER_assume (0);
#ifndef COUNTING
if (parser->toksuper >= 0) __CPROVER_assume (LINKED (parser->toksuper));
#endif
@*/
/*@ LOOP tok_climb src=src/c/json.c fn=iot_json_parse loop=2
@inv (uint64_t) (token - tokens) < (uint64_t) parser->toknext && token == &tokens[token - tokens]
@havoc { int32_t t = vf_i32 (); VF_ASSUME (t >= 0 && t < parser->toknext); token = &tokens[t]; }
@dec token - tokens
@frame parser->toknext, parser->toksuper, parser->pos, len, json, num_tokens, tokens, type
@body
__CPROVER_assume (LINKED (token - tokens));
@*/
/*@ LOOP tok_end src=src/c/json.c fn=iot_json_parse loop=3
@inv i >= -1 && i < parser->toknext && (g_k >= parser->toknext || g_k <= i || tokens[g_k].end != -1)
@havoc i = vf_i32 ();
@dec i + 1
@frame parser->toknext, parser->pos, tokens, count
@*/
/*@ OBL J02.any class=contract split=6 unwind=7 flags="--sat-solver cadical" inject=tok_prim,tok_str,tok_main,tok_climb,tok_end cost=30 timeout=300 defs="-DUNBOUNDED" fns=iot_json_parse,iot_json_parse_primitive,iot_json_parse_string,iot_json_alloc_token,iot_json_fill_token,iot_json_init
*/
/*@ OBL J02.count class=contract split=6 unwind=7 flags="--sat-solver cadical" inject=tok_prim,tok_str,tok_main,tok_climb,tok_end cost=30 timeout=300 defs="-DUNBOUNDED -DCOUNTING" fns=iot_json_parse
*/
void h_any (void)
{
  g_len = (size_t) vf_u64 (); g_num = vf_u32 ();
  VF_ASSUME (g_len < ((size_t) 1 << 31) - 1 && g_num < (1u << 31));
  char * text = malloc (g_len);
#ifdef COUNTING
  iot_json_tok_t * tokens = NULL;
#else
  iot_json_tok_t * tokens = malloc (g_num * sizeof (iot_json_tok_t));
#endif
  g_k = (int32_t) vf_below (1u << 31);
  iot_json_parser parser;
  iot_json_init (&parser);
  VF_ASSERT (parser.pos == 0 && parser.toknext == 0 && parser.toksuper == -1, "a parser starts at the beginning of the text");
  int r = iot_json_parse (&parser, text, g_len, tokens, g_num);
  VF_ASSERT (parser.pos <= g_len, "the position stays in the text");
#ifndef COUNTING
  if (r >= 0)
  {
    VF_ASSERT ((uint32_t) r <= g_num && r == parser.toknext, "the number of tokens reported is the number filled in");
    if (g_k < r)
    {
      iot_json_tok_t * t = &tokens[g_k];
      VF_ASSERT (t->type >= IOT_JSON_OBJECT && t->type <= IOT_JSON_PRIMITIVE, "every token has a type");
      VF_ASSERT (t->start >= 0 && t->start <= t->end && (size_t) t->end <= g_len, "every token lies in the text");
      VF_ASSERT (t->parent >= -1 && t->parent < g_k, "every parent comes before its children");
    }
  }
  else VF_ASSERT (r == IOT_JSON_ERROR_NOMEM || r == IOT_JSON_ERROR_INVAL || r == IOT_JSON_ERROR_PART, "errors are reported by their codes");
#endif
  VF_REACH ("end");
}
#endif
#ifndef UNBOUNDED
#include "src/c/json.c"
/* texts are put together from these pieces */
static const char * const PIECE[] = { "{", "}", "[", "]", "\"a\"", ":", ",", "1", "\"\\n\"", "\"\\u11", " ", "\"", "u\\" };
#define PIECES 13u
#define N 24
#define TOKS (N + 1)
/* the tokens of a text by a scanner with a stack: which tokens there are and where, or that the text is refused */
static int want_start[TOKS], want_end[TOKS], want_type[TOKS], want_up[TOKS];
static bool stops (char c) { return c == ':' || c == ',' || c == ']' || c == '}' || c == ' '; }
static int scan (const char * s, int n)
{
  int stack[TOKS], top = 0, count = 0, i = 0;
  while (i < n)
  {
    char c = s[i];
    if (c == '{' || c == '[')
    {
      want_start[count] = i; want_end[count] = -1; want_type[count] = c == '{' ? IOT_JSON_OBJECT : IOT_JSON_ARRAY; want_up[count] = top ? stack[top - 1] : -1;
      stack[top++] = count++; i++;
    }
    else if (c == '}' || c == ']')
    {
      if (top == 0) return IOT_JSON_ERROR_INVAL;
      if (want_type[stack[top - 1]] != (c == '}' ? IOT_JSON_OBJECT : IOT_JSON_ARRAY)) return IOT_JSON_ERROR_INVAL;
      want_end[stack[--top]] = i + 1; i++;
    }
    else if (c == '"')
    {
      bool esc = false; int j = i + 1;
      for (;;)
      {
        if (j >= n) return IOT_JSON_ERROR_PART;
        if (s[j] == '"') break;
        if (s[j] != '\\') { j++; continue; }
        if (j + 1 >= n) return IOT_JSON_ERROR_PART;
        esc = true;
        if (s[j + 1] == 'u')
        {
          int h = j + 2;
          while (h < n && h < j + 6) { if (s[h] != '1') return IOT_JSON_ERROR_INVAL; h++; }
          j = h;
        }
        else if (s[j + 1] == '"' || s[j + 1] == '\\' || s[j + 1] == 'n') j += 2;
        else return IOT_JSON_ERROR_INVAL;
      }
      want_start[count] = i + 1; want_end[count] = j; want_type[count] = esc ? IOT_JSON_STRING_ESC : IOT_JSON_STRING; want_up[count] = top ? stack[top - 1] : -1;
      count++; i = j + 1;
    }
    else if (c == ':' || c == ',' || c == ' ') i++;
    else
    {
      int j = i;
      while (j < n && !stops (s[j])) j++;
      want_start[count] = i; want_end[count] = j; want_type[count] = IOT_JSON_PRIMITIVE; want_up[count] = top ? stack[top - 1] : -1;
      count++; i = j;
    }
  }
  return top ? IOT_JSON_ERROR_PART : count;
}
static uint32_t code;
static void text_is (const uint32_t * pick, uint32_t n)
{
  uint32_t len = 0;
  if (!VF_MINE (code++)) return;
  for (uint32_t i = 0; i < n; i++) len += (uint32_t) strlen (PIECE[pick[i]]);
  char * s = malloc (len);
  len = 0;
  for (uint32_t i = 0; i < n; i++) for (const char * c = PIECE[pick[i]]; *c; c++) s[len++] = *c;
  iot_json_parser parser;
  iot_json_init (&parser);
  int want = scan (s, (int) len);
  uint32_t room = want > 0 ? (uint32_t) want : 12u;   /* just enough room: one more token written would be found */
  iot_json_tok_t * tokens = malloc (room * sizeof (iot_json_tok_t));
  int got = iot_json_parse (&parser, s, len, tokens, room);
  VF_ASSERT (got == want, "a text is refused exactly when its brackets, strings or escapes are broken; otherwise its tokens are counted");
  for (int i = 0; i < got; i++)
  {
    VF_ASSERT (tokens[i].start == want_start[i] && tokens[i].end == want_end[i], "each token covers its own text");
    VF_ASSERT (tokens[i].type == (iot_json_type_t) want_type[i], "each token has the type of its text");
  }
  if (got > 1)   /* and with less room than tokens */
  {
    iot_json_init (&parser);
    got = iot_json_parse (&parser, s, len, tokens, room - 1);
    VF_ASSERT (got == IOT_JSON_ERROR_NOMEM, "a text of more tokens than there is room for is refused");
  }
  free (tokens);
  free (s);
}
/*@ OBL J02.text class=bounded unwind=26 split=8 cost=30 timeout=200 fns=iot_json_parse,iot_json_parse_string,iot_json_parse_primitive,iot_json_alloc_token bound="every text of up to 3 of 13 pieces, and of up to 5 brackets (brackets, strings plain, escaped and broken, numbers, separators): tokens and errors against a scanner with a stack, with just enough and with too little room"
*/
void h_text (void)
{
  uint32_t p[5];
  for (p[0] = 0; p[0] < PIECES; p[0]++)
  {
    text_is (p, 1);
    for (p[1] = 0; p[1] < PIECES; p[1]++)
    {
      text_is (p, 2);
      for (p[2] = 0; p[2] < PIECES; p[2]++)
      {
        text_is (p, 3);
        if (p[0] < 4u && p[1] < 5u && p[2] < 5u)   /* deeper for brackets */
          for (p[3] = 0; p[3] < 4u; p[3]++)
          {
            text_is (p, 4);
            if (p[1] < 4u && p[2] < 4u) for (p[4] = 0; p[4] < 4u; p[4]++) text_is (p, 5);
          }
      }
    }
  }
  VF_REACH ("end");
}
#endif
