/* A scripted, fully controlled generator: word(i) is a pure function of a small spec. */
#ifndef VP_SCRIPT_H
#define VP_SCRIPT_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { SK_MIX, SK_PERIODIC, SK_COUNTER, SK_SPIKE, SK_PREFIX, SK_PATCH };
typedef struct {
  int kind, width;
  uint64_t a, b;          /* MIX: key a.  COUNTER: a + i*b.  SPIKE: MIX key a with word(b) forced to c.  PREFIX: MIX key a with words 0..b-1 forced to c.  PATCH: MIX key a with words b..b+n-1 forced to words[]; with c!=0 every n-th word is confined to the low bits c */
  uint32_t c;
  uint32_t words[256]; int n; /* PERIODIC; with MIX tail when tail!=0 */
  int tail;
} Script;
extern Script script;          /* the current script */
extern long script_pos;        /* words drawn so far */
extern long script_limit;      /* if >0, drawing more words than this is reported through script_over */
extern int script_over;
uint32_t script_word(const Script *s, long i);   /* masked to the width */
double script_uniform(const Script *s, long i);  /* word / 2^width */
void script_install(const Script *s);            /* make it the global generator, at word 0, buffers reset */
void script_name(const Script *s, char *buf, int n);
/* a finite family of streams, enumerated by index; returns 0 when idx is out of range */
int script_family(int idx, int width, Script *s);
#ifdef __cplusplus
}
#endif
#endif
