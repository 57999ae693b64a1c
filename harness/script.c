#include <dieharder/libdieharder.h>
#include "script.h"
Script script; long script_pos; long script_limit; int script_over;
static uint64_t mix(uint64_t x){ x+=0x9E3779B97F4A7C15ULL; x=(x^(x>>30))*0xBF58476D1CE4E5B9ULL; x=(x^(x>>27))*0x94D049BB133111EBULL; return x^(x>>31); }
uint32_t script_word(const Script *s, long i){
  uint64_t v; uint32_t m = s->width>=32?0xffffffffu:((1u<<s->width)-1);
  switch(s->kind){
    case SK_PERIODIC: if(s->tail && i>=s->n) v=mix((uint64_t)i*0x100000001B3ULL+s->a)>>32; else v=s->words[i%s->n]; break;
    case SK_COUNTER: v=s->a+(uint64_t)i*s->b; break;
    case SK_PREFIX: if((uint64_t)i<s->b){ v=s->c; break; } v=mix((uint64_t)i*0x100000001B3ULL+s->a*0xD6E8FEB86659FD93ULL)>>(64-s->width); break;
    case SK_PATCH: v=(uint64_t)i>=s->b&&(uint64_t)i<s->b+s->n?s->words[i-s->b]:mix((uint64_t)i*0x100000001B3ULL+s->a*0xD6E8FEB86659FD93ULL)>>(64-s->width); if(s->c && i%s->n==0 && !((uint64_t)i>=s->b&&(uint64_t)i<s->b+s->n)) v=(v&s->c)|(0x77777777u&~s->c); break;
    case SK_SPIKE: if((uint64_t)i==s->b){ v=s->c; break; } /* fall through */
    default: v=mix((uint64_t)i*0x100000001B3ULL+s->a*0xD6E8FEB86659FD93ULL)>>(64-s->width);
  }
  return (uint32_t)v & m;
}
double script_uniform(const Script *s,long i){ return script_word(s,i)/ldexp(1.0,s->width); }
static void s_set(void *v,unsigned long x){ script_pos=0; }
static unsigned long s_get(void *v){ if(script_limit>0 && script_pos>=script_limit) script_over=1; return script_word(&script,script_pos++); }
static double s_getd(void *v){ return s_get(v)/ldexp(1.0,script.width); }
static gsl_rng_type types_w[33];
void script_install(const Script *s){
  gsl_rng_type *t=&types_w[s->width];
  script=*s;
  t->name="scripted"; t->max= s->width>=32?0xfffffffful:((1ul<<s->width)-1); t->min=0; t->size=8; t->set=s_set; t->get=s_get; t->get_double=s_getd;
  if(rng) gsl_rng_free(rng);
  rng=gsl_rng_alloc(t);
  reset_bit_buffers();
  random_max=t->max; rmax=0; rmax_bits=s->width; rmax_mask=t->max;
  script_pos=0; script_over=0; script_limit=0;
}
void script_name(const Script *s,char *b,int n){
  switch(s->kind){
    case SK_MIX: snprintf(b,n,"mix%llu/w%d",(unsigned long long)s->a,s->width); break;
    case SK_COUNTER: snprintf(b,n,"cnt%llu+%llu/w%d",(unsigned long long)s->a,(unsigned long long)s->b,s->width); break;
    case SK_PREFIX: snprintf(b,n,"prefix%llux%x+mix%llu/w%d",(unsigned long long)s->b,s->c,(unsigned long long)s->a,s->width); break;
    case SK_PATCH: snprintf(b,n,"mix%llu%s with %d words at %llu/w%d",(unsigned long long)s->a,s->c?" in a strip":"",s->n,(unsigned long long)s->b,s->width); break;
    case SK_SPIKE: snprintf(b,n,"spike%llu@%llu=%x/w%d",(unsigned long long)s->a,(unsigned long long)s->b,s->c,s->width); break;
    default: { int k=snprintf(b,n,"per"); for(int i=0;i<s->n && k<n-12;i++) k+=snprintf(b+k,n-k,"%c%x",i?'.':':',s->words[i]); snprintf(b+k,n-k,"%s/w%d",s->tail?"+mix":"",s->width); }
  }
}
int script_family(int idx,int width,Script *s){
  memset(s,0,sizeof *s); s->width=width;
  uint32_t m = width>=32?0xffffffffu:((1u<<width)-1);
  if(idx<4){ s->kind=SK_MIX; s->a=idx+1; return 1; }
  switch(idx){
    case 4: s->kind=SK_PERIODIC; s->n=1; s->words[0]=0; return 1;
    case 5: s->kind=SK_PERIODIC; s->n=1; s->words[0]=m; return 1;
    case 6: s->kind=SK_PERIODIC; s->n=2; s->words[0]=0; s->words[1]=m; return 1;
    case 7: s->kind=SK_PERIODIC; s->n=1; s->words[0]=0xAAAAAAAAu&m; return 1;
    case 8: s->kind=SK_PERIODIC; s->n=3; s->words[0]=1; s->words[1]=1u<<(width-1); s->words[2]=m; return 1;
    case 9: s->kind=SK_COUNTER; s->a=0; s->b=1; return 1;
    case 10: s->kind=SK_COUNTER; s->a=5; s->b=0x9E3779B1u; return 1;
    case 11: s->kind=SK_PERIODIC; s->n=5; for(int i=0;i<5;i++) s->words[i]=(0x12345678u*(i+1)^0x5a5a5a5au)&m; return 1;
    case 12: s->kind=SK_COUNTER; s->a=m; s->b=(uint64_t)-1; return 1;
  }
  return 0;
}
