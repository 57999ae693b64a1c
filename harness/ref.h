/* Independent reference arithmetic for the statistical tests: tails, tables, the bit supply, the runner. */
#ifndef VP_REF_H
#define VP_REF_H
#include <dieharder/libdieharder.h>
#include "vp.h"
#include "script.h"
typedef long double ld;
static inline ld r_gq(ld a,ld x){ /* regularized upper incomplete gamma */
  if(x<=0) return 1; if(a<=0) return 0; ld lg=a*logl(x)-x-lgammal(a);
  if(x<a+1){ ld s=1/a,t=s; for(int i=1;i<1000000;i++){ t*=x/(a+i); s+=t; if(t<s*1e-21L) break; } return 1-s*expl(lg); }
  ld b=x+1-a,c=1e4000L,d=1/b,h=d; for(int i=1;i<1000000;i++){ ld an=-i*(i-a); b+=2; d=an*d+b; if(fabsl(d)<1e-4000L) d=1e-4000L; c=b+an/c; if(fabsl(c)<1e-4000L) c=1e-4000L; d=1/d; ld e=d*c; h*=e; if(fabsl(e-1)<1e-19L) break; }
  return h*expl(lg); }
static inline ld r_chi(ld chisq,ld dof){ return r_gq(dof/2,chisq/2); }
static inline ld r_phi(ld z){ return 0.5L*erfcl(-z/sqrtl(2)); }
static inline ld r_x(ld x,ld y,ld sigma){ return r_phi((y-x)/sigma); }     /* the normal-deviate test */
/* Pearson with pooling of the cells below the cutoff; *used = cells counted */
static inline ld r_vstat(const ld *x,const ld *y,long n,ld cut,long *used){ ld c=0,px=0,py=0; long u=0; int pool=0;
  for(long i=0;i<n;i++) if(y[i]>=cut){ u++; c+=(x[i]-y[i])*(x[i]-y[i])/y[i]; } else { pool=1; px+=x[i]; py+=y[i]; }
  if(pool&&py>=cut){ u++; c+=(px-py)*(px-py)/py; } *used=u; return c; }
static inline ld r_v(const ld *x,const ld *y,long n,ld cut,long fix,int *degenerate){ long u; ld c=r_vstat(x,y,n,cut,&u); *degenerate = !fix&&u<2; return r_chi(c,fix?fix:u-1); }
/* a cell whose expectation sits exactly on (or within rounding of) the cutoff is not decided by the property */
static inline int r_edge(const ld *y,long n,ld cut){ ld py=0; int pool=0; for(long i=0;i<n;i++){ if(fabsl(y[i]-cut)<1e-9L*cut) return 1; if(y[i]<cut){ pool=1; py+=y[i]; } } return pool&&fabsl(py-cut)<1e-9L*cut; }
/* the bit supply (C01): most significant bits first, the rest kept for the next request; a request for a whole word takes a fresh word */
typedef struct { const Script *s; long pos; uint64_t buf; int left; } Rb;
static inline uint32_t rb_word(Rb *r){ return script_word(r->s,r->pos++); }
static inline uint32_t rb_bits(Rb *r,int n){ int w=r->s->width; if(n==w) return rb_word(r); uint64_t v=0; int k=n; while(k>0){ if(r->left==0){ r->buf=rb_word(r); r->left=w; } int t= k<r->left?k:r->left; v=(v<<t)|((r->buf>>(r->left-t))&((1ull<<t)-1)); r->left-=t; k-=t; } return (uint32_t)v; }
static inline double rb_uni(Rb *r){ return rb_word(r)/ldexp(1.0,r->s->width); }
static inline double rb_unipos(Rb *r){ double x; do x=rb_uni(r); while(x==0); return x; }
static inline uint32_t rb_int(Rb *r,uint64_t n){ if(!n) return 0; uint64_t range= r->s->width>=32?0xffffffffull:(1ull<<r->s->width)-1, sc=range/n, k; do k=rb_word(r)/sc; while(k>=n); return (uint32_t)k; }
/* run a registered test nrun times on the current script; results[run*nkps+k] */
static Test **t_cur; static int t_nk;
static inline void tst_open(int num,unsigned ts,unsigned nt,int ov,int nrun){ unsigned st=tsamples, sp=psamples; (void)st; (void)sp; t_nk=dh_test_types[num]->nkps; t_cur=malloc(t_nk*sizeof(Test *)); for(int i=0;i<t_nk;i++){ Test *t=calloc(1,sizeof(Test)); t->nkps=t_nk; t->tsamples=ts; t->psamples=nrun; t->ntuple=nt; t->pvalues=malloc(nrun*sizeof(double)); for(int j=0;j<nrun;j++) t->pvalues[j]=-7; t->pvlabel=0; t_cur[i]=t; } ntuple=nt; overlap=ov; kspi=0; }
static inline void tst_close(void){ for(int i=0;i<t_nk;i++){ free(t_cur[i]->pvalues); free(t_cur[i]); } free(t_cur); }
static inline void tst_init(void){ verbose=0; dieharder_test_types(); ks_test=0; all=NO; }
static inline int num_of(const char *n){ for(int i=0;i<MAXTESTS;i++) if(dh_test_types[i]&&!strcmp(dh_test_types[i]->sname,n)) return i; vp_fail("no test %s",n); return 0; }
#define TP(k,r) (t_cur[k]->pvalues[r])
/* compare a p-value with its reference: absolute, and relative in the lower tail */
static inline int p_ok(double g,ld e){ int ok= fabsl(g-e)<=2e-8L; if(ok&&e<1e-6L&&e>1e-280L) ok= fabsl(g-e)<=2e-3L*e; else if(ok&&e<=1e-280L) ok= g>=0&&g<=1e-250; return ok; }
static inline void p_cmp(double g,ld e,const char *fmt,...){ char d[300]; va_list ap; va_start(ap,fmt); vsnprintf(d,sizeof d,fmt,ap); va_end(ap);
  vp_stat("states",1); vp_stat("traces",1); if(!p_ok(g,e)) vp_fail("%s: p-value %.12g, expected %.12Lg",d,g,e); }
/* every periodic stream with period at most maxp over a five-word alphabet, then the structured family; 0 = past the end */
static inline int st_enum(int idx,int width,int maxp,Script *s){ static const int A5=5; uint32_t m= width>=32?0xffffffffu:((1u<<width)-1); uint32_t al[5]={0,m,0xAAAAAAAAu&m,1,0x2C9277B5u&m};
  int base=0; for(int p=1;p<=maxp;p++){ int n=1; for(int i=0;i<p;i++) n*=A5; if(idx<base+n){ memset(s,0,sizeof *s); s->width=width; s->kind=SK_PERIODIC; s->n=p; int q=idx-base; for(int i=0;i<p;i++){ s->words[i]=al[q%A5]; q/=A5; } return 1; } base+=n; }
  return script_family(idx-base,width,s); }
#endif
