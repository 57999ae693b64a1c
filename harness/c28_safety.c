/* C28: every test on extreme streams, widths and parameters under the address sanitizer:
 * completes, p-values in [0,1], memory neither overrun nor kept after the test is destroyed. */
#include "ref.h"
#include <unistd.h>
size_t __sanitizer_get_current_allocated_bytes(void);
static Script S_;
/* streams: constants (followed by mixed words after a long prefix, so that a test that redraws ends), alternations, a counter, mixed */
#define NST 12
static void stream(int i,int w){ uint32_t m= w>=32?0xffffffffu:((1u<<w)-1); memset(&S_,0,sizeof S_); S_.width=w; static const uint32_t C[]={0,0xffffffffu,1,0xfffffffeu,0xAAAAAAAAu,0x80000000u};
  if(i<6){ S_.kind=SK_PREFIX; S_.a=5; S_.b=3000000; S_.c= i==5?(1u<<(w-1)):C[i]&m; return; }
  if(i<9){ S_.kind=SK_PERIODIC; S_.n=2; S_.words[0]= i==6?0:i==7?m:1; S_.words[1]= i==6?m:i==7?m>>1:m-1; return; }
  if(i==9){ S_.kind=SK_COUNTER; S_.a=0; S_.b=1; return; } if(i==10){ S_.kind=SK_COUNTER; S_.a=m; S_.b=m; return; } S_.kind=SK_MIX; S_.a=77+w; }
static int T; static unsigned ts,nt,ps; static int ov,width,st;
static void once(void){ Dtest *d=dh_test_types[T]; stream(st,width); script_install(&S_); ntuple=nt; overlap=ov; tsamples=ts; psamples=ps; ks_test=0; Test **t=create_test(d,ts,ps); std_test(d,t); unsigned nk=d->nkps;
  for(unsigned k=0;k<nk;k++){ for(unsigned j=0;j<t[k]->psamples;j++){ double p=t[k]->pvalues[j]; if(!(p>=0&&p<=1)) { printf("statistic %u, sample %u: p-value %g\n",k,j,p); fflush(stdout); _exit(3); } } if(!(t[k]->ks_pvalue>=0&&t[k]->ks_pvalue<=1)){ printf("statistic %u: combined p-value %g\n",k,t[k]->ks_pvalue); fflush(stdout); _exit(3); } }
  destroy_test(d,t); }
static long nruns; 
static void group(void *v){ /* all streams for one parameter choice; the memory held must not grow from one run to the next */
  int *p=v; for(int i=0;i<p[0];i++){ st=p[1+i]; vp_shared[1]=st; once(); vp_shared[0]++; }
  st=p[1]; vp_shared[1]=st; once(); size_t a=__sanitizer_get_current_allocated_bytes(); once(); once(); size_t b=__sanitizer_get_current_allocated_bytes(); if(b>a){ printf("%zu bytes still held after two more runs were destroyed\n",b-a); fflush(stdout); _exit(4); } }
static void params(const char *pfx,unsigned a,unsigned b,unsigned c,int o,int w,const int *sts,int ns){ ts=a; nt=b; ps=c; ov=o; width=w; int p[20]; p[0]=ns; memcpy(p+1,sts,ns*sizeof(int)); static char so[4000],se[8000]; long before=vp_shared?vp_shared[0]:0; int rc=vp_fork(group,p,400,so,sizeof so,se,sizeof se); long done=vp_shared[0]-before; vp_stat("states",done); vp_stat("traces",done); vp_stat("transitions",done*ps);
  if(rc){ char *e=strstr(se,"ERROR:"); vp_fail("%s w%d t%u n%u p%u%s stream %d: %s%s %.500s",dh_test_types[T]->sname,w,a,b,c,o?"":" no overlap",(int)vp_shared[1],rc==-1?"did not finish":rc==3||rc==4?so:"stopped, status ",rc==-1||rc==3||rc==4?"":rc==99?"99 (memory error)":"(see report)",e?e:se); } }
static void gen(void *v){ int g=*(int *)v; static const unsigned long SD[]={1,0,2,0x7fffffffUL,0x80000000UL,0xffffffffUL,12345}; size_t a=0,b=0; int slow=g==203; if(g==207){ gvcount=5; gnumbs[0]=207; gnumbs[1]=13; gnumbs[2]=208; gnumbs[3]=204; gnumbs[4]=400; } gsl_rng *one= g>=500||g==207?gsl_rng_alloc(dh_rng_types[g]):0; /* these hold a stream or components as long as they live: reseed one instance */
   for(int round=0;round<4;round++){ for(int i=0;i<(slow?2:7);i++) for(int j=0;j<(slow?2:7);j++){ gsl_rng *r= one?one:gsl_rng_alloc(dh_rng_types[g]); gsl_rng_set(r,SD[i]); for(int k=0;k<70;k++) gsl_rng_get(r); gsl_rng_set(r,SD[j]); for(int k=0;k<700;k++) k&1?gsl_rng_uniform(r):gsl_rng_get(r); if(!one) gsl_rng_free(r); } if(round==1) a=__sanitizer_get_current_allocated_bytes(); } b=__sanitizer_get_current_allocated_bytes(); if(b>a){ printf("%zu bytes still held after allocating, seeding and freeing again",b-a); fflush(stdout); _exit(4); } }
static const struct { const char *n; int nn; unsigned nt[24]; } NT[]={{"rgb_bitdist",14,{1,2,3,4,5,6,7,8,9,10,11,12,16,18}},{"rgb_minimum_distance",6,{0,1,2,3,4,5}},{"rgb_permutations",8,{0,1,2,3,4,5,6,7}},{"rgb_lagged_sum",9,{0,1,2,3,7,15,31,33,100}},{"rgb_kstest_test",3,{0,1,5}},{"dab_dct",11,{0,1,2,3,8,16,17,33,256,511,513}},{"dab_birthdays1",6,{0,1,2,50,512,2000}},{"dab_monobit2",6,{0,1,2,3,10,12}},{"sts_serial",3,{0,1,4}}};
int main(int argc,char **argv){
  vp_init(argc,argv); tst_init(); Xstep=100; Xoff=100000; Xweak=0.01; Xfail=0.000001; Xtrategy=0; int X=vp_thorough; int allst[NST]; for(int i=0;i<NST;i++) allst[i]=i; const int few[]={0,1,11};
  static const int WD[]={32,8,16,31,24,13,9,27,20,10,11,12,14,15,17,18,19,21,22,23,25,26,28,29,30};
  static const unsigned TS[]={1,2,3,4,5,7,10,31,32,33,64,100,257,1000,4096};
  for(T=0;T<MAXTESTS;T++) if(dh_test_types[T]){ const char *n=dh_test_types[T]->sname; const unsigned z[1]={0}; const unsigned *nl=z; int nn=1; for(int i=0;i<(int)(sizeof NT/sizeof *NT);i++) if(!strcmp(NT[i].n,n)){ nl=NT[i].nt; nn=NT[i].nn; }
    int fixed=!strcmp(n,"dab_opso2"), big=!strcmp(n,"diehard_dna")||!strcmp(n,"diehard_3dsphere"); /* tests whose work does not depend on the sample size */
    /* small samples: everything */
    for(int wi=0;wi<(X?25:9);wi++) for(int ni=0;ni<nn;ni++) if(vp_begin("%s/w%d/n%u",n,WD[wi],nl[ni])){ if(fixed){ params("",1,0,1,1,WD[wi],few+(wi%3),1); continue; } for(int ti=0;ti<15&&!vp_failed();ti++){ if(!X&&wi>=2&&ti%3&&ti!=1) continue; if((big||(!strcmp(n,"rgb_bitdist")&&nl[ni]>11))&&!X&&(ti%5||(nl[ni]>12&&ti>0))) continue; if(!X&&ti>6&&((!strcmp(n,"dab_dct")&&nl[ni]>300)||(!strcmp(n,"dab_birthdays1")&&nl[ni]>500))) continue; params("",TS[ti],nl[ni],1,1,WD[wi],allst,NST); if((ti==0||ti==5||ti==12)&&!vp_failed()){ params("",TS[ti],nl[ni],3,1,WD[wi],few,3); if(!vp_failed()) params("",TS[ti],nl[ni],1,0,WD[wi],few,3); } } }
    /* the standard sample size */
    for(int wi=0;wi<(X?9:2);wi++) for(int k=0;k<(X?NST:3);k++) if((X||wi==0&&k!=1||k==1)&&vp_begin("%s/standard/w%d/s%d",n,WD[wi],X?k:few[k])) params("",dh_test_types[T]->tsamples_std,nl[nn>2?2:0],1,1,WD[wi],X?&allst[k]:&few[k],1);
  }
  /* generators: allocate, seed, draw, free, over and over */
  dieharder_rng_types(); for(int g=0;g<MAXRNGS;g++) if(dh_rng_types[g]&&!(g>=200&&g<=202)&&vp_begin("generator/%d-%s",g,dh_rng_types[g]->name)){ static char so[2000],se[8000]; int rc=vp_fork(gen,&g,300,so,sizeof so,se,sizeof se); vp_stat("states",1); vp_stat("traces",1); vp_stat("transitions",1); if(rc){ char *e=strstr(se,"ERROR:"); vp_fail("generator %s: %s%.500s",dh_rng_types[g]->name,rc==-1?"did not finish":rc==4?so:"stopped: ",rc==4?"":e?e:se); } }
  return vp_done();
}
