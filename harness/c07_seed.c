/* C07: a seed determines the stream; values stay in range.
 * For every registered generator: reference streams are taken in fresh child processes; then every
 * history of up to `depth' operations is executed on the real generator, which is then seeded and
 * its stream compared with the reference. */
#include <dieharder/libdieharder.h>
#include "vp.h"
#include "script.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#define NREF 700
static const unsigned long SEEDS[]={1,2,12345,0x7fffffffUL,0x80000000UL,0xffffffffUL,0,0x01020304UL}; 
#define NS 8
static double *ref; /* NS x NREF in shared memory */
static int gi;
static double draw(gsl_rng *r,int i){ return (i%45)<30 ? (double)gsl_rng_get(r) : gsl_rng_uniform(r); }
static int rangefail(gsl_rng *r,int i,double v){ if((i%45)<30) return !(v>=gsl_rng_min(r) && v<=gsl_rng_max(r)); return !(v>=0 && v<=1); }
static void setmax(gsl_rng *r){ unsigned long m=gsl_rng_max(r); random_max=m; rmax_bits=0; rmax_mask=0; while(m){ m>>=1; rmax_mask=rmax_mask<<1|1; rmax_bits++; } }
static int others[4]; static int nothers;
static void use_other(int k){ gsl_rng *o=gsl_rng_alloc(dh_rng_types[others[k%nothers]]); gsl_rng_set(o,77+k); for(int i=0;i<3+k;i++) gsl_rng_get(o); gsl_rng_free(o); }
#define NOPS 8
static const char *OPN[NOPS]={"seed-5","seed-max","draw1","draw700","other-generator","part-of-bit-buffer","second-instance","global-seed-variable"};
static void op(gsl_rng *r,int o){
  double v;
  switch(o){
    case 0: gsl_rng_set(r,5); break;
    case 1: gsl_rng_set(r,gi>=200?0xffffffffUL:7654321UL); break;
    case 2: v=gsl_rng_get(r); if(rangefail(r,0,v)) vp_fail("value %.0f outside the declared range %lu..%lu",v,gsl_rng_min(r),gsl_rng_max(r)); break;
    case 3: for(int i=0;i<700;i++){ v=draw(r,i); if(rangefail(r,i,v)){ vp_fail("value %.10g outside the declared range",v); break; } } break;
    case 4: use_other(2); break;
    case 5: { setmax(r); uint x=0; get_rand_bits(&x,4,13,r); get_uint_rand(r); get_rand_bits(&x,4,5,r); break; }
    case 6: { gsl_rng *q=gsl_rng_alloc(r->type); gsl_rng_set(q,4242); for(int i=0;i<5;i++) gsl_rng_get(q); gsl_rng_free(q); break; }
    case 7: seed=999; break;
  }
}
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0; dieharder_rng_types(); reset_bit_buffers();
  ref=mmap(0,NS*NREF*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  int depth=vp_thorough?4:3;
  for(gi=0;gi<500;gi++) if(dh_rng_types[gi] && !(gi>=200&&gi<=202) && gi!=207){
    int own=gi>=200; int nparts= own?4:1;
    for(int part=0;part<nparts;part++) if(vp_begin("gen%d-%s/part%d",gi,dh_rng_types[gi]->name,part)){
    nothers=0; int cand[4]={204,400,13,205}; for(int i=0;i<4;i++) if(cand[i]!=gi && dh_rng_types[cand[i]]) others[nothers++]=cand[i];
    int ns= own?(vp_thorough?NS:6):3;
    fflush(NULL); int bad=0;
    for(int s=0;s<ns;s++){ pid_t c=fork(); if(!c){ alarm(60); gsl_rng *r=gsl_rng_alloc(dh_rng_types[gi]); gsl_rng_set(r,SEEDS[s]); for(int i=0;i<NREF;i++) ref[s*NREF+i]=draw(r,i); _exit(0);} int st; waitpid(c,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) bad=1; }
    if(bad){ vp_fail("seeding and drawing from a fresh generator failed"); continue; }
    for(int s=0;s<ns;s++) for(int i=0;i<NREF;i++){ double v=ref[s*NREF+i]; gsl_rng_type t=*dh_rng_types[gi]; if((i%45)<30 ? !(v>=t.min&&v<=t.max) : !(v>=0&&v<=1)){ vp_fail("seed %lu: value %d is %.10g, outside the declared range",SEEDS[s],i,v); break; } }
    long tot=1; int d= own||vp_thorough?depth:2; if(gi==203||gi==209) d=vp_thorough?3:2; for(int i=0;i<d;i++) tot*=NOPS;
    for(long k=part;k<tot && !vp_failed();k+=nparts) for(int s=0;s<ns && !vp_failed();s++){
      gsl_rng *r=gsl_rng_alloc(dh_rng_types[gi]); char h[300]; int hl=0; long q=k;
      for(int i=0;i<d;i++){ int o=q%NOPS; q/=NOPS; hl+=snprintf(h+hl,sizeof h-hl,"%s%s",i?",":"",OPN[o]); op(r,o); vp_stat("transitions",1); if(vp_failed()) break; }
      if(vp_failed()) break;
      gsl_rng_set(r,SEEDS[s]); seed+=s;
      for(int i=0;i<NREF;i++){ double v=draw(r,i); if(v!=ref[s*NREF+i]){ vp_fail("after the history %s, seed %lu gives value %d = %.12g; in a fresh process it is %.12g",h,SEEDS[s],i,v,ref[s*NREF+i]); break; } }
      vp_stat("states",1); vp_stat("traces",1); vp_stat("transitions",NREF); gsl_rng_free(r);
    }
    if(gi==206&&part==0) vp_sample("generator %s: %ld histories of %d operations from {reseed, draw, use another generator, take part of the bit buffer, second instance, ...} then seed and compare %d values, for each of %d seeds",dh_rng_types[gi]->name,tot,d,NREF,ns);
  } }
  /* every number of values drawn before reseeding */
  for(gi=200;gi<500;gi++) if(dh_rng_types[gi] && !(gi>=200&&gi<=202) && gi!=207) for(int part=0;part<4;part++) if(vp_begin("draws/gen%d/%d",gi,part)){
    int slow=gi==203||gi==209; int ns=2; fflush(NULL); int bad=0;
    for(int s=0;s<ns;s++){ pid_t c=fork(); if(!c){ alarm(60); gsl_rng *r=gsl_rng_alloc(dh_rng_types[gi]); gsl_rng_set(r,SEEDS[s+1]); for(int i=0;i<NREF;i++) ref[s*NREF+i]=draw(r,i); _exit(0);} int st; waitpid(c,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) bad=1; }
    if(bad){ vp_fail("seeding and drawing from a fresh generator failed"); continue; }
    static const int BIG[]={2003,2048,2049,4096,10007,16384,65535,65536,65537,131072,1048577}; gsl_rng *r=gsl_rng_alloc(dh_rng_types[gi]);
    for(int n=part;n<(slow?200:1300)+11*4&&!vp_failed();n+=4){ int lim=slow?200:1300, m= n<lim?n:BIG[(n-lim)/4]; if(slow&&m>5000&&!vp_thorough) continue; int s=n/4%2; gsl_rng_set(r,9+n%3); for(int i=0;i<m;i++) if(part%2&&i%5==3) gsl_rng_uniform(r); else gsl_rng_get(r); gsl_rng_set(r,SEEDS[s+1]); int L=slow?60:NREF;
      for(int i=0;i<L;i++){ double v=draw(r,i); if(v!=ref[s*NREF+i]){ vp_fail("after a seeding and %d values drawn, seed %lu gives value %d = %.12g; in a fresh process it is %.12g",m,SEEDS[s+1],i,v,ref[s*NREF+i]); break; } }
      vp_stat("states",1); vp_stat("traces",1); vp_stat("transitions",m+L); }
    gsl_rng_free(r); }
  for(gi=500;gi<1000;gi++) if(dh_rng_types[gi] && vp_begin("gen%d-%s",gi,dh_rng_types[gi]->name)){
    gsl_rng *r=gsl_rng_alloc(dh_rng_types[gi]); gsl_rng_set(r,1);
    for(int i=0;i<(vp_thorough?200000:3000);i++){ double v=draw(r,i); vp_stat("transitions",1); if(rangefail(r,i,v)){ vp_fail("value %d is %.10g, outside the declared range (max %lu, uniform in [0,1])",i,v,gsl_rng_max(r)); break; } }
    vp_stat("states",1); gsl_rng_free(r);
  }
  return vp_done();
}
