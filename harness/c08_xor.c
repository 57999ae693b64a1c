/* C08: the combining generator. All ordered component lists up to length 3 over the registered
 * generators x seeds x reseed points, on the real generator, against the component streams. */
#include <dieharder/libdieharder.h>
#include "vp.h"
#include "script.h"
static int all_g[200], ng; static int group(int g){ return g>=400&&g<500?1: g==203?2: g==204?3: 0; }
static const unsigned long SD[]={1,12345,0xffffffffUL,0};
#define NW 24
static void comp(int g,unsigned long s,uint32_t *o,int n){ gsl_rng *r=gsl_rng_alloc(dh_rng_types[g]); gsl_rng_set(r,s); for(int i=0;i<n;i++) o[i]=gsl_rng_get(r); gsl_rng_free(r); }
static void expect(const int *c,int k,unsigned long s,uint32_t *e){
  unsigned int cs[8]; gsl_rng *m=gsl_rng_alloc(dh_rng_types[14]); gsl_rng_set(m,(unsigned int)s); for(int i=0;i<k;i++) cs[i]=gsl_rng_get(m); gsl_rng_free(m);
  for(int i=0;i<NW;i++) e[i]=0;
  for(int j=0;j<k;j++){ uint32_t o[NW]; comp(c[j],cs[j],o,NW); for(int i=0;i<NW;i++) e[i]^=o[i]; }
}
static int ok_list(const int *c,int k){ int cnt[4]={0}; for(int i=0;i<k;i++) if(group(c[i]) && cnt[group(c[i])]++) return 0; return 1; }
static void one(const int *c,int k,int nseeds){
  char nm[100]; int l=0; for(int i=0;i<k;i++) l+=snprintf(nm+l,sizeof nm-l,"%s%d",i?",":"",c[i]);
  uint32_t e[NW]; gvcount=k+1; gnumbs[0]=207; for(int i=0;i<k;i++) gnumbs[1+i]=c[i];
  gsl_rng *r=gsl_rng_alloc(dh_rng_types[207]);
  for(int s=0;s<nseeds && !vp_failed();s++){
    expect(c,k,SD[s],e);
    for(int rep=0;rep<2 && !vp_failed();rep++){ /* rep 0: reseed after 3 words; rep 1: full comparison, uniforms in between */
      gsl_rng_set(r,SD[s]); int n=rep?NW:3;
      for(int i=0;i<n;i++){ vp_stat("transitions",1);
        if(rep && i%5==4){ double u=gsl_rng_uniform(r); if(!(u>=e[i]/4294967296.0-1e-12 && u<=(e[i]+1.0)/4294967296.0+1e-12)){ vp_fail("components %s, seed %lu: uniform %d is %.12f, the exclusive-or is %08x",nm,SD[s],i,u,e[i]); break; } continue; }
        unsigned long v=gsl_rng_get(r); if(v!=e[i]){ vp_fail("components %s, seed %lu: word %d is %08lx, the exclusive-or of the components is %08x",nm,SD[s],i,v,e[i]); break; } }
    }
    vp_stat("states",1); vp_stat("traces",1);
  }
  gsl_rng_free(r);
}
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0; dieharder_rng_types(); reset_bit_buffers();
  for(int g=0;g<500;g++) if(dh_rng_types[g] && !(g>=200&&g<=202) && g!=207) all_g[ng++]=g;
  for(int a=0;a<ng;a++) if(vp_begin("one/%d",all_g[a])) one(&all_g[a],1,4);
  for(int a=0;a<ng;a++) if(vp_begin("two/%d",all_g[a])) for(int b=0;b<ng && !vp_failed();b++){ int c[2]={all_g[a],all_g[b]}; if(!vp_thorough && (c[1]==203||c[0]==203||c[0]==209||c[1]==209) && (c[0]+c[1])%7) continue; if(ok_list(c,2)) one(c,2,vp_thorough?3:1); }
  static const int sub[]={13,14,205,206,208,204,402,0,403,209,203}; int nsub=vp_thorough?11:9;
  for(int a=0;a<nsub;a++) for(int b=0;b<nsub;b++) if(vp_begin("three/%d,%d",sub[a],sub[b])) for(int d=0;d<nsub && !vp_failed();d++){ int c[3]={sub[a],sub[b],sub[d]}; if(ok_list(c,3)) one(c,3,2); }
  for(int k=4;k<=7;k++) if(vp_begin("many/%d",k)){ int c[8]={206,13,208,205,14,206,13}; one(c,k,2); }
  vp_sample("every ordered pair of the %d registered software generators (those that keep one state per process at most once), words compared with the exclusive-or of separately run components",ng);
  return vp_done();
}
