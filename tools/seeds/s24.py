ID="c18-count-wrap"; PROPERTY="C18"
NEEDS="a word that occurs a multiple of 256 times"
BREAKS="diehard_opso counts occurrences in a char, so a word seen a multiple of 256 times counts as missing"
EDITS=[("libdieharder/diehard_opso.c","   w[j][k] = 1;","   w[j][k]++;")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
static unsigned long k,nx; static gsl_rng *mt; static void s_(void*v,unsigned long x){ k=0; gsl_rng_set(mt,3); }
static unsigned long g_(void*v){ if(k++%2) return k<=256?0:nx; if(k<=256) return 0; unsigned long j=gsl_rng_get(mt); nx=gsl_rng_get(mt); if(!(j&1023)&&!(nx&1023)) nx|=5; if(!(j>>10&1023)&&!(nx>>10&1023)) nx|=5<<10; return j; } static double d_(void*v){ return g_(v)/4294967296.0; }
static const gsl_rng_type ty={"demo",4294967295u,0,8,s_,g_,d_};
static char w[1024][1024];
int main(void){ dieharder_test_types(); mt=gsl_rng_alloc(gsl_rng_mt19937); rng=gsl_rng_alloc(&ty); gsl_rng_set(rng,1); rmax_bits=32; int T=0; for(int i=0;i<MAXTESTS;i++) if(dh_test_types[i]&&!strcmp(dh_test_types[i]->sname,"diehard_opso")) T=i;
 int n=2097152; double p[2]; for(int r=0;r<2;r++){ Test **t=create_test(dh_test_types[T],n,1); gsl_rng_set(rng,1); dh_test_types[T]->test(t,0); p[r]=t[0]->pvalues[0]; }
 gsl_rng_set(rng,1); unsigned j=0,q=0; for(int t=0;t<n;t+=2){ j=gsl_rng_get(rng); q=gsl_rng_get(rng); w[j&1023][q&1023]=1; w[(j>>10)&1023][(q>>10)&1023]=1; } double x=0; for(int i=0;i<1024;i++) for(int m=0;m<1024;m++) x+=!w[i][m];
 double e=gsl_cdf_gaussian_P(x-141909.3299550069,290.4622634038); double e2=gsl_cdf_gaussian_Q(x-141909.3299550069,290.4622634038); printf("%g missing: %.12g %.12g or %.12g\n",x,p[0],e,e2); return !(fabs(p[0]-e)<1e-9||fabs(p[0]-e2)<1e-9); }
'''}
DEMO='cc_demo demo.c; "$T/demo"'
