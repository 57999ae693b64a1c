ID="c26-narrow-refill"; PROPERTY="C26"
NEEDS="a generator with fewer than 32 bits"
BREAKS="dab_filltree2 takes 32 bits from every word after the first, so narrow generators contribute zero bits they never produced"
EDITS=[("libdieharder/dab_filltree2.c","         x = gsl_rng_get(rng);\n         bitCount = rmax_bits;","         x = gsl_rng_get(rng);\n         bitCount = 8*sizeof(x);")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
static unsigned long k; static int w_; static void s_(void*v,unsigned long x){ k=0; } static unsigned h(unsigned long i){ i*=0x9E3779B97F4A7C15ul; i^=i>>31; i*=0xD1B54A32D192ED03ul; return (i>>29)&0xffff; }
static unsigned long g_(void*v){ k++; return w_==16?h(k):h(2*k-1)|h(2*k)<<16; } static double d_(void*v){ return g_(v)/4294967296.0; }
static const gsl_rng_type t16={"d16",65535u,0,8,s_,g_,d_},t32={"d32",4294967295u,0,8,s_,g_,d_};
int main(void){ dieharder_test_types(); int T=0; for(int i=0;i<MAXTESTS;i++) if(dh_test_types[i]&&!strcmp(dh_test_types[i]->sname,"dab_filltree2")) T=i; double p[2][2];
 for(int r=0;r<2;r++){ w_=r?32:16; rng=gsl_rng_alloc(r?&t32:&t16); gsl_rng_set(rng,1); rmax_bits=w_; Test **t=create_test(dh_test_types[T],20000,1); gsl_rng_set(rng,1); dh_test_types[T]->test(t,0); p[r][0]=t[0]->pvalues[0]; p[r][1]=t[1]->pvalues[0]; }
 printf("%g %g / %g %g\n",p[0][0],p[0][1],p[1][0],p[1][1]); return !(fabs(p[0][0]-p[1][0])<1e-9&&fabs(p[0][1]-p[1][1])<1e-9); }
'''}
DEMO='cc_demo demo.c; "$T/demo"'
