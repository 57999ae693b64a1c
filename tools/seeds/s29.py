ID="c19-narrow-cycle"; PROPERTY="C19"
NEEDS="the specific-byte test with a generator narrower than 32 bits"
BREAKS="the byte position cycles over the generator's width instead of over the 32 bits of the assembled word, so other bytes than the documented ones are scored"
EDITS=[("libdieharder/diehard_count_1s_byte.c","   boffset = t%32;","   boffset = t%rmax_bits;")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
static unsigned long cnt; static unsigned long g(void *v){ (void)v; cnt=(cnt*6364136223846793005UL+1442695040888963407UL); return cnt>>40&0xffff; } static double gd(void *v){ return g(v)/65536.0; } static void st(void *v,unsigned long s){ (void)v; cnt=s; }
static const gsl_rng_type T16={"t16",0xffff,0,8,st,g,gd};
#define N 256000
static double run(void){ Test **t=create_test(&diehard_count_1s_byte_dtest,N,1); rng=gsl_rng_alloc(&T16); gsl_rng_set(rng,1); random_max=0xffff; rmax=0; rmax_bits=16; rmax_mask=0xffff; reset_bit_buffers(); diehard_count_1s_byte(t,0); return t[0]->pvalues[0]; }
/* reference: the byte at offset t%32 of every 32-bit word made of two 16-bit values (the first one high or low) */
static double ref(int high){ static const int L[9]={0,0,0,1,2,3,4,4,4}; static const double P[5]={37./256,56./256,70./256,56./256,37./256}; Vtest v4,v5; Vtest_create(&v4,625); Vtest_create(&v5,3125); v4.cutoff=v5.cutoff=5.0; gsl_rng *r=gsl_rng_alloc(&T16); gsl_rng_set(r,1); unsigned ix=0;
 for(int i=0;i<625;i++){ v4.x[i]=0; v4.y[i]=N; for(int j=i,k=0;k<4;k++,j/=5) v4.y[i]*=P[j%5]; } for(int i=0;i<3125;i++){ v5.x[i]=0; v5.y[i]=N; for(int j=i,k=0;k<5;k++,j/=5) v5.y[i]*=P[j%5]; }
 for(unsigned t=0;t<N;t++){ for(int k=0;k<5;k++){ unsigned a=gsl_rng_get(r),b=gsl_rng_get(r),w=high?a<<16|b:b<<16|a,o=t%32; b=(o?w>>o|w<<(32-o):w)&0xff; ix=(ix*5+L[__builtin_popcount(b)])%3125; } v4.x[ix%625]++; v5.x[ix]++; }
 Vtest_eval(&v4); Vtest_eval(&v5); Xtest p; p.npts=N; p.y=2500; p.sigma=sqrt(5000.0); p.x=v5.chisq-v4.chisq; Xtest_eval(&p); return p.pvalue; }
int main(void){ double a=run(),b=ref(0),c=ref(1); printf("%.9g %.9g %.9g\n",a,b,c); return !(fabs(a-b)<1e-9 || fabs(a-c)<1e-9); }
'''}
DEMO='cc_demo demo.c; "$T/demo"'
