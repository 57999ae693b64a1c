ID="c25-long-euclid"; PROPERTY="C25"
NEEDS="a pair of words (neighbouring Fibonacci numbers) on which Euclid's algorithm takes more than forty steps, and enough samples for the table's low bins to count"
BREAKS="the step count of the greatest-common-divisor test wraps round instead of being lumped into the last bin"
EDITS=[("libdieharder/marsaglia_tsang_gcd.c","k = (k>KTBLSIZE-1)?KTBLSIZE-1:k;","k = k%KTBLSIZE;")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
static unsigned long long st; static long n;
static void mset(void*v,unsigned long s){ st=s; n=0; }
static unsigned long mget(void*v){ n++; if(n>2000&&n<=2006) return n&1?2971215073UL:1836311903UL; st+=0x9E3779B97F4A7C15ULL; unsigned long long z=st; z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; z^=z>>31; return z>>32; }
static double mdbl(void*v){ return mget(v)/4294967296.0; }
int main(void){ static gsl_rng_type t; t.name="demo"; t.max=0xffffffffUL; t.size=8; t.set=mset; t.get=mget; t.get_double=mdbl;
 dieharder_rng_types(); dieharder_test_types(); set_globals(); rng=gsl_rng_alloc(&t); gsl_rng_set(rng,5); random_max=0xffffffff; rmax=random_max; rmax_bits=32; rmax_mask=0xffffffff; int n=-1; for(int i=0;i<MAXTESTS;i++) if(dh_test_types[i]&&!strcmp(dh_test_types[i]->sname,"marsaglia_tsang_gcd")){ n=i; break; }
 tsamples=2000000; Test **x=create_test(dh_test_types[n],tsamples,1); reset_bit_buffers(); dh_test_types[n]->test(x,0); printf("%.6f %.6f\n",x[0]->pvalues[0],x[1]->pvalues[0]); return 0; }
'''}
DEMO='cc_demo demo.c; "$T/demo" | tee "$T/o"; [ "$(cat "$T/o" | xargs)" = "@EXP@" ]'
