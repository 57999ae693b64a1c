ID="c21-float-order"; PROPERTY="C21"
NEEDS="32-bit words that differ only in their low bits inside one tuple"
BREAKS="rgb_permutations compares the words in single precision, so words that differ only in their low bits count as equal and are put into the wrong ordering class"
EDITS=[("libdieharder/rgb_permutations.c","testv[i] = (double) gsl_rng_get(rng);","testv[i] = (float) gsl_rng_get(rng);")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
static unsigned long n;
static void mset(void*v,unsigned long s){ n=0; }
static unsigned long mget(void*v){ n++; unsigned long long z=n*0x9E3779B97F4A7C15ULL; z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return 4000000000UL+(z>>40&4095); }
static double mdbl(void*v){ return mget(v)/4294967296.0; }
int main(void){ static gsl_rng_type t; t.name="demo"; t.max=0xffffffffUL; t.size=8; t.set=mset; t.get=mget; t.get_double=mdbl;
 dieharder_rng_types(); dieharder_test_types(); set_globals(); rng=gsl_rng_alloc(&t); gsl_rng_set(rng,5); random_max=0xffffffff; rmax=random_max; rmax_bits=32; rmax_mask=0xffffffff; int k=-1; for(int i=0;i<MAXTESTS;i++) if(dh_test_types[i]&&!strcmp(dh_test_types[i]->sname,"rgb_permutations")){ k=i; break; }
 tsamples=300; ntuple=3; Test **x=create_test(dh_test_types[k],tsamples,1); dh_test_types[k]->test(x,0); printf("%.6f\n",x[0]->pvalues[0]); return 0; }
'''}
DEMO='cc_demo demo.c; "$T/demo" | tee "$T/o"; [ "$(cat "$T/o" | xargs)" = "@EXP@" ]'
