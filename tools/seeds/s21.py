ID="c16-sigma-once"; PROPERTY="C16"
NEEDS="two lagged-sum tests with different sample counts in one process"
BREAKS="the lagged-sums test computes its standard deviation only once, so a later run with another sample count uses the first one's"
EDITS=[("libdieharder/rgb_lagged_sums.c"," ptest.sigma = sqrt(test[0]->tsamples/12.0);"," if(sigma == 0.0) sigma = sqrt(test[0]->tsamples/12.0);\n ptest.sigma = sigma;"),("libdieharder/rgb_lagged_sums.c"," uint t,i,lag;\n"," static double sigma = 0.0;\n uint t,i,lag;\n")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
static double go(int T,unsigned n){ Test **t=create_test(dh_test_types[T],n,1); gsl_rng_set(rng,5); dh_test_types[T]->test(t,0); return t[0]->pvalues[0]; }
int main(void){ dieharder_test_types(); rng=gsl_rng_alloc(gsl_rng_mt19937); rmax_bits=32; ntuple=2; int T=0; for(int i=0;i<MAXTESTS;i++) if(dh_test_types[i]&&!strcmp(dh_test_types[i]->sname,"rgb_lagged_sum")) T=i;
 int p[2]; pipe(p); double a,b; if(fork()==0){ a=go(T,1000); write(p[1],&a,sizeof a); _exit(0); } read(p[0],&a,sizeof a); go(T,50); b=go(T,1000); return a!=b; }
'''}
DEMO='cc_demo demo.c; "$T/demo"'
