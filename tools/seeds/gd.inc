GD=r'''
/* demo NAME WIDTH KEY TSAMPLES NTUPLE OVERLAP RUNS: runs one test on a fixed synthetic generator of the given width and prints its p-values */
#include <dieharder/libdieharder.h>
static unsigned long long st; static unsigned W_;
static void mset(void*v,unsigned long s){ st=s*0x9E3779B97F4A7C15ULL+1; }
static unsigned long mget(void*v){ st+=0x9E3779B97F4A7C15ULL; unsigned long long z=st; z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; z^=z>>31; return z>>(64-W_); }
static double mdbl(void*v){ return mget(v)/pow(2,W_); }
int main(int c,char**v){ static gsl_rng_type t; W_=atoi(v[2]); t.name="demo"; t.max=W_==32?0xffffffffUL:(1UL<<W_)-1; t.size=8; t.set=mset; t.get=mget; t.get_double=mdbl;
 dieharder_rng_types(); dieharder_test_types(); set_globals(); rng=gsl_rng_alloc(&t); gsl_rng_set(rng,atoi(v[3])); random_max=gsl_rng_max(rng); rmax=random_max; rmax_bits=W_; rmax_mask=random_max; 
 int n=-1; for(int i=0;i<MAXTESTS;i++) if(dh_test_types[i]&&!strcmp(dh_test_types[i]->sname,v[1])) { n=i; break; } if(n<0) return 2;
 tsamples=atoi(v[4]); ntuple=atoi(v[5]); overlap=atoi(v[6]); int R=atoi(v[7]); Test **x=create_test(dh_test_types[n],tsamples,R); reset_bit_buffers();
 for(int r=0;r<R;r++) dh_test_types[n]->test(x,r);
 for(int k=0;k<dh_test_types[n]->nkps;k++) for(int r=0;r<R;r++) printf("%.6f ",x[k]->pvalues[r]); printf("\n"); return 0; }
'''
def RUN(args,exp): return 'cc_demo demo.c; "$T/demo" %s | tee "$T/o"; [ "$(cat "$T/o" | xargs)" = "%s" ]'%(args,exp)
