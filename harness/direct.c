/* direct.c: lines "gen seed test tsamples ntuple" on standard input; for each, in a process of its own, the library's
 * test on that generator seeded so, with the generator's width set up here from its declared maximum: prints the p-values. */
#include <dieharder/libdieharder.h>
#include <unistd.h>
#include <sys/wait.h>
int main(void){ int g,T; unsigned long s; unsigned ts,nt; static char line[200]; dieharder_rng_types(); dieharder_test_types(); verbose=0; overlap=1; ks_test=0;
  while(fgets(line,sizeof line,stdin)) if(sscanf(line,"%d %lu %d %u %u",&g,&s,&T,&ts,&nt)==5){ fflush(stdout); pid_t c=fork(); if(!c){ alarm(100); rng=gsl_rng_alloc(dh_rng_types[g]); unsigned long m=gsl_rng_max(rng); random_max=m; rmax_bits=0; rmax_mask=0; while(m){ m>>=1; rmax_mask=rmax_mask<<1|1; rmax_bits++; } unsigned sb=rmax_bits,sm=rmax_mask; reset_bit_buffers(); Seed=s; ntuple=nt; gsl_rng_set(rng,s); rmax_bits=sb; rmax_mask=sm; random_max=gsl_rng_max(rng); reset_bit_buffers();
      Dtest *d=dh_test_types[T]; Test **t=create_test(d,ts,1); freopen("/dev/null","w",stderr); d->test(t,0); printf("P"); for(int i=0;i<d->nkps;i++) printf(" %.12f",t[i]->pvalues[0]); printf("\n"); fflush(stdout); _exit(0); }
    int st; waitpid(c,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)){ printf("P died\n"); } fflush(stdout); }
  return 0; }
