/* dump_rng: reads lines "gen seed n" on stdin; writes, for each, n words and n uniforms as JSON. */
#include <dieharder/libdieharder.h>
int main(int argc,char **argv){
  int g; unsigned long s; long n; verbose=0; dieharder_rng_types(); reset_bit_buffers();
  if(argc>1 && !strcmp(argv[1],"list")){ for(g=0;g<MAXRNGS;g++) if(dh_rng_types[g]) printf("%d\t%lu\t%lu\t%s\n",g,dh_rng_types[g]->min,dh_rng_types[g]->max,dh_rng_types[g]->name); return 0; }
  if(argc>1 && !strcmp(argv[1],"tests")){ dieharder_test_types(); for(g=0;g<MAXTESTS;g++) if(dh_test_types[g]) printf("%d\t%s\t%d\t%u\t%u\t%d\n",g,dh_test_types[g]->sname,(int)dh_test_types[g]->nkps,(unsigned)dh_test_types[g]->psamples_std,(unsigned)dh_test_types[g]->tsamples_std,0); return 0; }
  if(argc>4 && !strcmp(argv[1],"file")){ strcpy(filename,argv[3]); gsl_rng *r=gsl_rng_alloc(dh_rng_types[atoi(argv[2])]); gsl_rng_set(r,1); printf("["); long m=atol(argv[4]); for(long i=0;i<m;i++) printf("%s%lu",i?",":"",gsl_rng_get(r)); printf("]\n"); return 0; }
  while(scanf("%d %lu %ld",&g,&s,&n)==3){
    gsl_rng *r=gsl_rng_alloc(dh_rng_types[g]); gsl_rng_set(r,s); printf("[[");
    for(long i=0;i<n;i++) printf("%s%lu",i?",":"",gsl_rng_get(r)); printf("],[");
    gsl_rng_set(r,s); for(long i=0;i<n;i++) printf("%s%.17g",i?",":"",gsl_rng_uniform(r)); printf("]]\n"); gsl_rng_free(r);
  }
  return 0;
}
