ID="c27-carry-reseed"; PROPERTY="C27"
NEEDS="reseeding a superkiss generator that has been used"
BREAKS="a reseed leaves the multiply-with-carry part's carry where the old stream left it, so the stream is not the one the seed determines"
EDITS=[("libdieharder/rng_superkiss.c"," state->carry=362436;"," if(state->xs == 0) state->carry=362436;")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
int main(void){ dieharder_rng_types(); gsl_rng*a=gsl_rng_alloc(gsl_rng_superkiss),*b=gsl_rng_alloc(gsl_rng_superkiss); gsl_rng_set(a,7); gsl_rng_set(b,9); for(int i=0;i<10;i++) gsl_rng_get(b); gsl_rng_set(b,7); for(int i=0;i<10;i++) if(gsl_rng_get(a)!=gsl_rng_get(b)) return 1; return 0; }
'''}
DEMO='cc_demo demo.c; "$T/demo"'
