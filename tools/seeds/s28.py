ID="c07-aes-block"; PROPERTY="C07"
NEEDS="reseeding the AES generator after at least one block of values has been drawn"
BREAKS="seeding no longer clears the feedback block, so the stream after a reseed depends on what was drawn before"
EDITS=[("libdieharder/rng_aes.c","	memset(state, 0, sizeof(*state));	// Zero pos and block","	state->pos = 0;")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
extern const gsl_rng_type *gsl_rng_aes;
int main(void){ unsigned long a[50]; gsl_rng *r=gsl_rng_alloc(gsl_rng_aes); gsl_rng_set(r,7); for(int i=0;i<50;i++) a[i]=gsl_rng_get(r); gsl_rng_set(r,7); for(int i=0;i<50;i++) if(gsl_rng_get(r)!=a[i]){ printf("differs at %d\n",i); return 1; } return 0; }
'''}
DEMO='cc_demo demo.c; "$T/demo"'
