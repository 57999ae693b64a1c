ID="c08-accumulate"; PROPERTY="C08"
NEEDS="looking past the first word of the combined generator"
BREAKS="the combined generator keeps folding its previous output into the next one, so from the second word on the stream is not the exclusive-or of the components' streams"
EDITS=[("libdieharder/rng_XOR.c"," state->XOR_rnd = gsl_rng_get(state->grngs[1]);\n"," state->XOR_rnd ^= gsl_rng_get(state->grngs[1]);\n"),
       ("libdieharder/rng_XOR.c"," seed_seed = s;\n"," seed_seed = s;\n state->XOR_rnd = 0;\n")]
FILES={"demo.c":r'''
#include "dieharder.h"
int main(){ set_globals(); dieharder_rng_types(); gnumbs[0]=207; gnumbs[1]=13; gnumbs[2]=39; gvcount=3; gsl_rng*x=gsl_rng_alloc(dh_rng_types[207]); gsl_rng_set(x,77);
 gsl_rng*s=gsl_rng_alloc(dh_rng_types[14]); gsl_rng_set(s,77); gsl_rng*a=gsl_rng_alloc(dh_rng_types[13]),*b=gsl_rng_alloc(dh_rng_types[39]); gsl_rng_set(a,gsl_rng_get(s)); gsl_rng_set(b,gsl_rng_get(s));
 for(int i=0;i<10;i++){ unsigned e=gsl_rng_get(a)^gsl_rng_get(b); if((unsigned)gsl_rng_get(x)!=e){ puts("BAD"); return 1; } } puts("OK"); return 0; }
'''}
DEMO='cc_demo demo.c; "$T/demo" | grep -q OK'
