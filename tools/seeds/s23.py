ID="c29-repeat-filter"; PROPERTY="C29"
NEEDS="a device that supplies the same 32-bit word twice in a row"
BREAKS="a continuous self-test of the device generator silently drops a word equal to the one before it"
EDITS=[("libdieharder/rng_dev_urandom.c","    return j;\n  } else {\n    fprintf(stderr,\"Error: /dev/urandom not open.","    if(j == state->last && state->drawn) return dev_urandom_get(vstate);\n    state->drawn = 1;\n    return (state->last = j);\n  } else {\n    fprintf(stderr,\"Error: /dev/urandom not open."),("libdieharder/rng_dev_urandom.c","    FILE *fp;\n","    FILE *fp;\n    unsigned int last,drawn;\n")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
static unsigned int W[]={11,12,12,13,13,14};
FILE *fopen(const char *n,const char *m){ return fmemopen(W,sizeof W,"r"); }
int main(void){ gsl_rng *r=gsl_rng_alloc(gsl_rng_dev_urandom); gsl_rng_set(r,1); for(int i=0;i<4;i++) if(gsl_rng_get(r)!=W[i]) return 1; return 0; }
'''}
DEMO='cc_demo demo.c; "$T/demo"'
