ID="c01-narrow-carry"; PROPERTY="C01"
NEEDS="a generator narrower than 16 bits, so that one word is assembled from at least three outputs"
BREAKS="get_uint_rand() takes only the single next output when several are needed to fill a word: bits are dropped from narrow generators"
EDITS=[("libdieharder/bits.c"," while(bleft > rmax_bits){\n   /* Get a bits_rand's worth"," while(bleft > rmax_bits + 1){\n   /* Get a bits_rand's worth")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
static int w; static unsigned n;
static void set(void*s,unsigned long x){n=0;} static unsigned long val(unsigned i){ return (i*2654435761u>>7)&((1u<<w)-1); }
static unsigned long get(void*s){ return val(n++); } static double getd(void*s){ puts("OK"); return 0; }
int main(){ for(w=5;w<=31;w++){ static gsl_rng_type t; t.name="n"; t.max=(1u<<w)-1; t.size=8; t.set=set; t.get=get; t.get_double=getd;
  rng=gsl_rng_alloc(&t); gsl_rng_set(rng,1); rmax_bits=w; rmax_mask=t.max; random_max=t.max; rmax=0; reset_bit_buffers();
  unsigned long k=0; for(int i=0;i<200;i++){ unsigned x=get_uint_rand(rng),e=0; for(int b=0;b<32;b++,k++) e|=((val(k/w)>>(k%w))&1)<<b; if(x!=e){ printf("width %d word %d\n",w,i); return 1; } } }
  puts("OK"); return 0; }
'''}
DEMO='cc_demo demo.c; "$T/demo" | grep -q OK'
