ID="c03-rewind-count"; PROPERTY="C03"
NEEDS="a raw file that wraps around, and a later reseed with a nonzero seed"
BREAKS="the wrap-around count is no longer reset when the file is reopened by a reseed, so later tests report wrap-arounds that did not happen"
EDITS=[("libdieharder/rng_file_input_raw.c","     state->rtot = 0;\n     state->rewind_cnt = 0;\n","     state->rewind_cnt = state->rtot ? state->rewind_cnt : 0;\n     state->rtot = 0;\n")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
int main(int c,char**v){ strcpy(filename,v[1]); gsl_rng*r=gsl_rng_alloc(gsl_rng_file_input_raw); gsl_rng_set(r,1);
 if(file_input_get_rewind_cnt(r)) return 2; for(int i=0;i<50;i++) gsl_rng_get(r); if(file_input_get_rewind_cnt(r)!=2) return 2;
 gsl_rng_set(r,1); for(int i=0;i<5;i++) gsl_rng_get(r); printf("%u\n",file_input_get_rewind_cnt(r)); return file_input_get_rewind_cnt(r)!=0; }
'''}
DEMO='head -c 80 "$DH" > "$T/f"; cc_demo demo.c; "$T/demo" "$T/f"'
