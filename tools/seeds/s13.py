ID="c04-second-count"; PROPERTY="C04"
NEEDS="a process that opens two formatted files, the second declaring a different count"
BREAKS="the count declared by the first formatted file is kept for every later one, so the second file wraps too early or is read past its end"
EDITS=[("libdieharder/rng_file_input.c","       state->flen = atoi(splitbuf[1]);\n       filecount = state->flen;\n","       if(filecount == 0) filecount = atoi(splitbuf[1]);\n       state->flen = filecount;\n")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
int main(int c,char**v){ strcpy(filename,v[1]); gsl_rng*a=gsl_rng_alloc(gsl_rng_file_input); gsl_rng_set(a,1); for(int i=0;i<2;i++) gsl_rng_get(a); gsl_rng_free(a);
 strcpy(filename,v[2]); a=gsl_rng_alloc(gsl_rng_file_input); gsl_rng_set(a,1); for(int i=0;i<4;i++) if(gsl_rng_get(a)!=i+1) return 1; return 0; }
'''}
DEMO='printf "type: d\\ncount: 2\\nnumbit: 32\\n7\\n8\\n" > "$T/f"; printf "type: d\\ncount: 4\\nnumbit: 32\\n1\\n2\\n3\\n4\\n" > "$T/g"; cc_demo demo.c; "$T/demo" "$T/f" "$T/g"'
