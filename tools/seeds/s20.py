ID="c12-exact-cutoff"; PROPERTY="C12"
NEEDS="a cell whose expected count is exactly the cutoff"
BREAKS="cells whose expected count equals the cutoff are pooled with the tail instead of being counted"
EDITS=[("libdieharder/Vtest.c","   if(vtest->y[i] >= vtest->cutoff) {","   if(vtest->y[i] > vtest->cutoff) {")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
int main(void){ Vtest v; Vtest_create(&v,4); double x[4]={7,4,3,6}; for(int i=0;i<4;i++){ v.x[i]=x[i]; v.y[i]=5; } v.cutoff=5; Vtest_eval(&v); double e=gsl_sf_gamma_inc_Q(1.5,(4+1+4+1)/5.0/2); return !(fabs(v.pvalue-e)<1e-9); }
'''}
DEMO='cc_demo demo.c; "$T/demo"'
