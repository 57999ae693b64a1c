ID="c20-wide-rank"; PROPERTY="C20"
NEEDS="a bit matrix one column wider than a machine word, whose columns beyond the first word matter to the rank"
BREAKS="binary_rank() stops eliminating one word too early for matrices of 33 (65, ...) columns and returns a rank that is too small"
EDITS=[("libdieharder/rank.c","uint_col_max = (ncols-1)/s_uint;","uint_col_max = (ncols > 1) ? (ncols-2)/s_uint : 0;")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
int main(void){ uint r0[2]={1,1},r1[2]={1,0},*m[2]={r0,r1}; int k=binary_rank(m,2,33); printf("%d\n",k); return k!=2; }
'''}
DEMO='cc_demo demo.c; "$T/demo"'
