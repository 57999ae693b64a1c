ID="c02-narrow-index"; PROPERTY="C02"
NEEDS="a generator narrower than 32 bits and a bit index beyond the first word of the vector"
BREAKS="get_bit() picks the word by the machine word size instead of the generator's width, so it reads a bit of the wrong word"
EDITS=[("libdieharder/bits.c"," index = (int) (n/rmax_bits);"," index = (int) (n/(8*sizeof(unsigned int)));")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
int main(void){ unsigned int v[4]={0,0x7fffffff,0,0x40000001}; rmax_bits=31; int bad=0;
 for(int n=0;n<124;n++){ int e=v[n/31]>>(30-n%31)&1; if(get_bit(v,n)!=e){ bad++; printf("bit %d\n",n); } } return bad!=0; }
'''}
DEMO='cc_demo demo.c; "$T/demo"'
