/* C01: the bit fetcher compiled into the tests: all short histories of request sizes, all widths. */
#include "ref.h"
#include "static_get_bits.c"
static Script S_; static Rb R_;
static void start(void){ script_install(&S_); memset(&R_,0,sizeof R_); R_.s=&S_; }
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0; int X=vp_thorough;
  for(int w=1;w<=32;w++) for(int f=0;f<2;f++) for(int a=1;a<=32;a++) if(vp_begin("fetch/w%d/f%d/first%d",w,f,a)){
    memset(&S_,0,sizeof S_); S_.width=w; if(f){ S_.kind=SK_COUNTER; S_.a=1; S_.b=0x9E3779B1u; } else { S_.kind=SK_MIX; S_.a=3; }
    for(int b=1;b<=32&&!vp_failed();b++) for(int c=1;c<=32&&!vp_failed();c++) for(int d=1;d<=(X?32:1)&&!vp_failed();d++){ start(); int q[6]={a,b,c,X?d:b,a,32}; for(int i=0;i<6;i++){ uint32_t e=rb_bits(&R_,q[i]), m= q[i]==32?0xffffffffu:((1u<<q[i])-1), g=get_rand_bits_uint(q[i],(i&1)?m:0,rng); vp_stat("transitions",1); if(g!=e||script_pos!=R_.pos){ vp_fail("width %d, requests %d,%d,%d,%d,%d,%d: request %d returned %08x after %ld words, expected %08x after %ld",w,q[0],q[1],q[2],q[3],q[4],q[5],i,g,script_pos,e,R_.pos); break; } } vp_stat("states",1); vp_stat("traces",1); } }
  for(int w=1;w<=32;w++) if(vp_begin("ntuple/w%d",w)){ memset(&S_,0,sizeof S_); S_.width=w; S_.kind=SK_MIX; S_.a=9; script_install(&S_); for(int k=0;k<(X?64:16);k++){ uint32_t v= k==0?0:k==1?(w==32?0xffffffffu:(1u<<w)-1):script_word(&S_,k);
     for(int n=1;n<=32;n++) for(int o=0;o<=40&&!vp_failed();o++){ uint32_t m= n==32?0xffffffffu:((1u<<n)-1),e=0; for(int i=0;i<n;i++) e|=((v>>((o+i)%w))&1u)<<i; uint32_t g=get_bit_ntuple_from_uint(v,n,m,o); vp_stat("transitions",1); vp_stat("states",1); if(g!=e) vp_fail("%d bits at offset %d of the %d-bit word %x: %x, expected %x",n,o,w,v,g,e);
       if(w==32&&o<32&&!vp_failed()){ uint32_t h=get_bit_ntuple_from_whole_uint(v,n,m,o); if(h!=e) vp_fail("%d bits at offset %d of the whole word %x: %x, expected %x",n,o,v,h,e); } } } }
  return vp_done();
}
