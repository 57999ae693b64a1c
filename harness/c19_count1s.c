/* C19: the count-the-ones tests on enumerated streams; letters, words and cell probabilities rebuilt from the bits. */
#include "ref.h"
static Script S_; static char N_[400]; static const char *nm(void){ script_name(&S_,N_,sizeof N_); return N_; }
static int letter(uint32_t b){ int c=0; b&=255; while(b){ c+=b&1; b>>=1; } return c<=2?0:c>=6?4:c-2; }
static ld y4[625],y5[3125],x4[625],x5[3125],lp[5];
static void expect(ld ts){ static const int ch[9]={1,8,28,56,70,56,28,8,1}; for(int i=0;i<5;i++) lp[i]=0; for(int c=0;c<9;c++) lp[c<=2?0:c>=6?4:c-2]+=ch[c]/256.0L; for(int i=0;i<3125;i++){ ld p=1; int q=i; for(int k=0;k<5;k++){ p*=lp[q%5]; q/=5; if(k==3&&i<625) y4[i]=ts*p; } y5[i]=ts*p; } }
static void one(int byte,unsigned ts,int ov,int runs){ int T=num_of(byte?"diehard_count_1s_byte":"diehard_count_1s_stream"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,0,ov,runs);
  for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); expect(ts); memset(x4,0,sizeof x4); memset(x5,0,sizeof x5); int ix=0;
    if(byte) for(unsigned t=0;t<ts;t++){ for(int j=0;j<5;j++){ uint64_t v=rb_bits(&r,32); v|=v<<32; ix=ix*5%3125+letter(v>>(t%32)); } ix%=3125; x5[ix]++; x4[ix%625]++; }
    else { uint32_t v=rb_bits(&r,32); for(int j=0;j<4;j++) ix=ix*5+letter(v>>(8*j)); for(unsigned t=0;t<ts;t++){ if(t%4==0) v=rb_bits(&r,32); ix=(ix*5+letter(v>>(8*(t%4))))%3125; x5[ix]++; x4[ix%625]++; } }
    long u; ld c4=r_vstat(x4,y4,625,5,&u), c5=r_vstat(x5,y5,3125,5,&u); vp_stat("transitions",ts);
    if(!r_edge(y4,625,5)&&!r_edge(y5,3125,5)) p_cmp(TP(0,k),r_x(c5-c4,2500,sqrtl(5000)),"count-1s %s %s t%u run %d",byte?"byte":"stream",nm(),ts,k); }
  tst_close(); }
int main(int argc,char **argv){
  vp_init(argc,argv); tst_init(); const int WD[]={32,31,24,16,8,13,20,27,9,30};
  const unsigned TS[]={0,1,7,100,777,1000,2001,3003,5000,20000,100001,256000};
  for(int b=0;b<2;b++) for(int wi=0;wi<(vp_thorough?10:7);wi++) for(int ti=0;ti<12;ti++) if(vp_begin("%s/w%d/t%u",b?"byte":"stream",WD[wi],TS[ti])) for(int f=0;st_enum(f,WD[wi],TS[ti]<=777?2:1,&S_)&&!vp_failed();f++) one(b,TS[ti],f&1,2);
  /* every byte value in every byte position, over a well-mixed background */
  for(int b=0;b<2;b++) for(int h=0;h<16;h++) if(vp_begin("%s/bytes/%x",b?"byte":"stream",h)) for(int v=h*16;v<h*16+16&&!vp_failed();v++) for(int q=0;q<4;q++){ memset(&S_,0,sizeof S_); S_.kind=SK_PREFIX; S_.width=32; S_.a=3; S_.b=120+q; S_.c=(uint32_t)v<<(8*q)|(0x5Au<<(8*((q+1)&3))); one(b,b?2300:6000,1,1); }
  return vp_done();
}
