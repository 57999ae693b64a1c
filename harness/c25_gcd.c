/* C25: the GCD test: enumerated pairs at the head of a mixed stream, all widths, all short histories of sample sizes. */
#include "ref.h"
static Script S_; static char N_[400]; static const char *nm(void){ script_name(&S_,N_,sizeof N_); return N_; }
static const ld KP[41]={0,5.39e-09L,6.077e-08L,4.8421e-07L,2.94869e-06L,1.443266e-05L,5.908569e-05L,0.00020658047L,0.00062764766L,0.00167993762L,0.00399620143L,0.00851629626L,0.01635214339L,0.02843154488L,0.04493723812L,0.06476525706L,0.08533638862L,0.1030000214L,0.11407058851L,0.11604146948L,0.10853040184L,0.09336837411L,0.07389607162L,0.05380182248L,0.03601960159L,0.02215902902L,0.01251328472L,0.00647884418L,0.00306981507L,0.00132828179L,0.00052381841L,0.00018764452L,6.084138e-05L,1.779885e-05L,4.66795e-06L,1.09504e-06L,2.2668e-07L,4.104e-08L,6.42e-09L,8.4e-10L,1.4e-10L};
static Rb R_; static ld *tails; static long ntails;
static uint32_t nz(void){ uint32_t v; do v=rb_bits(&R_,32); while(!v); return v; }
static int allzero(void){ if(S_.kind!=SK_PERIODIC||S_.tail) return 0; for(int i=0;i<S_.n;i++) if(S_.words[i]) return 0; return 1; }
static void start(void){ script_install(&S_); memset(&R_,0,sizeof R_); R_.s=&S_; }
static ld tail(long i){ if(!tails){ ntails=100000; tails=calloc(ntails+1,sizeof(ld)); for(long j=ntails-1;j>=1;j--) tails[j]=tails[j+1]+1/((ld)j*j); } return tails[i]; }
static void run(unsigned ts,int k){ int T=num_of("marsaglia_tsang_gcd"); tst_open(T,ts,0,1,k+1); dh_test_types[T]->test(t_cur,k); ld x[41]={0},y[41]; const ld g=6/(3.14159265358979323846264338327950288L*3.14159265358979323846264338327950288L); long G=sqrtl(ts*g/100); ld *gx=calloc(G+1,sizeof(ld)),*gy=calloc(G+1,sizeof(ld));
  for(unsigned t=0;t<ts;t++){ uint32_t a=nz(),b=nz(); int n=0; while(b){ uint32_t c=a%b; a=b; b=c; n++; } x[n>40?40:n]++; if(G) gx[a>=G?G-1:a]++; }
  for(int i=0;i<41;i++) y[i]=ts*KP[i]; gx[0]=0; if(G>1) gx[1]=0; for(long i=2;i<G;i++) gy[i]=ts*g*(i==G-1?tail(i):1/((ld)i*i)); int deg; ld e=r_v(x,y,41,5,0,&deg); if(!deg&&!r_edge(y,41,5)) p_cmp(TP(0,k),e,"marsaglia_tsang_gcd steps %s t%u run %d",nm(),ts,k); else if(!(TP(0,k)>=0&&TP(0,k)<=1)) vp_fail("%s t%u: p-value %g",nm(),ts,TP(0,k));
  e=r_v(gx,gy,G,5,0,&deg); if(!deg&&!r_edge(gy,G,5)) p_cmp(TP(1,k),e,"marsaglia_tsang_gcd divisors %s t%u run %d",nm(),ts,k); else if(!(TP(1,k)>=0&&TP(1,k)<=1)) vp_fail("%s t%u: p-value %g (divisors)",nm(),ts,TP(1,k)); free(gx); free(gy); vp_stat("transitions",ts); tst_close(); }
static void pair(uint32_t a,uint32_t b,unsigned ts){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=32; S_.n=2; S_.tail=1; S_.a=3; S_.words[0]=a; S_.words[1]=b; start(); run(ts,0); }
int main(int argc,char **argv){
  vp_init(argc,argv); tst_init(); int X=vp_thorough, MX=X?160:64;
  for(int a=1;a<=MX;a++) if(vp_begin("pairs/%d",a)) for(int b=1;b<=MX&&!vp_failed();b++) pair(a,b,2000);
  /* every two consecutive Fibonacci numbers, scaled; powers; extremes */
  if(vp_begin("fibonacci")){ uint64_t f=1,g=1; while(g<(1ull<<32)){ pair(g,f,3000); pair(f,g,3000); if(g*3<(1ull<<32)){ pair(g*3,f*3,3000); } uint64_t h=f+g; f=g; g=h; } }
  if(vp_begin("extremes")){ static const uint32_t E[]={0,1,2,3,0x7fffffffu,0x80000000u,0x80000001u,0xfffffffeu,0xffffffffu,0x10000u,0xffff,0xAAAAAAAAu,0x55555555u,0x33333333u}; for(int i=0;i<14;i++) for(int j=0;j<14&&!vp_failed();j++) pair(E[i],E[j],2000); }
  /* every placing of zero words among the first eight */
  if(vp_begin("zeros")) for(int q=0;q<256&&!vp_failed();q++){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=32; S_.n=8; S_.tail=1; S_.a=4; for(int i=0;i<8;i++) S_.words[i]= q>>i&1?0:1000+77*i; start(); run(2000,0); }
  const unsigned TS[]={1,7,164,165,500,1480,1500,4000,4001,60000}; const int WD[]={32,31,24,16,8,13,20,27,9,30};
  for(int wi=0;wi<(X?10:7);wi++) for(int ti=0;ti<10;ti++) if(vp_begin("w%d/t%u",WD[wi],TS[ti])) for(int f=0;(TS[ti]>5000?script_family(f,WD[wi],&S_)&&f<4:st_enum(f,WD[wi],2,&S_))&&!vp_failed();f++){ if(allzero()) continue; start(); run(TS[ti],0); run(TS[ti],1); }
  /* all histories of three sample sizes in one process */
  const unsigned H[]={100,170,1500,8000,400}; for(int i=0;i<5;i++) for(int j=0;j<5;j++) if(vp_begin("history/%u,%u",H[i],H[j])) for(int k=0;k<5&&!vp_failed();k++){ memset(&S_,0,sizeof S_); S_.kind=SK_MIX; S_.a=9; S_.width=k&1?24:32; start(); run(H[i],0); run(H[j],0); run(H[k],1); }
  /* rare step counts: every pair of neighbouring Fibonacci numbers at the head of a stream so long that the lowest bins of the table count on their own */
  if(vp_begin("rare")){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=32; S_.tail=1; S_.a=12; uint64_t f=1836311903u,g=2971215073u; while(S_.n+8<=256){ for(int r=0;r<3;r++){ S_.words[S_.n++]=g; S_.words[S_.n++]=f; } uint64_t h=g-f; g=f; f=h; if(f<100) break; } start(); run(2500000,0); }
  for(int a=0;a<(X?8:4);a++) if(vp_begin("long/%d",a)){ memset(&S_,0,sizeof S_); S_.kind=SK_MIX; S_.a=20+a; S_.width= a&1?31:32; start(); run(X?10000000:1500000,0); }
  for(int a=0;a<2;a++) if(vp_begin("standard/%d",a)){ memset(&S_,0,sizeof S_); S_.kind=SK_MIX; S_.a=70+a; S_.width=32; start(); run(10000000,0); }
  return vp_done();
}
