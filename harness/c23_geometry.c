/* C23: minimum-distance and parking tests: every small point set, and structured streams, against brute force. */
#include "ref.h"
static Script S_; static char N_[400]; static const char *nm(void){ script_name(&S_,N_,sizeof N_); return N_; }
/* 1-exp(-x) loses what lies below the machine precision */
static void pd_cmp(double g,ld e,const char *what,unsigned ts,int run){ if(fabsl(g-e)<=2e-15L){ vp_stat("states",1); vp_stat("traces",1); return; } if(fabsl(g-e)<=1e-11L*fabsl(e)+4e-15L){ vp_stat("states",1); vp_stat("traces",1); return; } p_cmp(g,e,"%s %s t%u run %d",what,nm(),ts,run); }
static int allzero(void){ if(S_.kind!=SK_PERIODIC||S_.tail) return 0; for(int i=0;i<S_.n;i++) if(S_.words[i]) return 0; return 1; }
static double pt[20000][5];
static ld brute(unsigned n,int d){ double m=1e300; for(unsigned i=0;i<n;i++) for(unsigned j=0;j<i;j++){ double s=0; for(int k=0;k<d;k++){ double q=pt[i][k]-pt[j][k]; s+=q*q; } if(s<m) m=s; } return sqrtl(m); }
static void draw(Rb *r,unsigned n,int d,double sc){ for(unsigned i=0;i<n;i++) for(int k=0;k<d;k++) pt[i][k]=sc*rb_unipos(r); }
static void dim(const char *n,unsigned d){ if(t_cur[0]->ntuple!=d) vp_fail("%s reports %u dimensions",n,t_cur[0]->ntuple); }
static void two(unsigned ts,int runs){ if(allzero()) return; int T=num_of("diehard_2dsphere"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,0,1,runs); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); draw(&r,ts,2,10000); ld m=brute(ts,2); pd_cmp(TP(0,k),-expm1l(-m*m/0.995L),"diehard_2dsphere",ts,k); dim("diehard_2dsphere",2); vp_stat("transitions",ts); vp_outcome("%.9Lg",m); } tst_close(); }
static void three(int runs){ if(allzero()) return; int T=num_of("diehard_3dsphere"); script_install(&S_); Rb r={&S_}; tst_open(T,4000,0,1,runs); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); draw(&r,4000,3,1000); ld m=brute(4000,3); pd_cmp(TP(0,k),-expm1l(-m*m*m/30),"diehard_3dsphere",4000,k); dim("diehard_3dsphere",3); vp_stat("transitions",4000); vp_outcome("%.9Lg",m); } tst_close(); }
static void md(int d,unsigned ts,int runs){ if(allzero()) return; static const ld Q[]={0,0,0.4135L,0.5312L,0.6202L,1.3789L}, VB[]={1,2,3.14159265358979323846264338327950288L,4*3.14159265358979323846264338327950288L/3,3.14159265358979323846264338327950288L*3.14159265358979323846264338327950288L/2,8*3.14159265358979323846264338327950288L*3.14159265358979323846264338327950288L/15}; int T=num_of("rgb_minimum_distance"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,d,1,runs); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); draw(&r,ts,d,1); ld m=brute(ts,d), V=VB[d]*powl(m,d), e=1-expl(-(ld)ts*(ts-1)*V/2)*(1+(2+Q[d])/6*(ld)ts*ts*ts*V*V); if(e<0) e=0; char w[60]; snprintf(w,sizeof w,"rgb_minimum_distance d%d",d); pd_cmp(TP(0,k),e,w,ts,k); if(t_cur[0]->ntuple!=d) vp_fail("rgb_minimum_distance reports n-tuple %u",t_cur[0]->ntuple); vp_stat("transitions",ts); vp_outcome("%.9Lg",m); } tst_close(); }
static void park(int runs){ int T=num_of("diehard_parking_lot"); script_install(&S_); Rb r={&S_}; tst_open(T,12000,0,1,runs); static double X[12000],Y[12000]; for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); int n=0; for(int t=0;t<12000;t++){ double x=100.0*rb_uni(&r), y=100.0*rb_uni(&r); int c=0; for(int i=n-1;i>=0&&!c;i--) c= fabs(X[i]-x)<=1&&fabs(Y[i]-y)<=1; if(!c){ X[n]=x; Y[n]=y; n++; } } char w[60]; snprintf(w,sizeof w,"diehard_parking_lot (%d parked)",n); p_cmp(TP(0,k),r_x(n,3523,21.9L),"%s %s run %d",w,nm(),k); vp_stat("transitions",12000); vp_outcome("%d",n); } tst_close(); }
int main(int argc,char **argv){
  vp_init(argc,argv); tst_init(); int maxb=vp_thorough?18:15;
  for(int d=2;d<=5;d++) for(int n=2;n<=4;n++) for(int w=1;w<=6;w++) if(d*n*w<=maxb) if(vp_begin("all/d%d/n%d/w%d",d,n,w)) for(unsigned long q=1;q<1ul<<(d*n*w)&&!vp_failed();q++){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=w; S_.n=d*n; for(int i=0;i<d*n;i++) S_.words[i]=q>>(i*w)&((1u<<w)-1); md(d,n,1); if(d==2) two(n,1); }
  /* the closest pair at every pair of positions of the list, with every order of first coordinates: two points moved next to each other in a mixed stream */
  for(int d=2;d<=5;d++) if(vp_begin("pair/d%d",d)) for(int n=3;n<=(vp_thorough?24:12);n++) for(int i=0;i<n;i++) for(int j=0;j<i;j++) for(int c=0;c<d&&!vp_failed();c++){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=24; S_.n=d*n; Script m={.kind=SK_MIX,.a=n*31+i*7+j,.width=24}; for(int k=0;k<d*n;k++) S_.words[k]=script_word(&m,k)|1; for(int k=0;k<d;k++) S_.words[i*d+k]=S_.words[j*d+k]; S_.words[i*d+c]^=0x100; md(d,n,1); if(d==2) two(n,1); }
  /* all points in a thin strip (first coordinates nearly equal), so that the closest pair can have hundreds of points between it in the sorted order */
  for(int d=2;d<=5;d++){ static const int NP[]={100,400,1500}; for(int z=0;z<(d==2?2:3);z++) for(int a=0;a<8;a++) if(vp_begin("strip/d%d/n%d/%d",d,NP[z],a)) for(int b=0;b<8&&!vp_failed();b++) if(a!=b){ int n=NP[z], ia=(long)a*(n-1)/7, ib=(long)b*(n-1)/7; memset(&S_,0,sizeof S_); S_.kind=SK_PATCH; S_.width=32; S_.a=7000+a*8+b; S_.n=d; S_.c= z==1?0x3fff:0xfff; S_.b=(uint64_t)ia*d; for(int k=0;k<d;k++) S_.words[k]=script_word(&S_,(long)ib*d+k); S_.words[0]^=S_.c/2+1; md(d,n,1); if(d==2) two(n,1); }
    if(d==3) for(int a=0;a<8;a++) if(vp_begin("strip3/%d",a)) for(int b=0;b<8&&!vp_failed();b++) if(a!=b&&(vp_thorough||(a+b)%4==1)){ memset(&S_,0,sizeof S_); S_.kind=SK_PATCH; S_.width=32; S_.a=7700+a*8+b; S_.n=3; S_.c=0x7fff; S_.b=(uint64_t)(a*3999L/7)*3; for(int k=0;k<3;k++) S_.words[k]=script_word(&S_,(b*3999L/7)*3+k); S_.words[0]^=0x4000; three(1); } }
  /* large point sets: the closest pair at chosen list positions (first, second, middle, last ...), as far apart in the list as possible or next to each other */
  for(int d=2;d<=5;d++){ const int n=4000, IX[]={0,1,2,3,255,256,1023,1024,1999,2000,2047,3071,3995,3997,3998,3999}; for(int a=0;a<16;a++) if(vp_begin("far/d%d/%d",d,a)) for(int b=0;b<16&&!vp_failed();b++) if(a!=b&&(vp_thorough||d==3||((a<2||a>13)&&(b<2||b>13||b==8)))){ memset(&S_,0,sizeof S_); S_.kind=SK_PATCH; S_.width=32; S_.a=900+a*16+b; Script m={.kind=SK_MIX,.a=S_.a,.width=32}; S_.b=(uint64_t)IX[a]*d; S_.n=d; for(int k=0;k<d;k++) S_.words[k]=script_word(&m,(long)IX[b]*d+k); S_.words[b%d]^=1u<<14; if(d==3) three(1); if(a<b){ md(d,n,1); if(d==2) two(n,1); } } }
  const int WD[]={32,31,24,16,8,13,20,27,9,30}; const unsigned TS[]={2,3,10,100,1000,4001};
  for(int wi=0;wi<(vp_thorough?10:7);wi++){ int w=WD[wi]; for(int ti=0;ti<6;ti++){ unsigned ts=TS[ti]; for(int d=2;d<=5;d++) if(vp_begin("mindist%d/w%d/t%u",d,w,ts)) for(int f=0;st_enum(f,w,ts<=100?3:1,&S_)&&!vp_failed();f++) md(d,ts,2); if(vp_begin("2dsphere/w%d/t%u",w,ts)) for(int f=0;st_enum(f,w,ts<=100?3:1,&S_)&&!vp_failed();f++) two(ts,2); }
   for(int h=0;h<3;h++){ if(vp_begin("3dsphere/w%d/%d",w,h)) for(int f=h;st_enum(f,w,1,&S_)&&!vp_failed();f+=3) three(2); if(vp_begin("parking/w%d/%d",w,h)) for(int f=h;st_enum(f,w,vp_thorough?3:2,&S_)&&!vp_failed();f+=3) park(2); } }
  for(int a=0;a<(vp_thorough?12:4);a++){ memset(&S_,0,sizeof S_); S_.kind=SK_MIX; S_.a=50+a; S_.width=32; if(vp_begin("long/mix%d",a)){ two(8000,2); md(2+a%4,10000,2); three(2); park(3); } }
  return vp_done();
}
