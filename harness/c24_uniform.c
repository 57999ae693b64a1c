/* C24: squeeze, overlapping sums, craps, lagged sums and the KS self-test on enumerated streams of deviates. */
#include "ref.h"
static Script S_; static char N_[400]; static const char *nm(void){ script_name(&S_,N_,sizeof N_); return N_; }
static const ld SQ[43]={0.00002103L,0.00005779L,0.00017554L,0.00046732L,0.00110783L,0.00236784L,0.00460944L,0.00824116L,0.01362781L,0.02096849L,0.03017612L,0.04080197L,0.05204203L,0.06283828L,0.07205637L,0.07869451L,0.08206755L,0.08191935L,0.07844008L,0.07219412L,0.06398679L,0.05470931L,0.04519852L,0.03613661L,0.02800028L,0.02105567L,0.01538652L,0.01094020L,0.00757796L,0.00511956L,0.00337726L,0.00217787L,0.00137439L,0.00084970L,0.00051518L,0.00030666L,0.00017939L,0.00010324L,0.00005851L,0.00003269L,0.00001803L,0.00000982L,0.00001121L};
static void unspec(double p){ vp_stat("states",1); if(!(p>=0&&p<=1)) vp_fail("%s: p-value %g",nm(),p); }
static void squeeze(unsigned ts,int runs){ int T=num_of("diehard_squeeze"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,0,1,runs); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); ld x[43]={0},y[43]; for(unsigned t=0;t<ts;t++){ double v=2147483647; int j=0; while(v!=1&&j<48){ v=ceil(v*rb_uni(&r)); j++; } x[j<6?0:j-6]++; } for(int i=0;i<43;i++) y[i]=ts*SQ[i]; int deg; ld e=r_v(x,y,43,5,0,&deg); vp_stat("transitions",r.pos); if(!deg&&!r_edge(y,43,5)) p_cmp(TP(0,k),e,"diehard_squeeze %s t%u run %d",nm(),ts,k); else unspec(TP(0,k)); } if(script_pos!=r.pos) vp_fail("diehard_squeeze %s t%u drew %ld numbers, expected %ld",nm(),ts,script_pos,r.pos); tst_close(); }
static void sums(unsigned m,int runs){ int T=num_of("diehard_sums"); script_install(&S_); Rb r={&S_}; tst_open(T,m,0,1,runs); ld *u=malloc(2*m*sizeof(ld)),*y=malloc(m*sizeof(ld)); double *x=malloc(m*sizeof(double)); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); for(unsigned i=0;i<2*m-1;i++) u[i]=rb_uni(&r); for(unsigned t=0;t<m;t++){ ld s=0; for(unsigned i=0;i<m;i++) s+=u[t+i]; y[t]=(s-0.5L*m)*sqrtl(12); }
   for(unsigned t=0;t<m;t++){ ld v; if(t==0) v=y[0]/sqrtl(m); else if(t==1) v=-y[0]/sqrtl(m)*(m-1)/sqrtl(2.0L*m-1)+y[1]*sqrtl(m/(2.0L*m-1)); else { ld a=2.0L*m+1-t,b=2*a-2; v=y[t-2]/sqrtl(a*b)-y[t-1]*sqrtl((a-1)/(b+2))+y[t]*sqrtl(a/b); } x[t]=r_phi(v); } double e=kstest(x,m); p_cmp(TP(0,k),e,"diehard_sums %s t%u run %d",nm(),m,k); vp_stat("transitions",m); } if(script_pos!=r.pos) vp_fail("diehard_sums %s t%u drew %ld numbers, expected %ld",nm(),m,script_pos,r.pos); free(u); free(y); free(x); tst_close(); }
static int endless(void){ if(S_.kind!=SK_PERIODIC||S_.tail) return 0; uint64_t range= S_.width>=32?0xffffffffull:(1ull<<S_.width)-1; for(int i=0;i<S_.n;i++) if(S_.words[i]/(range/6)<6) return 0; return 1; }
static int roll(Rb *r){ return 1+rb_int(r,6); }
static void craps(unsigned ts,int runs){ if(endless()) return; int T=num_of("diehard_craps"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,0,1,runs); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); ld x[21]={0},y[21],sum=1/3.0L; long wins=0; y[0]=sum; for(int i=1;i<20;i++){ y[i]=(27*powl(0.75L,i-1)+40*powl(13/18.0L,i-1)+55*powl(25/36.0L,i-1))/648; sum+=y[i]; } y[20]=1-sum; for(int i=0;i<21;i++) y[i]*=ts;
   for(unsigned t=0;t<ts;t++){ int a=roll(&r),n=1; a+=roll(&r); int win; if(a==7||a==11) win=1; else if(a==2||a==3||a==12) win=0; else for(;;){ n++; int b=roll(&r); b+=roll(&r); if(b==7){ win=0; break; } if(b==a){ win=1; break; } } wins+=win; x[n>21?20:n-1]++; }
   ld mu=ts*244.0L/495; p_cmp(TP(0,k),r_x(wins,mu,sqrtl(mu*251/495)),"diehard_craps wins %s t%u run %d",nm(),ts,k); int deg; ld e=r_v(x,y,21,5,0,&deg); if(!deg&&!r_edge(y,21,5)) p_cmp(TP(1,k),e,"diehard_craps throws %s t%u run %d",nm(),ts,k); else unspec(TP(1,k)); vp_stat("transitions",ts); } if(script_pos!=r.pos) vp_fail("diehard_craps %s t%u drew %ld numbers, expected %ld",nm(),ts,script_pos,r.pos); tst_close(); }
static void lagged(unsigned ts,unsigned lag,int runs){ int T=num_of("rgb_lagged_sum"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,lag,1,runs); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); ld s=0; for(unsigned t=0;t<ts;t++){ r.pos+=lag; s+=rb_uni(&r); } p_cmp(TP(0,k),r_x(s,ts/2.0L,sqrtl(ts/12.0L)),"rgb_lagged_sums lag %u %s t%u run %d",lag,nm(),ts,k); if(t_cur[0]->ntuple!=lag) vp_fail("rgb_lagged_sums reports n-tuple %u",t_cur[0]->ntuple); vp_stat("transitions",ts); } if(script_pos!=r.pos) vp_fail("rgb_lagged_sums %s t%u drew %ld numbers, expected %ld",nm(),ts,script_pos,r.pos); tst_close(); }
static int allzero(void){ if(S_.kind!=SK_PERIODIC||S_.tail) return 0; for(int i=0;i<S_.n;i++) if(S_.words[i]) return 0; return 1; }
static void kst(unsigned ts,int runs,int ks){ if(allzero()) return; int T=num_of("rgb_kstest_test"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,0,1,runs); ks_test=ks; double *x=malloc(ts*sizeof(double)); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); for(unsigned t=0;t<ts;t++) x[t]=rb_unipos(&r); double e= ks>=3?kstest_kuiper(x,ts):kstest(x,ts); p_cmp(TP(0,k),e,"rgb_kstest_test method %d %s t%u run %d",ks,nm(),ts,k); vp_stat("transitions",ts); } ks_test=0; if(script_pos!=r.pos) vp_fail("rgb_kstest_test %s t%u drew %ld numbers, expected %ld",nm(),ts,script_pos,r.pos); free(x); tst_close(); }
static void seq(unsigned long q,int n,int base,int w,int lo,int step){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=w; S_.n=n; for(int i=0;i<n;i++){ S_.words[i]=lo+step*(q%base); q/=base; } }
static unsigned long pw(int b,int n){ unsigned long t=1; while(n--) t*=b; return t; }
int main(int argc,char **argv){
  vp_init(argc,argv); tst_init(); int X=vp_thorough;
  /* craps: every repeating sequence of up to 6 (7) faces; squeeze: of up to 5 (6) deviates k/8; sums and lagged sums: every sequence of deviates k/4 or k/8 */
  for(int n=1;n<=6+X;n++) for(int p=0;p<8;p++) if(vp_begin("craps/all%d/%d",n,p)) for(unsigned long q=p;q<pw(6,n)&&!vp_failed();q+=8){ seq(q,n,6,8,3,42); craps(30,1); }
  for(int n=1;n<=5+X;n++) for(int p=0;p<8;p++) if(vp_begin("squeeze/all%d/%d",n,p)) for(unsigned long q=p;q<pw(8,n)&&!vp_failed();q+=8){ seq(q,n,8,3,0,1); squeeze(q%3?100:147,1); }
  for(int m=1;m<=4;m++) for(int p=0;p<8;p++) if(vp_begin("sums/all%d/%d",m,p)){ int b=m<4?4:3+X; for(unsigned long q=p;q<pw(b,2*m-1)&&!vp_failed();q+=8){ seq(q,2*m-1,b,2,0,1); sums(m,1); } }
  for(int n=1;n<=6;n++) for(unsigned lag=0;lag<=3;lag++) if(vp_begin("lagged/all%d/lag%u",n,lag)) for(unsigned long q=0;q<pw(4,n)&&!vp_failed();q++){ seq(q,n,4,2,0,1); for(unsigned ts=1;ts<=5;ts+=2) lagged(ts,lag,2); }
  for(int n=1;n<=5;n++) for(int ks=0;ks<4;ks++) if(vp_begin("kstest/all%d/method%d",n,ks)) for(unsigned long q=1;q<pw(4,n)&&!vp_failed();q++){ seq(q,n,4,2,0,1); kst(n,1,ks); kst(2*n+1,1,ks); }
  const int WD[]={32,31,24,16,8,13,20,27,9,30}; const unsigned TS[]={1,2,3,10,99,500,2003};
  for(int wi=0;wi<(X?10:7);wi++){ int w=WD[wi]; for(int ti=0;ti<7;ti++){ unsigned ts=TS[ti];
    if(vp_begin("squeeze/w%d/t%u",w,ts)) for(int f=0;st_enum(f,w,3,&S_)&&!vp_failed();f++) squeeze(ts,2);
    if(vp_begin("craps/w%d/t%u",w,ts)) for(int f=0;st_enum(f,w,3,&S_)&&!vp_failed();f++) craps(ts,2);
    if(ts<=500&&vp_begin("sums/w%d/t%u",w,ts)) for(int f=0;st_enum(f,w,ts>100?1:2,&S_)&&!vp_failed();f++) sums(ts,2);
    if(vp_begin("kstest/w%d/t%u",w,ts)) for(int f=0;(ts>50?script_family(f,w,&S_)&&f<4:st_enum(f,w,3,&S_))&&!vp_failed();f++) for(int ks=0;ks<4;ks++) kst(ts,2,ks);
    for(unsigned lag=0;lag<=34;lag+= lag<4?1:ts>100?10:3) if(vp_begin("lagged/w%d/t%u/lag%u",w,ts,lag)) for(int f=0;st_enum(f,w,2,&S_)&&!vp_failed();f++) lagged(ts,lag,2); } }
  /* lags past every byte and half-word boundary */
  static const unsigned LG[]={63,64,65,127,128,129,255,256,257,511,512,1000,1023,1024,1025,4096,32767,32768,65535,65536,65537,100000}; for(int i=0;i<22;i++) if(vp_begin("lagged/far%u",LG[i])) for(int f=0;f<(LG[i]>4096?2:6)&&script_family(f,WD[i%7],&S_)&&!vp_failed();f++) for(unsigned ts=1;ts<=9;ts+=4) lagged(ts,LG[i],2);
  for(int a=0;a<(X?12:4);a++) if(vp_begin("long/%d",a)){ int w=WD[a%7]; memset(&S_,0,sizeof S_); S_.kind=SK_MIX; S_.a=70+a; S_.width=w; squeeze(100000,2); craps(200000,2); sums(1000,2); kst(5001+a,1,0); lagged(1000000,a,1); }
  return vp_done();
}
