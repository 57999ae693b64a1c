/* C17: monobit, runs, serial, bit-distribution, block-monobit and byte-distribution tests on enumerated
 * streams, against the documented statistics computed from the same words. */
#include "ref.h"
static Script S_; static char N_[400];
static int W_; 
static const char *nm(void){ script_name(&S_,N_,sizeof N_); return N_; }
static int ones(uint32_t v){ int c=0; while(v){ c+=v&1; v>>=1; } return c; }
static void monobit(unsigned ts,int runs){ Rb r={&S_}; script_install(&S_); tst_open(100,ts,0,1,runs); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[100]->test(t_cur,k); ld n=0; for(unsigned i=0;i<ts;i++) n+=ones(rb_word(&r)); ld b=(ld)W_*ts; p_cmp(TP(0,k),r_x(2*n-b,0,sqrtl(b)),"sts_monobit %s t%u run %d",nm(),ts,k); vp_stat("transitions",ts); } tst_close(); }
static void runs_(unsigned ts,int runs){ Rb r={&S_}; script_install(&S_); tst_open(101,ts,0,1,runs); char *b=malloc((size_t)ts*W_); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[101]->test(t_cur,k); long nb=0; for(unsigned i=0;i<ts;i++){ uint32_t v=rb_word(&r); for(int j=W_-1;j>=0;j--) b[nb++]=v>>j&1; }
   ld one=0,chg=0; for(long i=0;i<nb;i++){ one+=b[i]; chg+= b[i]!=b[(i+1)%nb]; } ld p=one/nb; if(p==0||p==1){ p_cmp(TP(0,k),0,"sts_runs %s t%u run %d (constant)",nm(),ts,k); }
   else p_cmp(TP(0,k),r_x(chg,2*nb*p*(1-p),2*sqrtl(nb)*p*(1-p)),"sts_runs %s t%u run %d",nm(),ts,k); vp_stat("transitions",ts); } free(b); tst_close(); }
static void serial(unsigned ts,int runs){ Rb r={&S_}; script_install(&S_); tst_open(102,ts,0,1,runs); long nb=(long)ts*32; char *b=malloc(nb); static ld f[65536]; for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[102]->test(t_cur,k); for(unsigned i=0;i<ts;i++){ uint32_t v=rb_bits(&r,32); for(int j=31;j>=0;j--) b[i*32+31-j]=v>>j&1; }
   ld psi[17]={0},zero=0; for(long i=0;i<nb;i++) zero+=!b[i]; for(int m=1;m<=16;m++){ memset(f,0,sizeof(ld)<<m); unsigned v=0; for(int j=0;j<m-1;j++) v=v<<1|b[j%nb]; for(long i=0;i<nb;i++){ v=(v<<1|b[(i+m-1)%nb])&((1u<<m)-1); f[v]++; } ld q=0; for(long i=0;i<1l<<m;i++) q+=f[i]*f[i]; psi[m]=q*(1l<<m)/nb-nb; }
   int j=0; p_cmp(TP(j,k),r_phi((2*zero-nb)/sqrtl(nb)),"sts_serial m=1 %s t%u run %d",nm(),ts,k); if(t_cur[j]->ntuple!=1) vp_fail("sts_serial row %d reports n-tuple %u",j,t_cur[j]->ntuple); j++;
   for(int m=2;m<=16&&!vp_failed();m++){ ld d=psi[m]-psi[m-1],d2=psi[m]-2*psi[m-1]+psi[m-2]; if(t_cur[j]->ntuple!=m) vp_fail("sts_serial row %d reports n-tuple %u",j,t_cur[j]->ntuple); p_cmp(TP(j,k),r_gq(ldexpl(1,m-2),d/2),"sts_serial first difference m=%d %s t%u run %d",m,nm(),ts,k); j++; if(m>2){ p_cmp(TP(j,k),r_gq(ldexpl(1,m-3),d2/2),"sts_serial second difference m=%d %s t%u run %d",m,nm(),ts,k); j++; } }
   vp_stat("transitions",ts); } free(b); tst_close(); }
/* the generator's own rejection never ends on a stream of rejected words only */
static int endless(uint64_t V){ if(S_.kind!=SK_PERIODIC||S_.tail) return 0; uint64_t range= W_>=32?0xffffffffull:(1ull<<W_)-1; if(V>range) return 0; for(int i=0;i<S_.n;i++) if(S_.words[i]/(range/V)<V) return 0; return 1; }
static void bitdist(unsigned nbt,unsigned ts,int runs){ if(endless(1ull<<nbt)) return; Rb r={&S_}; script_install(&S_); tst_open(200,ts,nbt,1,runs); long V=1l<<nbt; uint16_t *cnt=malloc(V*sizeof *cnt); ld *h=malloc(sizeof(ld)*V*65), y[65]; ld p=1.0L/V; for(int b=0;b<=64;b++) y[b]= V==1?0:ts*expl(lgammal(65)-lgammal(b+1)-lgammal(65-b)+b*logl(p)+(64-b)*log1pl(-p));
  for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[200]->test(t_cur,k); memset(h,0,sizeof(ld)*V*65); for(unsigned t=0;t<ts;t++){ memset(cnt,0,V*sizeof *cnt); for(int b=0;b<64;b++) cnt[rb_bits(&r,nbt)]++; for(long v=0;v<V;v++) h[v*65+cnt[v]]++; }
   uint64_t range= W_>=32?0xffffffffull:(1ull<<W_)-1; uint32_t ri= (uint64_t)V>range ? rb_bits(&r,nbt) : rb_int(&r,V); int deg; ld e=r_v(h+ri*65,y,65,20,0,&deg); if(!deg&&!r_edge(y,65,20)) p_cmp(TP(0,k),e,"rgb_bitdist n%u %s t%u run %d value %u",nbt,nm(),ts,k,ri); if(t_cur[0]->ntuple!=nbt) vp_fail("rgb_bitdist reports n-tuple %u",t_cur[0]->ntuple); vp_stat("transitions",ts*64); } free(cnt); free(h); tst_close(); }

static void bytedist(int T,unsigned ts,int runs){ Rb r={&S_}; script_install(&S_); tst_open(T,ts,0,1,runs); static ld x[2304],y[2304]; int sh[3]={0,(W_-8)/2,W_-8}; for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); memset(x,0,sizeof x); for(unsigned t=0;t<ts;t++) for(int i=0;i<3;i++){ uint32_t v=rb_word(&r); for(int j=0;j<3;j++) x[(i*3+j)*256+(v>>sh[j]&255)]++; } for(int i=0;i<2304;i++) y[i]=ts/256.0L; int deg; ld e=r_v(x,y,2304,5,255*9,&deg); if(ts/256.0>=5) p_cmp(TP(0,k),e,"dab_bytedistrib %s t%u run %d",nm(),ts,k); vp_stat("transitions",ts*3); } tst_close(); }
/* block monobit: blocks of 2^(j+1) words; the first block of each level is one word longer than half a block (known finding); the reference accepts documented (aligned) blocks too */
static ld extreme(const ld *p,int n){ ld ext=1; int sg=1; for(int i=0;i<n;i++){ ld q=p[i]; int c=-1; if(q>0.5L){ q=1-q; c=1; } if(q<ext){ ext=q; sg=c; } } ld s=powl(1-ext,n); return sg==1?1-s:s; }
static ld mono2(const uint32_t *wd,unsigned ts,int nt,int aligned,int *deg){ ld ps[16]; *deg=0; for(int j=0;j<nt;j++){ long B=2l<<j, N=(long)W_*B; ld *c=calloc(N+1,sizeof(ld)); long acc=0; for(unsigned i=0;i<ts;i++){ acc+=ones(wd[i]); int end= aligned ? ((i+1)%B==0) : (i%B==B/2); if(end){ if(acc<=N) c[acc]++; acc=0; } }
   ld ns=ts/B, chi=0; int used=0; for(long q=0;q<=N;q++) if(c[q]>10){ ld ex=ns*expl(lgammal(N+1)-lgammal(q+1)-lgammal(N-q+1)-N*logl(2)); chi+=(c[q]-ex)*(c[q]-ex)/ex; used++; } free(c); if(used<2){ *deg=1; return 0; } ps[j]=r_chi(chi,used-1); } return extreme(ps,nt); }
static void monobit2(int T,unsigned ts,unsigned nt,int runs){ Rb r={&S_}; script_install(&S_); tst_open(T,ts,nt,1,runs); uint32_t *wd=malloc(4*(size_t)ts); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); for(unsigned i=0;i<ts;i++) wd[i]=rb_word(&r); int n=nt; if(!n) for(n=0;n<16;n++){ ld N=(ld)W_*(2l<<n), ns=ts/(2l<<n); if(ns*expl(lgammal(N+1)-2*lgammal(N/2+1)-N*logl(2))<20) break; }
   if(t_cur[0]->ntuple!=n) vp_fail("dab_monobit2 %s t%u: %u block sizes, expected %d",nm(),ts,t_cur[0]->ntuple,n); int d1,d2; ld e=mono2(wd,ts,n,0,&d1), e2=mono2(wd,ts,n,1,&d2); if(!d1&&n>0&&(d2||!p_ok(TP(0,k),e2))) p_cmp(TP(0,k),e,"dab_monobit2 n%u %s t%u run %d",nt,nm(),ts,k); vp_stat("transitions",ts); } free(wd); tst_close(); }
int main(int argc,char **argv){
  vp_init(argc,argv); tst_init(); int TB=num_of("dab_bytedistrib"), TM=num_of("dab_monobit2");
  /* every stream of up to L words, small widths */
  for(int w=1;w<=4;w++) for(unsigned ts=1;ts*w<=(vp_thorough?16u:12u);ts++) if(vp_begin("all/w%d/t%u",w,ts)){ W_=w; for(unsigned long q=0;q<1ul<<(ts*w)&&!vp_failed();q++){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=w; S_.n=ts; for(unsigned i=0;i<ts;i++) S_.words[i]=q>>(i*w)&((1u<<w)-1); monobit(ts,1); runs_(ts,1); } }
  const int WD[]={32,31,24,16,8,13,20,27,9,30}; int nw=vp_thorough?10:7;
  for(int wi=0;wi<nw;wi++){ int w=W_=WD[wi]; 
    const unsigned TS[]={1,2,3,5,8,33,100,257};
    for(int ti=0;ti<8;ti++) if(vp_begin("family/w%d/t%u",w,TS[ti])) for(int f=0;st_enum(f,w,3,&S_)&&!vp_failed();f++){ monobit(TS[ti],2); runs_(TS[ti],2); }
    const unsigned TQ[]={1,2,3,5,7,12,64,100};
    for(int ti=0;ti<8;ti++) if(vp_begin("serial/w%d/t%u",w,TQ[ti])) for(int f=0;st_enum(f,w,vp_thorough?3:2,&S_)&&!vp_failed();f++) serial(TQ[ti],2);
    for(unsigned nb=1;nb<=12;nb++) if(vp_begin("bitdist/w%d/n%u",w,nb)){ const unsigned T2[]={40,100,333,1000}; for(int ti=0;ti<4;ti++) for(int f=0;st_enum(f,w,nb<=4?2:1,&S_)&&!vp_failed();f++) bitdist(nb,T2[ti],2); }
    if(w>=8) for(unsigned ts=1280;ts<=6400;ts*=5) if(vp_begin("bytes/w%d/t%u",w,ts)) for(int f=0;st_enum(f,w,2,&S_)&&!vp_failed();f++){ bytedist(TB,ts,2); bytedist(TB,ts+1,2); }
    for(unsigned nt=0;nt<=5;nt++) if(vp_begin("block/w%d/n%u",w,nt)){ const unsigned T2[]={200,1000,3333,20000}; for(int ti=0;ti<4;ti++) for(int f=0;st_enum(f,w,ti<3?3:1,&S_)&&!vp_failed();f++) monobit2(TM,T2[ti],nt,2); }
  }
  for(int f=0;f<4;f++) for(int w=8;w<=9;w++) if(vp_begin("block-long/w%d/%d",w,f)){ W_=w; script_family(f,w,&S_); monobit2(TM,w==8?3000000:6000000,0,1); monobit2(TM,w==8?2000001:6000000,1+f,1); }
  if(vp_begin("finding/monobit2-first-block")){ W_=8; script_family(0,8,&S_); script_install(&S_); Rb r={&S_}; unsigned ts=2000; tst_open(TM,ts,2,1,1); uint32_t wd[2000]; dh_test_types[TM]->test(t_cur,0); for(unsigned i=0;i<ts;i++) wd[i]=rb_word(&r); int d; ld e=mono2(wd,ts,2,1,&d); p_cmp(TP(0,0),e,"dab_monobit2 n2 %s t2000 with blocks of equal size",nm()); tst_close(); }
  /* serial: every repeating 8-bit pattern (thorough: 12-bit, as three 4-bit words) */
  if(vp_begin("serial-patterns")){ W_=8; for(int q=0;q<256;q++) for(unsigned ts=1;ts<=7&&!vp_failed();ts+=2){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=8; S_.n=1; S_.words[0]=q; serial(ts,1); } }
  if(vp_thorough) for(int h=0;h<64;h++) if(vp_begin("serial-patterns16/%d",h)){ W_=16; for(int q=h*1024;q<(h+1)*1024&&!vp_failed();q++) for(unsigned ts=3;ts<=5&&!vp_failed();ts+=2){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=16; S_.n=1; S_.words[0]=q; serial(ts,1); } }
  /* the standard sample sizes */
  { static const int SW[]={32,31,24}; for(int wi=0;wi<3;wi++) for(int f=0;f<(wi?2:13);f++) if(vp_begin("standard/w%d/%d",SW[wi],f)){ W_=SW[wi]; if(!script_family(f,W_,&S_)) continue; monobit(100000,2); runs_(100000,2); serial(100000,1); for(unsigned nb=1;nb<=(f<2?12u:8u)&&!vp_failed();nb++) bitdist(nb,100000,1); }
    for(int f=0;f<(vp_thorough?13:2);f++) if(vp_begin("standard-bytes/%d",f)){ W_=32; script_family(f,W_,&S_); bytedist(TB,51200000,1); }
    for(int f=0;f<(vp_thorough?13:2);f++) if(vp_begin("standard-block/%d",f)){ W_=32; script_family(f,W_,&S_); monobit2(TM,65000000,0,1); } }
  return vp_done();
}
