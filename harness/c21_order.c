/* C21: permutation and runs tests: every small stream of numbers, and structured long ones. */
#include "ref.h"
static Script S_; static char N_[400]; static const char *nm(void){ script_name(&S_,N_,sizeof N_); return N_; }
/* index of an ordering, as the published code computes it: position of the largest, then of the largest of the rest moved down */
static int pidx(const int64_t *v){ int64_t w[5]; memcpy(w,v,sizeof w); int p=0; for(int i=4;i>0;i--){ int k=0; for(int j=1;j<=i;j++) if(w[j]>=w[k]) k=j; p=(i+1)*p+k; int64_t t=w[i]; w[i]=w[k]; w[k]=t; } return p; }
static ld op5(const uint32_t *wd,unsigned ts,int ov,int sgn){ static ld c[120]; memset(c,0,sizeof c); for(unsigned t=0;t<ts;t++){ int64_t v[5]; for(int i=0;i<5;i++){ uint32_t u=wd[ov?t+i:5+5*t+i]; v[i]= sgn?(int64_t)(int32_t)u:(int64_t)u; } c[pidx(v)]++; } ld av=ts/120.0L, chi=0; for(int i=0;i<120;i++) c[i]-=av; if(ov){ for(int i=0;i<120;i++) if(1) for(int j=0;j<120;j++) chi+=c[i]*pseudoInv[i][j]*c[j]; return r_chi(fabsl(chi/ts),96); } for(int i=0;i<120;i++) chi+=c[i]*c[i]; return r_chi(chi/av,119); }
static void operm5(unsigned ts,int ov,int runs){ int T=num_of("diehard_operm5"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,0,ov,runs); uint32_t *wd=malloc(4*(5*(size_t)ts+20)); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); for(unsigned i=0;i<(ov?ts+5:5*ts+5);i++) wd[i]=rb_word(&r); ld u=op5(wd,ts,ov,0); if(!p_ok(TP(0,k),u)) p_cmp(TP(0,k),op5(wd,ts,ov,1),"diehard_operm5 %s t%u overlap %d run %d",nm(),ts,ov,k); else { vp_stat("states",1); vp_stat("traces",1); } vp_stat("transitions",ts); } free(wd); tst_close(); }
static void perms(unsigned kk,unsigned ts,int runs){ int T=num_of("rgb_permutations"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,kk,1,runs); unsigned k5= kk<2?5:kk; long np=1; for(unsigned i=2;i<=k5;i++) np*=i; ld *x=calloc(np,sizeof(ld)),*y=malloc(np*sizeof(ld)); for(long i=0;i<np;i++) y[i]=(ld)ts/np;
  for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); for(long i=0;i<np;i++) x[i]=0; for(unsigned t=0;t<ts;t++){ double v[16]; size_t ps[16]; int tie=0; for(unsigned i=0;i<k5;i++){ v[i]=rb_word(&r); for(unsigned j=0;j<i;j++) tie|=v[i]==v[j]; } if(tie) gsl_sort_index(ps,v,1,k5); else for(unsigned i=0;i<k5;i++){ int rk=0; for(unsigned j=0;j<k5;j++) rk+=v[j]<v[i]; ps[rk]=i; } long ix=0; for(unsigned i=0;i<k5;i++){ int c=0; for(unsigned j=i+1;j<k5;j++) c+=ps[j]<ps[i]; ix=ix*(k5-i)+c; } x[ix]++; }
   int deg; ld e=r_v(x,y,np,5,0,&deg); if(!deg&&!r_edge(y,np,5)) p_cmp(TP(0,k),e,"rgb_permutations k%u %s t%u run %d",k5,nm(),ts,k); if(t_cur[0]->ntuple!=k5) vp_fail("rgb_permutations reports n-tuple %u",t_cur[0]->ntuple); vp_stat("transitions",ts); } free(x); free(y); tst_close(); }
static void druns(unsigned ts,int runs){ int T=num_of("diehard_runs"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,0,1,runs); uint32_t *wd=malloc(4*(size_t)ts+4);
 static const ld A[6][6]={{4529.4L,9044.9L,13568,18091,22615,27892},{9044.9L,18097,27139,36187,45234,55789},{13568,27139,40721,54281,67852,83685},{18091,36187,54281,72414,90470,111580},{22615,45234,67852,90470,113262,139476},{27892,55789,83685,111580,139476,172860}}, B[6]={1/6.0L,5/24.0L,11/120.0L,19/720.0L,29/5040.0L,1/840.0L};
 for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); for(unsigned i=0;i<ts;i++) wd[i]=rb_word(&r); ld up[6]={0},dn[6]={0}; /* steps: rising or not, the last one comparing the final number with the first */ long ulen=1,dlen=1; for(unsigned i=1;i<=ts;i++){ int rise= i<ts ? wd[i]>wd[i-1] : wd[ts-1]>wd[0]; if(rise){ dn[dlen>6?5:dlen-1]++; dlen=1; ulen++; } else { up[ulen>6?5:ulen-1]++; ulen=1; dlen++; } }
  ld uv=0,dv=0; for(int i=0;i<6;i++) for(int j=0;j<6;j++){ uv+=(up[i]-ts*B[i])*(up[j]-ts*B[j])*A[i][j]; dv+=(dn[i]-ts*B[i])*(dn[j]-ts*B[j])*A[i][j]; } p_cmp(TP(0,k),r_gq(3,uv/ts/2),"diehard_runs up %s t%u run %d",nm(),ts,k); p_cmp(TP(1,k),r_gq(3,dv/ts/2),"diehard_runs down %s t%u run %d",nm(),ts,k); vp_stat("transitions",ts); } free(wd); tst_close(); }
static void seq(unsigned long q,int n,int base,int w){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=w; S_.n=n; for(int i=0;i<n;i++){ S_.words[i]=q%base; q/=base; } }
int main(int argc,char **argv){
  vp_init(argc,argv); tst_init();
  /* every sequence of n numbers from a small alphabet (all relative orders, with ties) */
  for(int n=2;n<=8;n++) for(int part=0;part<8;part++) if(vp_begin("runs/all%d/%d",n,part)){ int base= n<=6?n:n==7?5:4; unsigned long tot=1; for(int i=0;i<n;i++) tot*=base; for(unsigned long q=part;q<tot&&!vp_failed();q+=8){ seq(q,n,base,8); druns(n,1); } }
  for(int n=5;n<=8;n++) for(int part=0;part<8;part++) if(vp_begin("operm5/all%d/%d",n,part)){ int base= n==5?5:n==6?4:3; unsigned long tot=1; for(int i=0;i<n;i++) tot*=base; for(unsigned long q=part;q<tot&&!vp_failed();q+=8){ seq(q,n,base,8); operm5(n,1,1); if(n==5) operm5(2,0,1); } }
  for(int kk=2;kk<=4;kk++) for(int n=kk;n<=6;n++) if(vp_begin("perm%d/all%d",kk,n)){ int base= n<=5?5:4; unsigned long tot=1; for(int i=0;i<n;i++) tot*=base; for(unsigned long q=0;q<tot&&!vp_failed();q++){ seq(q,n,base,8); perms(kk,kk==2?13:kk==3?40:130,1); } }
  const int WD[]={32,31,24,16,8,13,20,27,9,30}; const unsigned TS[]={1,2,5,10,100,121,1000,5003};
  for(int wi=0;wi<(vp_thorough?10:7);wi++) for(int ti=0;ti<8;ti++){ int w=WD[wi]; unsigned ts=TS[ti];
    if(vp_begin("runs/w%d/t%u",w,ts)) for(int f=0;st_enum(f,w,3,&S_)&&!vp_failed();f++) druns(ts,3);
    for(int ov=0;ov<2;ov++) if(vp_begin("operm5/w%d/t%u/ov%d",w,ts,ov)) for(int f=0;st_enum(f,w,2,&S_)&&!vp_failed();f++) operm5(ts,ov,2);
    for(int kk=0;kk<=7;kk++) if(kk!=1&&vp_begin("perm%d/w%d/t%u",kk,w,ts)) for(int f=0;st_enum(f,w,kk<=4?3:1,&S_)&&!vp_failed();f++) perms(kk,kk==7?ts*10:kk==6?ts*4:ts,2); }
  /* the weights used for overlapping permutations invert the exact covariance of overlapping orderings (up to lag 4) */
  if(vp_begin("operm5/weights")){ static ld C[120][120]; static double CP[120][120]; long n=0; int p[9]; for(int i=0;i<9;i++) p[i]=i; /* joint law of the orderings at distance d depends on the ranks of 5+d numbers: enumerate all 9! */
    int c[9]={0}; int i=0; for(;;){ int64_t v[9]; for(int k=0;k<9;k++) v[k]=p[k]; int a=pidx(v); C[a][a]+=1; for(int d=1;d<=4;d++){ int b=pidx(v+d); C[a][b]+=1; C[b][a]+=1; } n++; while(i<9&&c[i]>=i){ c[i]=0; i++; } if(i>=9) break; int s=i&1?c[i]:0,t=p[s]; p[s]=p[i]; p[i]=t; c[i]++; i=0; }
    for(int a=0;a<120;a++) for(int b=0;b<120;b++) C[a][b]=C[a][b]/n-9.0L/14400; ld worst=0; for(int a=0;a<120;a++) for(int b=0;b<120;b++){ ld s=0; for(int k=0;k<120;k++) s+=C[a][k]*pseudoInv[k][b]; CP[a][b]=s; } for(int a=0;a<120;a++) for(int b=0;b<120;b++){ ld s=0; for(int k=0;k<120;k++) s+=CP[a][k]*C[k][b]; ld e=fabsl(s-C[a][b]); if(e>worst) worst=e; } vp_stat("states",n); vp_stat("transitions",n*4); vp_sample("largest deviation of C*P*C from C: %.3Lg",worst); if(worst>1e-10L) vp_fail("the weights do not invert the covariance of overlapping orderings (deviation %.3Lg)",worst); }
  if(vp_begin("finding/operm5-unsigned")){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=32; S_.n=5; uint32_t W5[]={1,2,3,0x90000000u,0xA0000000u}; memcpy(S_.words,W5,20); script_install(&S_); Rb r={&S_}; tst_open(num_of("diehard_operm5"),50,0,0,1); uint32_t wd[300]; dh_test_types[num_of("diehard_operm5")]->test(t_cur,0); 
    script_family(0,32,&S_); script_install(&S_); r.pos=0; tst_close(); tst_open(num_of("diehard_operm5"),50,0,0,1); dh_test_types[num_of("diehard_operm5")]->test(t_cur,0); for(int i=0;i<255;i++) wd[i]=rb_word(&r); p_cmp(TP(0,0),op5(wd,50,0,0),"diehard_operm5 %s t50 overlap 0: orderings of unsigned numbers",nm()); tst_close(); }
  for(int f=0;f<13;f++) if(vp_begin("standard/%d",f)){ if(!script_family(f,f%3==1?31:32,&S_)) continue; druns(100000,2); operm5(1000000,1,1); operm5(1000000,0,1); for(int kk=2;kk<=6&&!vp_failed();kk++) perms(kk,100000,1); }
  return vp_done();
}
