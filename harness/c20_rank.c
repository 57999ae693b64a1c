/* C20: binary_rank on every small bit matrix and structured large ones; the rank tests on enumerated streams. */
#include "ref.h"
static Script S_; static char N_[400]; static const char *nm(void){ script_name(&S_,N_,sizeof N_); return N_; }
static int refrank(unsigned char m[][128],int R,int C){ static unsigned char a[128][128]; for(int i=0;i<R;i++) memcpy(a[i],m[i],C); int rk=0; for(int i=0;i<R;i++){ int p=-1; for(int j=0;j<C;j++) if(a[i][j]){ p=j; break; } if(p<0) continue; rk++; for(int k=i+1;k<R;k++) if(a[k][p]) for(int j=0;j<C;j++) a[k][j]^=a[i][j]; } return rk; }
static unsigned char M_[128][128];
static void check(int R,int C,const char *what){ int W=(C+31)/32; uint *row[128], st[128][4]; for(int i=0;i<R;i++){ for(int w=0;w<W;w++){ st[i][w]=0; for(int b=0;b<32&&w*32+b<C;b++) st[i][w]|=(uint)M_[i][w*32+b]<<b; } row[i]=st[i]; } int e=refrank(M_,R,C), g=binary_rank(row,R,C); vp_stat("states",1); vp_stat("traces",1); vp_stat("transitions",R); if(g!=e) vp_fail("rank of a %dx%d matrix (%s): %d, expected %d",R,C,what,g,e); }
static void garbage(int R,int C){ /* bits above the last column must not matter */ uint *row[128], st[128]; for(int i=0;i<R;i++){ st[i]=0; for(int b=0;b<32;b++) st[i]|=(uint)(b<C?M_[i][b]:((i*7+b)%3==0))<<b; row[i]=st+i; } int e=refrank(M_,R,C), g=binary_rank(row,R,C); if(g!=e) vp_fail("rank of a %dx%d matrix with bits beyond its columns: %d, expected %d",R,C,g,e); }
static ld P32[]={0.0052854502L,0.1283502644L,0.5775761902L,0.2887880952L}, P6[]={0.149858E-06L,0.808926E-04L,0.936197E-02L,0.217439L,0.773118L};
static void one(int big,unsigned ts,int runs){ int T=num_of(big?"diehard_rank_32x32":"diehard_rank_6x8"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,0,1,runs); int R=big?32:6,C=big?32:8,lo=big?29:2,nc=big?4:5; ld *P=big?P32:P6;
  for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); ld x[5]={0},y[5]; for(unsigned t=0;t<ts;t++){ for(int i=0;i<R;i++){ uint32_t v=rb_bits(&r,32); for(int j=0;j<C;j++) M_[i][j]=v>>j&1; } int q=refrank(M_,R,C); x[q<=lo?0:q-lo]++; } for(int i=0;i<nc;i++) y[i]=ts*P[i]; int deg; ld e=r_v(x,y,nc,5,0,&deg); vp_stat("transitions",ts); if(!deg&&!r_edge(y,nc,5)) p_cmp(TP(0,k),e,"%s %s t%u run %d",dh_test_types[T]->sname,nm(),ts,k); else if(!(TP(0,k)>=0&&TP(0,k)<=1)) vp_fail("p-value %g",TP(0,k)); }
  tst_close(); }
int main(int argc,char **argv){
  vp_init(argc,argv); tst_init(); int maxb=vp_thorough?20:16;
  for(int R=1;R<=8;R++) for(int C=1;C<=20;C++) if(R*C<=maxb) if(vp_begin("all/%dx%d",R,C)) for(unsigned long q=0;q<1ul<<(R*C)&&!vp_failed();q++){ for(int i=0;i<R;i++) for(int j=0;j<C;j++) M_[i][j]=q>>(i*C+j)&1; check(R,C,"exhaustive"); if(!(q&7)) garbage(R,C); }
  /* structured: every (rows, columns) up to the bound, every rank, as products of mixed matrices; with row permutations */
  int mx=vp_thorough?100:72; for(int R=1;R<=mx;R+= R<40?1:7) if(vp_begin("structured/r%d",R)) for(int C=1;C<=mx&&!vp_failed();C+= (C<=34||(C>=63&&C<=66))?1:5) for(int k=0;k<=(R<C?R:C);k+= 1+k/4) { memset(&S_,0,sizeof S_); S_.kind=SK_MIX; S_.a=R*131+C*7+k; S_.width=32; long p=0; static unsigned char L[128][128],Q[128][128]; for(int i=0;i<R;i++) for(int j=0;j<k;j++) L[i][j]=script_word(&S_,p++)&1; for(int i=0;i<k;i++) for(int j=0;j<C;j++) Q[i][j]=script_word(&S_,p++)&1; for(int i=0;i<R;i++) for(int j=0;j<C;j++){ int b=0; for(int l=0;l<k;l++) b^=L[i][l]&Q[l][j]; M_[i][j]=b; } check(R,C,"product"); 
     memset(M_,0,sizeof M_); for(int i=0;i<k;i++) M_[R-1-i][(i*5+C/3)%C]=1; for(int i=0;i+1<R;i++) for(int j=0;j<C;j++) M_[i][j]^=M_[i+1][j]&(i%3==0); check(R,C,"sparse"); }
  const int WD[]={32,31,24,16,8,13,20,27,9,30};
  for(int b=0;b<2;b++) for(int wi=0;wi<(vp_thorough?10:7);wi++) for(int ti=0;ti<6;ti++){ const unsigned T6[]={0,20,100,1000,3001,100000},T3[]={0,10,50,100,1000,1501}; unsigned ts=b?T3[ti]:T6[ti]; if(vp_begin("test%d/w%d/t%u",b,WD[wi],ts)) for(int f=0;(ts>3000?script_family(f,WD[wi],&S_)&&f<4:st_enum(f,WD[wi],ts<=100?3:1,&S_))&&!vp_failed();f++) one(b,ts,2); }
  /* low ranks among good matrices: constant prefixes of every length within three matrices */
  for(int b=0;b<2;b++) for(int c=0;c<3;c++) if(vp_begin("test%d/prefix%d",b,c)) for(int L=1;L<=(b?96:36)&&!vp_failed();L++){ memset(&S_,0,sizeof S_); S_.kind=SK_PREFIX; S_.width=32; S_.a=L; S_.b=L; S_.c=(uint32_t[]){0,0xffffffffu,0x80000001u}[c]; one(b,b?1000:2000,1); }
  for(int f=0;f<13;f++) if(vp_begin("standard/%d",f)){ if(!script_family(f,f%3==1?31:32,&S_)) continue; one(1,40000,1); one(0,100000,1); }
  return vp_done();
}
