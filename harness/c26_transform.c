/* C26: discrete cosine transform and fill-tree tests on enumerated streams. */
#include "ref.h"
static Script S_; static char N_[400]; static const char *nm(void){ script_name(&S_,N_,sizeof N_); return N_; }
static const ld F1[20]={0.0L,0.0L,0.0L,0.0L,0.13333333L,0.20000000L,0.20634921L,0.17857143L,0.13007085L,0.08183633L,0.04338395L,0.01851828L,0.00617270L,0.00151193L,0.00023520L,0.00001680L,0.00000000L,0.00000000L,0.00000000L,0.00000000L};
static const ld F2[128]={0,0,0,0,0,0,4.76837158203125E-07L,2.86102294921875E-06L,9.85432416200638E-06L,2.55650229519233E-05L,5.54892931177164E-05L,0.000106380728425393L,0.000186047948883328L,0.00030311244166753L,0.000466749839810675L,0.000686429646575251L,0.000971661742344283L,0.00133175306183679L,0.00177557452024558L,0.00231133638265425L,0.00294636954701581L,0.00368691038033341L,0.00453788756811422L,0.00550271070203945L,0.00658306187040692L,0.00777869319248569L,0.00908723493764983L,0.0105040204946228L,0.0120219359149386L,0.0136313029599996L,0.0153198054448571L,0.0170724691056809L,0.0188717051355292L,0.0206974268550898L,0.0225272476458152L,0.0243367662285437L,0.0260999426084925L,0.0277895645547568L,0.0293778004147126L,0.0308368295109554L,0.0321395365179289L,0.0332602513106519L,0.0341755111120263L,0.0348648176685728L,0.0353113590065781L,0.0355026634060874L,0.0354311528899465L,0.035094565005384L,0.0344962151263554L,0.0336450769511817L,0.0325556661902256L,0.031247721351896L,0.0297456856036487L,0.0280780043276814L,0.0262762635190492L,0.0243742038353947L,0.0224066531487575L,0.0204084261828087L,0.0184132426894747L,0.0164527152702953L,0.0145554542687502L,0.0127463303124921L,0.0110459255065655L,0.00947019265623616L,0.00803032911044744L,0.00673285885868451L,0.00557990440062551L,0.00456961957621112L,0.00369674675854223L,0.0029532570905934L,0.00232903101043375L,0.00181253806897198L,0.00139147961934567L,0.00105336473071676L,0.00078599787487321L,0.000577865708395529L,0.00041841881087046L,0.000298251837753283L,0.000209191678462234L,0.000144307562906168L,9.78595402557837E-05L,6.520247003055E-05L,4.26618834333199E-05L,2.73961611501714E-05L,1.7256844789337E-05L,1.06559535882152E-05L,6.44626192690798E-06L,3.81786954553569E-06L,2.2122334819058E-06L,1.25320523087539E-06L,6.9352747611892E-07L,3.74634041706112E-07L,1.97372359804204E-07L,1.01324484479249E-07L,5.06387688071287E-08L,2.4612770858879E-08L,1.16222051625842E-08L,5.32575018016149E-09L,2.36548132737708E-09L,1.01707372778487E-09L,4.22755189488443E-10L,1.69627368106376E-10L,6.55983218678784E-11L,2.44087465306515E-11L,8.72288816181913E-12L,2.98796462656132E-12L,9.78930546827611E-13L,3.06028628289706E-13L,9.10492627063714E-14L,2.57067414678584E-14L,6.86573813128305E-15L,1.72840983639153E-15L,4.08488586235289E-16L,9.02205965579907E-17L,1.85248682021962E-17L,3.5148157083845E-18L,6.11888831372621E-19L,9.69194996799213E-20L,1.38262127072485E-20L,1.75429503989084E-21L,1.94858024047957E-22L,1.85585143679842E-23L,1.47329706646149E-24L,9.35788996513105E-26L,4.45783630198697E-27L,1.41554277734465E-28L,2.24689329737247E-30L,0};
static uint32_t rotl(uint32_t v,int n){ int w=S_.width; uint32_t m= w>=32?0xffffffffu:(1u<<w)-1; n%=w; return n? ((v<<n)|(v>>(w-n)))&m : v; }
static void drew(Rb *r,const char *t,unsigned ts){ if(script_pos!=r->pos) vp_fail("%s %s t%u drew %ld numbers, expected %ld",t,nm(),ts,script_pos,r->pos); }
/* cells that count: from the one after the last leading cell below 4 to the one before the last above 4 */
static int span(const ld *y,int n,int *s){ int st=0,en=0; for(int i=0;i<n;i++){ if(y[i]<4){ if(!en) st=i; } else if(y[i]>4) en=i; } *s=st+1; return en-st-1; }
static int near4(const ld *y,int n){ for(int i=0;i<n;i++) if(y[i]!=4&&fabsl(y[i]-4)<1e-9L) return 1; return 0; }
static ld pear(const ld *x,const ld *y,int n){ ld c=0; for(int i=0;i<n;i++) c+=(x[i]-y[i])*(x[i]-y[i])/y[i]; return r_chi(c,n-1); }
static void unspec(double p,const char *t,unsigned ts){ vp_stat("states",1); if(!(p>=0&&p<=1)) vp_fail("%s %s t%u: p-value %g",t,nm(),ts,p); }
static void ft1(unsigned ts,int runs){ int T=num_of("dab_filltree"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,0,1,runs); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); ld x[20]={0},y[20],z[16]={0},yz[16]; unsigned cyc=ts/4?ts/4:1; int rot=0; for(unsigned t=0;t<ts;t++){ uint32_t nd[32]; char full[32]={0}; int n=0; for(;;){ uint32_t v=rotl(rb_word(&r),rot); n++; int p=1; while(p<16&&full[p]){ p=2*p+(v>nd[p]); } if(p>=16){ z[p-16]++; break; } full[p]=1; nd[p]=v; } x[n-1]++; if(t%cyc==0) rot++; }
   for(int i=0;i<20;i++) y[i]=ts*F1[i]; for(int i=0;i<16;i++) yz[i]=ts/16.0L; int s,n=span(y,20,&s); if(n>=2&&!near4(y,20)) p_cmp(TP(0,k),pear(x+s,y+s,n),"dab_filltree fill %s t%u run %d",nm(),ts,k); else unspec(TP(0,k),"dab_filltree",ts); p_cmp(TP(1,k),pear(z,yz,16),"dab_filltree position %s t%u run %d",nm(),ts,k); if(t_cur[0]->ntuple!=32||t_cur[1]->ntuple!=32) vp_fail("dab_filltree reports n-tuple %u %u",t_cur[0]->ntuple,t_cur[1]->ntuple); vp_stat("transitions",ts); } drew(&r,"dab_filltree",ts); tst_close(); }
static void ft2(unsigned ts,int runs){ int T=num_of("dab_filltree2"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,0,1,runs); for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); static ld x[128],y[128]; memset(x,0,sizeof x); ld z[64]={0}; int w=S_.width; uint32_t cur=rb_word(&r); int left=w; for(unsigned t=0;t<ts;t++){ char mark[128]={0}; int n=0,end=0; while(!end){ int p=1; for(;;){ p=2*p+(cur&1); cur>>=1; if(!--left){ cur=rb_word(&r); left=w; } if(!mark[p]){ mark[p]=1; break; } if(p>=64){ z[p-64]++; end=1; break; } } n++; } x[n-1]++; }
   for(int i=0;i<128;i++) y[i]=ts*F2[i]; int s,n=span(y,128,&s); if(n>=2&&!near4(y,128)) p_cmp(TP(0,k),pear(x+s,y+s,n),"dab_filltree2 fill %s t%u run %d",nm(),ts,k); else unspec(TP(0,k),"dab_filltree2",ts); ld g=0; for(int i=0;i<64;i++) if(z[i]>0) g+=2*z[i]*logl(z[i]*64/ts); g/=1+65/(6.0L*ts)+4096/(6.0L*ts*ts); p_cmp(TP(1,k),r_chi(fabsl(g),63),"dab_filltree2 position %s t%u run %d",nm(),ts,k); vp_stat("transitions",ts); } drew(&r,"dab_filltree2",ts); tst_close(); }
static void dct(unsigned nt,unsigned ts,int runs){ unsigned len=nt?nt:256; int w=S_.width; static ld (*co)[1024]; static unsigned colen; if(!co) co=malloc(sizeof(ld)*1024*1024); if(colen!=len){ colen=len; for(unsigned i=0;i<len;i++) for(unsigned j=0;j<len;j++) co[i][j]=cosl(3.14159265358979323846264338327950288L/len*(0.5L+j)*i); }
  int T=num_of("dab_dct"); script_install(&S_); Rb r={&S_}; tst_open(T,ts,nt,1,runs); unsigned qt=ts<4?1:ts/4; ld v=ldexpl(1,w-1); int fb= !(ts>5*len); double *ps= fb?malloc(sizeof(double)*len*ts):0; for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); ld *cnt=calloc(len,sizeof(ld)),*ex=malloc(len*sizeof(ld)); int rot=0,tie=0; ld in[1024],out[1024]; for(unsigned t=0;t<ts;t++){ if(t&&t%qt==0) rot=(rot+w/4)%w; for(unsigned i=0;i<len;i++) in[i]=rotl(rb_word(&r),rot); unsigned best=0; ld mx=0,mx2=0; for(unsigned i=0;i<len;i++){ ld s=0; for(unsigned j=0;j<len;j++) s+=in[j]*co[i][j]; if(i==0) s=(s-len*(v-0.5L))/sqrtl(2); out[i]=s; if(fabsl(s)>mx){ mx2=mx; mx=fabsl(s); best=i; } else if(fabsl(s)>mx2) mx2=fabsl(s); } if(mx-mx2<1e-9L*v*len) tie=1; cnt[best]++; if(fb) for(unsigned i=0;i<len;i++) ps[t*len+i]=r_phi(-out[i]/(sqrtl(len/6.0L)*v)); }
   for(unsigned i=0;i<len;i++) ex[i]=(ld)ts/len; if(fb){ double e=kstest(ps,len*ts); p_cmp(TP(0,k),e,"dab_dct (all coefficients) length %u %s t%u run %d",len,nm(),ts,k); } else if(!tie&&len>1) p_cmp(TP(0,k),pear(cnt,ex,len),"dab_dct length %u %s t%u run %d",len,nm(),ts,k); else unspec(TP(0,k),"dab_dct",ts); if(t_cur[0]->ntuple!=len) vp_fail("dab_dct reports n-tuple %u",t_cur[0]->ntuple); free(cnt); free(ex); vp_stat("transitions",ts); } drew(&r,"dab_dct",ts); free(ps); tst_close(); }
static void seq(unsigned long q,int n,int w){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=w; S_.n=n; for(int i=0;i<n;i++){ S_.words[i]=q&((1u<<w)-1); q>>=w; } }
int main(int argc,char **argv){
  vp_init(argc,argv); tst_init(); int X=vp_thorough;
  /* every repeating bit pattern / word pattern up to a total length */
  for(int w=5;w<=8;w++) for(int n=1;n*w<=(X?18:15);n++) for(int p=0;p<4;p++) if(vp_begin("filltree/all/w%d/n%d/%d",w,n,p)) for(unsigned long q=p;q<1ul<<(n*w)&&!vp_failed();q+=4){ seq(q,n,w); if(w>=7) ft1(41,1); else ft1(24+4*(q&1),1); }
  for(int w=1;w<=8;w++) for(int n=1;n*w<=(X?16:12);n++) for(int p=0;p<4;p++) if(vp_begin("filltree2/all/w%d/n%d/%d",w,n,p)) for(unsigned long q=p;q<1ul<<(n*w)&&!vp_failed();q+=4){ seq(q,n,w); ft2(130,1); }
  for(int len=1;len<=9;len++) for(int w=2;w<=8;w++) for(int n=1;n*w<=(X?14:11);n++) if(vp_begin("dct/all/len%d/w%d/n%d",len,w,n)) for(unsigned long q=0;q<1ul<<(n*w)&&!vp_failed();q++){ seq(q,n,w); dct(len,1+(q%3),1); if(q&1) dct(len,5*len+1+q%5,1); }
  /* the tree's first fills: every order of the first five distinct values, every position of a zero or all-one word */
  if(vp_begin("filltree/order")){ int v[6]={0x10,0x40,0x70,0xA0,0xD0,0xF8}; for(int q=0;q<46656&&!vp_failed();q++){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.tail=1; S_.a=5; S_.width=8; S_.n=6; int z=q; for(int i=0;i<6;i++){ S_.words[i]=v[z%6]; z/=6; } if(q%(X?1:7)==0) ft1(40,1); } }
  for(int c=0;c<2;c++) for(int L=1;L<=(X?120:40);L++) if(vp_begin("prefix/%d/%d",c,L)){ memset(&S_,0,sizeof S_); S_.kind=SK_PREFIX; S_.width=32; S_.a=L; S_.b=L; S_.c=c?0xffffffffu:0; ft1(60,2); ft2(300,2); memset(&S_,0,sizeof S_); S_.kind=SK_SPIKE; S_.width=16; S_.a=7; S_.b=L; S_.c=c?0xffff:0; ft1(60,2); dct(16,85,2); dct(16,10,1); }
  const int WD[]={32,31,24,16,8,13,20,27,9,30}; const unsigned TS[]={1,3,4,5,7,19,20,21,23,50,100,113,114,119,1000,1003,20001};
  for(int wi=0;wi<(X?10:7);wi++) for(int ti=0;ti<17;ti++){ int w=WD[wi]; unsigned ts=TS[ti]; int big=ts>5000; if(vp_begin("filltree/w%d/t%u",w,ts)) for(int f=0;(big?script_family(f,w,&S_)&&f<4:st_enum(f,w,2,&S_))&&!vp_failed();f++) ft1(ts,2); if(vp_begin("filltree2/w%d/t%u",w,ts)) for(int f=0;(big?script_family(f,w,&S_)&&f<4:st_enum(f,w,2,&S_))&&!vp_failed();f++) ft2(ts,2); }
  const unsigned LN[]={0,1,2,3,4,5,8,16,17,32,64,100,128,200,256,300,512}; const unsigned TD[]={1,2,3,4,5,7,11};
  for(int wi=0;wi<(X?10:7);wi++) for(int li=0;li<17;li++){ int w=WD[wi]; unsigned len=LN[li]; if(vp_begin("dct/w%d/len%u",w,len)) for(int ti=0;ti<7;ti++) for(int f=0;(len>64||len==0?script_family(f,w,&S_)&&f<4:len>5?script_family(f,w,&S_):st_enum(f,w,2,&S_))&&!vp_failed();f++) if(len*TD[ti]<4000) dct(len,TD[ti],2); 
    if(len&&len<=64&&vp_begin("dctpos/w%d/len%u",w,len)) for(int f=0;script_family(f,w,&S_)&&!vp_failed();f++){ dct(len,5*len,1); dct(len,5*len+1,2); dct(len,5*len+7,1); dct(len,20*len+3,2); } }
  for(int a=0;a<(X?8:4);a++) if(vp_begin("long/%d",a)){ memset(&S_,0,sizeof S_); S_.kind=SK_MIX; S_.a=40+a; S_.width=WD[a%7]; ft1(X?2000000:200000,1); ft2(X?500000:60000,1); dct(128,2000,1); if(a==0) dct(0,1300,1); }
  /* the standard size: cells expected a few times in five million trees */
  for(int a=0;a<(X?6:2);a++) if(vp_begin("filltree2/standard%d",a)){ memset(&S_,0,sizeof S_); S_.kind=SK_MIX; S_.a=300+a; S_.width=a%2?24:32; ft2(5000000,1); }
  for(int a=0;a<(X?4:1);a++) if(vp_begin("filltree/standard%d",a)){ memset(&S_,0,sizeof S_); S_.kind=SK_MIX; S_.a=500+a; S_.width=32; ft1(15000000,1); }
  for(int a=0;a<(X?4:1);a++) if(vp_begin("dct/standard%d",a)){ memset(&S_,0,sizeof S_); S_.kind=SK_MIX; S_.a=600+a; S_.width=32; dct(0,50000,1); }
  return vp_done();
}
