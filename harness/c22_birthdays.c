/* C22: birthday-spacings tests: every small set of birthdays, and structured long streams, at every width. */
#include "ref.h"
static Script S_; static char N_[400]; static const char *nm(void){ script_name(&S_,N_,sizeof N_); return N_; }
static int cmpu(const void *a,const void *b){ uint32_t x=*(uint32_t*)a,y=*(uint32_t*)b; return x<y?-1:x>y; }
/* number of spacing values that occur more than once; asis: the repository's scan, which skips the value after each repeated group (known finding) */
static unsigned spac(const uint32_t *v,unsigned n,int asis){ uint32_t d[4096],s[4096]; memcpy(s,v,4*n); qsort(s,n,4,cmpu); d[0]=s[0]; for(unsigned i=1;i<n;i++) d[i]=s[i]-s[i-1]; qsort(d,n,4,cmpu); unsigned k=0; for(unsigned i=0;i<n;){ unsigned j=i+1; while(j<n&&d[j]==d[i]) j++; if(j-i>1){ k++; i= asis? j+1 : j; } else i=j; } return k; }
static ld pois(long k,ld l){ return expl(k*logl(l)-lgammal(k+1)-l); }
static ld eval(const unsigned *ks,unsigned ts,ld lam,int *edge){ long km=1; *edge=0; for(;;km++){ ld q=ts*pois(km,lam); if(fabsl(q-5)<1e-7L) *edge=1; if(!(q>5)) break; } km++; ld *x=calloc(km,sizeof(ld)); for(unsigned t=0;t<ts;t++) if(ks[t]<km) x[ks[t]]++; ld c=0; int inf=0; for(long k=0;k<km;k++){ ld e=ts*pois(k,lam); if(e<1e-300L){ if(e>0) *edge|= e>1e-330L; if(x[k]>0) inf=1; } else c+=(x[k]-e)*(x[k]-e)/e; } free(x); return inf?0:r_chi(c,km-1); }
/* the k-th field of n bits of the stream, low bit of each word first */
static uint64_t bp; static uint32_t field(int n){ uint32_t v=0; int w=S_.width; for(int i=0;i<n;i++,bp++) v|=(script_word(&S_,bp/w)>>(bp%w)&1u)<<i; return v; }
static void one(int dab,unsigned nt,unsigned ts,int runs,int strict){ int T=num_of(dab?"dab_birthdays1":"diehard_birthdays"); script_install(&S_); Rb r={&S_}; bp=0; tst_open(T,ts,nt,1,runs); int w=S_.width; unsigned n= dab?(nt?(nt>4096?4096:nt):1700):512; int nb= dab?w:(w<24?w:24); ld lam=(ld)n*n*n/ldexpl(1,nb+2); unsigned *ka=malloc(4*ts+4),*kc=malloc(4*ts+4); uint32_t v[4096];
  for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); for(unsigned t=0;t<ts;t++){ for(unsigned m=0;m<n;m++) v[m]= dab?rb_word(&r):field(nb); ka[t]=spac(v,n,1); kc[t]=spac(v,n,0); } int e1,e2; ld c=eval(kc,ts,lam,&e2), a=eval(ka,ts,lam,&e1); vp_stat("transitions",ts); vp_outcome("%u.%u",kc[0],ka[0]); if(e1) continue; if(strict||p_ok(TP(0,k),c)) a=c; p_cmp(TP(0,k),a,"%s n%u %s t%u run %d (%u repeated spacings in the first sample)",dh_test_types[T]->sname,n,nm(),ts,k,kc[0]); if(dab&&t_cur[0]->ntuple!=w) vp_fail("dab_birthdays1 reports n-tuple %u",t_cur[0]->ntuple); }
  free(ka); free(kc); tst_close(); }
int main(int argc,char **argv){
  vp_init(argc,argv); tst_init(); int maxb=vp_thorough?20:15;
  /* every list of n birthdays of w bits (and, for the shortest, every pair of samples) */
  for(int w=2;w<=5;w++) for(int n=2;n<=7;n++) for(int s=1;s<=2;s++) if(w*n*s<=maxb) for(int part=0;part<4;part++) if(vp_begin("all/w%d/n%d/samples%d/%d",w,n,s,part)) for(unsigned long q=part;q<1ul<<(w*n*s)&&!vp_failed();q+=4){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=w; S_.n=n*s; for(int i=0;i<n*s;i++) S_.words[i]=q>>(i*w)&((1u<<w)-1); one(1,n,s,1,0); if(!(q&15)||q<4096) one(1,n,40*s,1,0); }
  /* every multiset of spacings with at most 6 repeats: n birthdays built from chosen spacings */
  const int WD[]={32,31,24,16,8,13,20,27,9,30,25,23,22,28}; const unsigned TS[]={1,2,5,30,100}, NT[]={0,1,2,3,10,100,512,1700,4095,4096,5000};
  for(int wi=0;wi<(vp_thorough?14:9);wi++) for(int ti=0;ti<5;ti++){ int w=WD[wi]; unsigned ts=TS[ti];
    if(vp_begin("birthdays/w%d/t%u",w,ts)) for(int f=0;st_enum(f,w,ts<=5?2:1,&S_)&&!vp_failed();f++) one(0,0,ts,2,0);
    for(int ni=0;ni<11;ni++) if(NT[ni]*ts<=100000&&vp_begin("dab/w%d/t%u/n%u",w,ts,NT[ni])) for(int f=0;st_enum(f,w,NT[ni]<=100?3:1,&S_)&&!vp_failed();f++) one(1,NT[ni],ts,2,0); }
  for(int a=1;a<=(vp_thorough?12:4);a++) for(int wi=0;wi<9;wi++){ int w=WD[wi]; unsigned t= vp_thorough?3000:800; if(vp_begin("long/w%d/%d",w,a)){ memset(&S_,0,sizeof S_); S_.kind=SK_MIX; S_.a=100+a; S_.width=w; one(0,0,t,2,0); one(1,0,t/2,2,0); if(w>=10) one(1,1<<(w/3),t,2,0); } }
  if(vp_begin("finding/skipped-spacing")){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=8; S_.n=4; uint32_t v[]={1,2,5,8}; memcpy(S_.words,v,16); one(1,4,1,1,1); }
  for(int f=0;f<13;f++) if(vp_begin("standard/%d",f)){ if(!script_family(f,f%3==1?31:32,&S_)) continue; one(0,0,100,3,0); one(1,0,2000,1,0); }
  return vp_done();
}
