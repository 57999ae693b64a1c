/* C29: device generators. The device is replaced at fopen()/open() by scripted streams: all draw/reseed histories to a
 * depth x ways the device hands out its bytes x truncation points, on the real generators and the real seed source. */
#define _GNU_SOURCE
#include <dieharder/libdieharder.h>
#include "vp.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
static int nopen, chunk_, limit_, refuse_; static uint32_t first_; static int forced_; static uint32_t cont_[16]; static int ncont_;
static unsigned char by(int s,long i){ if(ncont_ && i/4<ncont_) return cont_[i/4]>>(8*(i%4)); if(forced_ && i<4) return first_>>(8*i); uint64_t z=(uint64_t)(s+1)*0x9E3779B97F4A7C15ull+i*0xD1B54A32D192ED03ull; z^=z>>29; z*=0xBF58476D1CE4E5B9ull; z^=z>>32; return z>>13; }
static uint32_t word(int s,long k){ return by(s,4*k)|by(s,4*k+1)<<8|by(s,4*k+2)<<16|(uint32_t)by(s,4*k+3)<<24; }
typedef struct { int s; long p; } Dv;
static ssize_t drd(void *c,char *b,size_t n){ Dv *d=c; size_t k= chunk_? (n<chunk_?n:chunk_) : n; if(limit_>=0){ if(d->p>=limit_) return 0; if(d->p+k>limit_) k=limit_-d->p; } for(size_t i=0;i<k;i++) b[i]=by(d->s,d->p++); return k; }
static int dcl(void *c){ free(c); return 0; }
static int isdev(const char *p){ return !strcmp(p,"/dev/random")||!strcmp(p,"/dev/urandom")||!strcmp(p,"/dev/arandom"); }
FILE *__real_fopen(const char *,const char *); FILE *__real_fopen64(const char *,const char *); int __real_open(const char *,int,...); int __real_open64(const char *,int,...);
static FILE *dfopen(const char *m){ if(refuse_) { nopen++; return NULL; } Dv *d=calloc(1,sizeof *d); d->s=nopen++; return fopencookie(d,m,(cookie_io_functions_t){drd,0,0,dcl}); }
FILE *__wrap_fopen(const char *p,const char *m){ return isdev(p)?dfopen(m):__real_fopen(p,m); }
FILE *__wrap_fopen64(const char *p,const char *m){ return isdev(p)?dfopen(m):__real_fopen64(p,m); }
static int dopen(void){ int s=nopen++; if(refuse_) return -1; int f=memfd_create("d",0); long n= limit_>=0?limit_:1<<16; unsigned char *b=malloc(n+1); for(long i=0;i<n;i++) b[i]=by(s,i); if(write(f,b,n)!=n) abort(); free(b); lseek(f,0,SEEK_SET); return f; }
int __wrap_open(const char *p,int fl,int mode){ return isdev(p)?dopen():__real_open(p,fl,mode); }
int __wrap_open64(const char *p,int fl,int mode){ return isdev(p)?dopen():__real_open64(p,fl,mode); }
static const gsl_rng_type *T; static long pos; static int cur;
static int got(gsl_rng *r,int dbl,const char *h){ uint32_t e=word(cur,pos); pos++; vp_stat("transitions",1);
  if(dbl){ double u=gsl_rng_uniform(r); if(!(fabs(u-e/4294967296.0)<=1/2147483648.0)){ vp_fail("%s, history %s: deviate %ld of the open device is %.12g, the device says %.12g",T->name,h,pos,u,e/4294967296.0); return 0; } }
  else { unsigned long v=gsl_rng_get(r); if(v!=e){ vp_fail("%s, history %s: word %ld of the open device is %lx, the device says %x",T->name,h,pos,v,e); return 0; } }
  return 1; }
static const char *ON[]={"get","uniform","reseed","get*1030","reseed0"};
static void hist(int depth,long code){ char h[200]="set"; gsl_rng *r=gsl_rng_alloc(T); int n0=nopen; gsl_rng_set(r,1); cur=nopen-1; pos=0;
  if(nopen==n0 && n0==0){ vp_stat("not_addressable",1); gsl_rng_free(r); return; }
  for(int d=0;d<depth&&!vp_failed();d++){ int op=code%5; code/=5; strcat(h,","); strcat(h,ON[op]);
    if(op==0) got(r,0,h); else if(op==1) got(r,1,h); else if(op==3) for(int i=0;i<1030&&got(r,i%97==5,h);i++); else { int b=nopen; gsl_rng_set(r,op==2?d+7:0); if(nopen!=b){ cur=nopen-1; pos=0; } } vp_stat("states",1); }
  gsl_rng_free(r); vp_stat("traces",1); }
struct Tr { int want, dbl; };
static void trunc_run(void *a){ struct Tr *t=a; gsl_rng *r=gsl_rng_alloc(T); int b=nopen; gsl_rng_set(r,1); vp_shared[0]= nopen>0; vp_shared[41]=nopen-1; for(int i=0;i<t->want;i++){ double v= t->dbl? gsl_rng_uniform(r)*4294967296.0:gsl_rng_get(r); vp_shared[2+i]=(long)v; vp_shared[1]++; } vp_shared[40]=1; }
static void seed_run(void *a){ vp_shared[3]=random_seed(); vp_shared[4]=nopen; vp_shared[1]=1; }
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0; if(!vp_shared) vp_shared=mmap(0,65536,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); dieharder_rng_types(); const gsl_rng_type *TT[]={gsl_rng_dev_random,gsl_rng_dev_urandom,gsl_rng_dev_arandom}; int X=vp_thorough, D=X?7:5; char so[400],se[400];
  const int CH[]={0,1,2,3,5,4096};
  for(int t=0;t<3;t++) for(int c=0;c<6;c++) if(vp_begin("history/%s/chunk%d",TT[t]->name,CH[c])){ T=TT[t]; chunk_=CH[c]; limit_=-1; refuse_=0; nopen=0; long N=1; for(int d=1;d<=D;d++){ N*=5; for(long q=0;q<N&&!vp_failed();q++){ int big=0; for(long k=q,i=0;i<d;i++,k/=5) big+=k%5==3; if(big>1) continue; hist(d,q); } } if(t==1&&c==1) vp_sample("/dev/urandom, one byte per read: all histories of draws, deviates and reseeds up to depth %d",D); }
  /* contents: every sequence of words over an alphabet of extreme, equal and ordinary words */
  static const uint32_t AL[]={0,0xffffffffu,1,0x80000000u,0x01020304u,0x7fffffffu};
  for(int t=0;t<3;t++) if(vp_begin("contents/%s",TT[t]->name)){ T=TT[t]; chunk_=0; limit_=-1; refuse_=0; ncont_=X?7:5; long N=1; for(int i=0;i<ncont_;i++) N*=6;
    for(long q=0;q<N&&!vp_failed();q++){ long k=q; char h[64]; snprintf(h,sizeof h,"contents %ld",q); for(int i=0;i<ncont_;i++,k/=6) cont_[i]=AL[k%6]; nopen=0; gsl_rng *r=gsl_rng_alloc(T); gsl_rng_set(r,1); if(!nopen){ vp_stat("not_addressable",1); gsl_rng_free(r); continue; } cur=nopen-1; pos=0; for(int i=0;i<ncont_+2&&got(r,q%2&&i%2,h);i++) vp_stat("states",1); gsl_rng_free(r); vp_stat("traces",1); }
    ncont_=0; }
  for(int t=0;t<3;t++) if(vp_begin("truncated/%s",TT[t]->name)) for(int len=0;len<=(X?33:17);len++) for(int c=0;c<5;c++) for(int dbl=0;dbl<2&&!vp_failed();dbl++){ T=TT[t]; chunk_=CH[c]; limit_=len; refuse_=0; nopen=0; struct Tr a={len/4+1,dbl}; for(int i=0;i<64;i++) vp_shared[i]=0; int st=vp_fork(trunc_run,&a,20,so,sizeof so,se,sizeof se); vp_stat("traces",1); vp_stat("states",len/4+1);
    if(!vp_shared[0]){ vp_stat("not_addressable",1); continue; }
    if(vp_shared[1]!=len/4 || vp_shared[40]){ vp_fail("%s: %d bytes in the device, %ld words delivered",T->name,len,vp_shared[1]); break; }
    for(int i=0;i<len/4;i++){ long d=vp_shared[2+i]-(long)word(vp_shared[41],i); if(dbl? labs(d)>2 : d!=0){ vp_fail("%s: word %d of %d bytes is %lx, the device says %x",T->name,i,len,vp_shared[2+i],word(vp_shared[41],i)); break; } }
    if(!vp_failed() && !se[0] && !so[0]) vp_fail("%s: the device ended after %d bytes without a message (status %d)",T->name,len,st); }
  for(int t=0;t<3;t++) if(vp_begin("missing/%s",TT[t]->name)){ T=TT[t]; refuse_=1; nopen=0; limit_=-1; chunk_=0; struct Tr a={2,0}; for(int i=0;i<64;i++) vp_shared[i]=0; vp_fork(trunc_run,&a,20,so,sizeof so,se,sizeof se); vp_stat("states",1); vp_stat("traces",1); if(vp_shared[0]==0&&vp_shared[1]&&vp_shared[40]) vp_stat("not_addressable",1); else if(vp_shared[1]) vp_fail("%s cannot be opened, yet %ld words were delivered",T->name,vp_shared[1]); else if(!se[0]&&!so[0]) vp_fail("%s cannot be opened: no message",T->name); }
  /* the seed source: the device's word, never the reserved value 0 */
  if(vp_begin("seed/words")){ refuse_=0; limit_=-1; for(int k=0;k<400&&!vp_failed();k++){ forced_=1; first_= k<32?1u<<k:k<64?~(1u<<(k-32)):k==64?0:k==65?0xffffffffu:k*2654435761u; chunk_=CH[k%6]; for(int i=0;i<64;i++) vp_shared[i]=0; nopen=0; vp_fork(seed_run,0,20,so,sizeof so,se,sizeof se); vp_stat("states",1); vp_stat("transitions",1); vp_stat("traces",1); if(!vp_shared[1]) vp_fail("random_seed() with device word %x did not return",first_); else if(!vp_shared[4]) vp_stat("not_addressable",1); else if(first_? vp_shared[3]!=(long)first_ : vp_shared[3]==0) vp_fail("random_seed() with device word %x returned %lx",first_,vp_shared[3]); } forced_=0; }
  if(vp_begin("seed/missing")) for(int m=0;m<5&&!vp_failed();m++){ refuse_=m==0; limit_= m==0?-1:m-1; chunk_=0; nopen=0; for(int i=0;i<64;i++) vp_shared[i]=0; vp_fork(seed_run,0,20,so,sizeof so,se,sizeof se); vp_stat("states",1); vp_stat("traces",1); if(!vp_shared[1]) vp_fail("random_seed() without a usable device did not return"); else if(vp_shared[3]==0) vp_fail("random_seed() without a usable device returned 0, which means 'choose one'"); }
  return vp_done();
}
