/* C05: standard input. All ways of cutting a byte stream into write chunks (the reader drains
 * each chunk before the next is written) x all truncation points, on the real generator. */
#include <dieharder/libdieharder.h>
#include "vp.h"
#include "script.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sched.h>
static const gsl_rng_type *T; static long *sh; /* sh[0]: words delivered, sh[1+i]: values, sh[60]: finished without being stopped */
static unsigned char by(int i){ return (unsigned char)(i*151+29*(i/4)+ (i%5==2?255-i*151-29*(i/4):0)); }
static int run(int len,const unsigned char *cut,int want,int dbl){ /* cut[i]=1: a new chunk starts at byte i */
  int p[2], e[2]; if(pipe(p)||pipe(e)) abort();
  for(int i=0;i<64;i++) sh[i]=0; fflush(NULL);
  pid_t c=fork();
  if(!c){ dup2(p[0],0); dup2(e[1],2); close(p[0]); close(p[1]); close(e[0]); close(e[1]); alarm(20);
    gsl_rng *r=gsl_rng_alloc(T); gsl_rng_set(r,1);
    for(int i=0;i<want;i++){ if(i%3==2) gsl_rng_set(r,7); double v= dbl? gsl_rng_uniform(r)*4294967295.0 : (double)gsl_rng_get(r); sh[1+i]=(long)(v+0.5); sh[0]++; }
    sh[60]=1; _exit(0); }
  close(p[0]); close(e[1]); signal(SIGPIPE,SIG_IGN);
  int i=0; while(i<len){ int j=i+1; while(j<len && !cut[j]) j++; unsigned char b[64]; for(int k=i;k<j;k++) b[k-i]=by(k); if(write(p[1],b,j-i)<0) break;
    /* wait for the reader to take it, so that it really sees this cut */
    int left=1,spin=0; while(1){ ioctl(p[1],FIONREAD,&left); if(!left) break; if(++spin>200 && (sh[60]|| waitpid(c,0,WNOHANG|WNOWAIT)!=0)) break; sched_yield(); }
    i=j; vp_stat("transitions",1); }
  close(p[1]); int st; waitpid(c,&st,0); char buf[300]; int n=read(e[0],buf,sizeof buf); close(e[0]);
  int full=len/4, exp= full<want?full:want;
  if(!WIFEXITED(st)){ vp_fail("%d bytes, %d words wanted: the reader died on a signal",len,want); return 0; }
  if(sh[0]!=exp){ vp_fail("%d bytes, %d words wanted: %ld words delivered, expected %d",len,want,sh[0],exp); return 0; }
  for(int k=0;k<exp;k++){ uint32_t v=by(4*k)|by(4*k+1)<<8|by(4*k+2)<<16|(uint32_t)by(4*k+3)<<24; if(sh[1+k]!=v){ vp_fail("%d bytes: word %d is %08lx, expected %08x",len,k,sh[1+k],v); return 0; } }
  if(full<want && n<=0){ vp_fail("%d bytes, %d words wanted: input ended without a message",len,want); return 0; }
  vp_stat("states",exp+1); vp_stat("traces",1); return 1;
}
/* long streams, read by a child that compares every word itself */
static uint32_t lw(int kind,long i){ static const uint32_t AL[]={0,0xffffffffu,1,0x80000000u,0x01020304u,0x0a0d1a04u,0x7fffffffu};
  if(kind==0){ long q=i/5; int k=i%5; while(k--) q/=7; return AL[q%7]; }   /* every sequence of five words over the alphabet */
  Script c; memset(&c,0,sizeof c); c.kind=SK_MIX; c.width=32; c.a=kind; return script_word(&c,i); }
static void longrun(int kind,long n,int chunk,int tail){ int p[2]; if(pipe(p)) abort(); for(int i=0;i<64;i++) sh[i]=0; fflush(NULL); pid_t c=fork();
  if(!c){ dup2(p[0],0); close(p[0]); close(p[1]); alarm(120); int nul=open("/dev/null",O_WRONLY); dup2(nul,2); gsl_rng *r=gsl_rng_alloc(T); gsl_rng_set(r,1); for(long i=0;i<n+2;i++){ unsigned long v; if(i%4099==17){ double u=gsl_rng_uniform(r)*4294967296.0; uint32_t e=lw(kind,i); v= fabs(u-e)<=1.5? e : ~(unsigned long)e; } else v=gsl_rng_get(r); sh[0]++; if(v!=lw(kind,i)){ sh[1]=i+1; sh[2]=v; break; } } sh[60]=1; _exit(0); }
  close(p[0]); signal(SIGPIPE,SIG_IGN); long tot=4*n+tail,off=0; unsigned char *b=malloc(chunk);
  while(off<tot){ int k= tot-off<chunk?tot-off:chunk; for(int i=0;i<k;i++){ long q=off+i; b[i]=lw(kind,q/4)>>(8*(q%4)); } int d=0; while(d<k){ int w=write(p[1],b+d,k-d); if(w<=0) break; d+=w; } if(d<k) break; off+=k; }
  free(b); close(p[1]); int st; waitpid(c,&st,0);
  if(sh[1]) vp_fail("stream of %ld words in chunks of %d bytes: word %ld is %08lx, the stream says %08x",n,chunk,sh[1]-1,sh[2],lw(kind,sh[1]-1));
  else if(sh[0]!=n||sh[60]||!WIFEXITED(st)) vp_fail("stream of %ld words and %d bytes in chunks of %d bytes: %ld words delivered (status %x)",n,tail,chunk,sh[0],st);
  vp_stat("states",n); vp_stat("transitions",n); vp_stat("traces",1); }
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0; dieharder_rng_types(); T=dh_rng_types[200];
  sh=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  int maxl=vp_thorough?15:12;
  for(int len=0;len<=maxl;len++) for(int sub=0;sub<(len>8?16:1);sub++) if(vp_begin("len%d/part%d",len,sub)){
    long nc= len>1? 1L<<(len-1):1; 
    for(long m=sub;m<nc && !vp_failed();m+= len>8?16:1){ unsigned char cut[32]; for(int i=1;i<len;i++) cut[i]=(m>>(i-1))&1;
      run(len,cut,len/4+1,m&1); if(len>=4 && !vp_failed() && (m%7==0)) run(len,cut,len/4,0); }
    if(len==9&&!sub) vp_sample("9 bytes, all 256 ways of cutting them into chunks, 3 words wanted: 2 delivered, then stop with a message");
  }
  { static const int CK[]={1,3,4,7,4095,4096,4097,65536,65537}; for(int k=0;k<9;k++) if(vp_begin("contents/chunk%d",CK[k])){ for(int tail=0;tail<4&&!vp_failed();tail++) if(k>3||tail==k) longrun(0,5L*16807,CK[k],tail); if(k==0) vp_sample("all sequences of five words over {0, 2^32-1, 1, 2^31, 0x01020304, 0x0a0d1a04, 2^31-1}, one byte per write"); } }
  for(int k=0;k<(vp_thorough?4:2);k++) if(vp_begin("long/%d",k)) longrun(1+k,(1L<<(vp_thorough?25:21))+k,65536+k,k);
  return vp_done();
}
