/* C03: raw file input. Every file length in a range x every history of reads / reseeds /
 * reopenings up to a depth, on the real generator, against a pure model. */
#include <dieharder/libdieharder.h>
#include "vp.h"
#include "script.h"
#include <unistd.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <sys/stat.h>
static char dir[500];
typedef struct { char path[600]; long bytes, n; uint32_t w[4096]; } Fil;
static Fil F[2];
static const gsl_rng_type *T;
static void mkfile(Fil *f,int which,long bytes){
  snprintf(f->path,sizeof f->path,"%s/f%d",dir,which); f->bytes=bytes; f->n=bytes/4;
  FILE *o=fopen(f->path,"wb"); Script s; memset(&s,0,sizeof s); s.kind=SK_MIX; s.width=32; s.a=which*1000+7;
  for(long i=0;i<(bytes+3)/4;i++){ uint32_t v=script_word(&s,i); if(i%7==3) v=0; if(i%11==5) v=~0u; f->w[i]=v; long k=bytes-4*i; fwrite(&v,1,k>4?4:k,o); }
  fclose(o);
}
typedef struct { gsl_rng *r; int f; long tot; } Gen; /* model: file, words delivered since the last reseed */
static Gen G;
static int fdbase;
static void openg(Gen *g,int f){ strcpy(filename,F[f].path); g->r=gsl_rng_alloc(T); g->f=f; g->tot=0; }
static int rd(Gen *g,long n,const char *h,int dbl){
  Fil *f=&F[g->f];
  for(long i=0;i<n;i++){
    uint32_t e=f->w[g->tot%f->n]; g->tot++;
    if(dbl){ double u=gsl_rng_uniform(g->r); double lo=e/4294967296.0, hi=(e+1.0)/4294967296.0; if(!(u>=lo-1e-15 && u<=hi+1e-15)){ vp_fail("file of %ld bytes, history %s: uniform number %ld is %.12f, word is %08x",f->bytes,h,g->tot,u,e); return 0; } }
    else { unsigned long v=gsl_rng_get(g->r); if(v!=e){ vp_fail("file of %ld bytes, history %s: word %ld since reseed is %08lx, expected %08x",f->bytes,h,g->tot,v,e); return 0; } }
    vp_stat("transitions",1);
  }
  return 1;
}
static int counts(Gen *g,const char *h){
  Fil *f=&F[g->f]; long rw= g->tot? (g->tot-1)/f->n:0;
  if(file_input_get_rtot(g->r)!=g->tot){ vp_fail("file of %ld bytes, history %s: %ld words counted, %ld delivered",f->bytes,h,(long)file_input_get_rtot(g->r),g->tot); return 0; }
  if(file_input_get_rewind_cnt(g->r)!=rw){ vp_fail("file of %ld bytes, history %s: %u wrap-arounds counted, %ld happened (%ld words of %ld)",f->bytes,h,file_input_get_rewind_cnt(g->r),rw,g->tot,f->n); return 0; }
  return 1;
}
#define NOPS 9
static const char *OPN[NOPS]={"get1","get(n-1)","get(n)","get(n+1)","uniform","seed1","seedBig","open-other","other-in-parallel"};
static int step(int op,const char *h){
  long n=F[G.f].n;
  switch(op){
    case 0: return rd(&G,1,h,0)&&counts(&G,h);
    case 1: return rd(&G,n-1,h,0)&&counts(&G,h);
    case 2: return rd(&G,n,h,0)&&counts(&G,h);
    case 3: return rd(&G,n+1,h,0)&&counts(&G,h);
    case 4: return rd(&G,1,h,1)&&counts(&G,h);
    case 5: strcpy(filename,F[G.f].path); gsl_rng_set(G.r,1); G.tot=0; return counts(&G,h);
    case 6: strcpy(filename,F[G.f].path); gsl_rng_set(G.r,4294967295u); G.tot=0; return counts(&G,h);
    case 7: gsl_rng_free(G.r); openg(&G,!G.f); gsl_rng_set(G.r,5); return rd(&G,1,h,0)&&counts(&G,h);
    case 8: { Gen o; openg(&o,!G.f); if(!rd(&o,2,h,0)) return 0; if(!rd(&G,2,h,0)) return 0; if(!rd(&o,F[o.f].n,h,0)||!counts(&o,h)) return 0; strcpy(filename,F[o.f].path); gsl_rng_set(o.r,9); o.tot=0; if(!rd(&o,1,h,0)) return 0; gsl_rng_free(o.r); strcpy(filename,F[G.f].path); return counts(&G,h); }
  }
  return 0;
}
static void child(void *a){ /* open, read 40 words */
  gsl_rng *r=gsl_rng_alloc(T); vp_shared[0]=1; gsl_rng_set(r,1); vp_shared[0]=2; for(int i=0;i<40;i++){ gsl_rng_get(r); vp_shared[1]++; }
}
/* large files, sparse: words near every power of two (and at both ends) are mixed, the rest zero; once round and on into the second round */
static int sp_mark(long i,long n){ if(i<64||i>=n-64) return 1; for(int k=6;k<40;k++){ long b=1L<<k; if(i>=b-4&&i<b+20) return 1; } return 0; }
static uint32_t sp_word(long i){ Script s; memset(&s,0,sizeof s); s.kind=SK_MIX; s.width=32; s.a=4242; return script_word(&s,i)|1; }
static void sparse(long bytes){ long n=bytes/4; snprintf(filename,128,"%s/sparse",dir); int fd=open(filename,O_CREAT|O_TRUNC|O_WRONLY,0600); if(fd<0||ftruncate(fd,bytes)){ if(fd>=0) close(fd); unlink(filename); vp_stat("skipped_no_room",1); return; }
  for(long i=0;i<n;){ if(sp_mark(i,n)){ uint32_t v=sp_word(i); pwrite(fd,&v,4,4*i); i++; continue; } long b=n-64; for(int k=6;k<40;k++) if((1L<<k)-4>i&&(1L<<k)-4<b){ b=(1L<<k)-4; break; } i=b; }
  close(fd); gsl_rng *r=gsl_rng_alloc(T); gsl_rng_set(r,1); long tot=n+n/8+70; if(tot>n+100000) tot=n+100000;
  long edge=0; for(long q=0;q<tot&&!vp_failed();q++){ long i=q<n?q:q-n; int mk; if(i>=64&&i<n-64){ if(i>=edge+20||i<edge-4){ edge=64; while(edge+20<=i) edge*=2; } mk= i>=edge-4&&i<edge+20; } else { mk=1; edge=0; }
    uint32_t e=mk?sp_word(i):0; unsigned long v=gsl_rng_get(r); if(v!=e) vp_fail("file of %ld bytes: word %ld is %08lx, expected %08x",bytes,q,v,e); }
  if(!vp_failed()&&(file_input_get_rtot(r)!=tot||file_input_get_rewind_cnt(r)!=(tot-1)/n)) vp_fail("file of %ld bytes: %ld words and %u wrap-arounds counted, %ld and %ld happened",bytes,(long)file_input_get_rtot(r),file_input_get_rewind_cnt(r),tot,(tot-1)/n);
  gsl_rng_free(r); unlink(filename); vp_stat("states",1); vp_stat("traces",1); vp_stat("transitions",tot); }
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0;
  snprintf(dir,sizeof dir,"%s",getenv("VP_SCRATCH")?getenv("VP_SCRATCH"):"/tmp");
  dieharder_rng_types(); T=dh_rng_types[201];
  int hi=vp_thorough?132:84, depth=vp_thorough?5:4;
  fdbase=dup(0); close(fdbase);
  for(int b=64;b<=hi;b++) for(int o0=0;o0<NOPS;o0++) if(vp_begin("bytes%d/%s",b,OPN[o0])){
    mkfile(&F[0],0,b); mkfile(&F[1],1,64+ (b*5)%37);
    int d= (vp_thorough && b>72) ? 4 : depth; long tot=1; for(int i=1;i<d;i++) tot*=NOPS;
    for(long k=0;k<tot && !vp_failed();k++){
      char h[300]; int ops[8]; ops[0]=o0; long q=k; for(int i=1;i<d;i++){ ops[i]=q%NOPS; q/=NOPS; }
      int hl=0; for(int i=0;i<d;i++) hl+=snprintf(h+hl,sizeof h-hl,"%s%s",i?",":"",OPN[ops[i]]);
      openg(&G,0); if(k&1) gsl_rng_set(G.r,1);
      for(int i=0;i<d;i++){ if(!step(ops[i],h)) break; vp_stat("states",1); }
      gsl_rng_free(G.r); syscall(SYS_close_range,fdbase,fdbase+100,0);
      vp_stat("traces",1);
    }
    if(b==66 && o0==0) vp_sample("file of %d bytes (%d words, %d trailing bytes): all %ld histories of %d operations from {get 1, n-1, n, n+1, uniform, reseed, reopen other file, second file in parallel}",b,b/4,b%4,tot,d);
  }
  /* long reseed history: descriptors must not run out */
  if(vp_begin("reseed-3000-times")){ struct rlimit rl={256,256}; setrlimit(RLIMIT_NOFILE,&rl); mkfile(&F[0],0,70); openg(&G,0); for(int i=1;i<=3000 && !vp_failed();i++){ gsl_rng_set(G.r,i); G.tot=0; rd(&G,1+i%3,"many reseeds",0); vp_stat("states",1);} vp_stat("traces",1); }
  /* large file crossing stdio buffer boundaries */
  for(int b=4092;b<=(vp_thorough?16384:4104);b+= b<4104?1:1023) if(vp_begin("big%d",b)){ mkfile(&F[0],0,b); openg(&G,0); rd(&G,3*(b/4)+1,"three times round",0); if(!vp_failed()) counts(&G,"three times round"); vp_stat("states",1); vp_stat("traces",1); }
  for(int k=13;k<=27;k++) for(int d=-4;d<=4;d+=4) if(vp_begin("sparse/2^%d%+d",k,d)) sparse((1L<<k)+d);
  { static const long BG[]={(1L<<32)+64,(1L<<31)+64,(1L<<33)+72,(1L<<34)+68}; for(int i=0;i<(vp_thorough?4:1);i++) if(vp_begin("sparse/%ld",BG[i])) sparse(BG[i]); }
  /* files that must be refused */
  for(int b=-3;b<64;b++) if(vp_begin("refuse/%d",b)){
    char so[2000],se[2000]; snprintf(filename,128,"%s/refuse",dir); unlink(filename);
    if(b>=0){ FILE*f=fopen(filename,"wb"); for(int i=0;i<b;i++) fputc(i*37,f); fclose(f); }
    else if(b==-2) snprintf(filename,128,"%s",dir); else if(b==-3) filename[0]=0;
    if(strlen(filename)>=127) continue;
    if(!vp_shared) vp_fork((void(*)(void*))getpid,0,5,0,0,0,0);
    vp_shared[0]=vp_shared[1]=0;
    int st=vp_fork(child,0,20,so,sizeof so,se,sizeof se);
    if(vp_shared[1]) vp_fail("%s: %ld words were delivered from it",b==-1?"missing file":b==-2?"directory":b==-3?"no file name":"file too short",vp_shared[1]);
    else if(st>=256||st<0) vp_fail("the process died (status %d) instead of reporting an error",st);
    else if(!se[0] && !so[0]) vp_fail("refused without any message");
    vp_stat("states",1); vp_stat("transitions",1);
  }
  return vp_done();
}
