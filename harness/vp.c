#define _GNU_SOURCE
#include "vp.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
int vp_thorough; long vp_maxfails = 20;
static FILE *out; static char *prog; static long counter; static int shard_i, shard_n = 1;
static const char *only; static char cur[512]; static int cur_failed; static long nfail, nsample, ncases;
static int gargc; static char **gargv;
#define MAXST 64
static struct { char k[64]; long v; int ismax; } st[MAXST]; static int nst;
static unsigned long *oc; static int noc, coc;
const char *vp_arg(const char *name, const char *dflt){
  for(int i=1;i<gargc-1;i++) if(!strcmp(gargv[i],name)) return gargv[i+1];
  return dflt;
}
void vp_init(int argc, char **argv){
  gargc=argc; gargv=argv;
  const char *o=getenv("VP_OUT"); out = o? fopen(o,"w") : fopen("/dev/stderr","w");
  const char *p=getenv("VP_PROG");
  if(p){ int fd=open(p,O_RDWR|O_CREAT,0600); if(fd>=0 && ftruncate(fd,512)==0){ prog=mmap(0,512,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(prog==MAP_FAILED) prog=0; close(fd);} }
  const char *t=vp_arg("--tier","quick"); vp_thorough=!strcmp(t,"thorough");
  const char *s=vp_arg("--shard",0); if(s) sscanf(s,"%d/%d",&shard_i,&shard_n);
  only=vp_arg("--case",0); if(getenv("VP_MAXFAILS")) vp_maxfails=atol(getenv("VP_MAXFAILS"));
}
int vp_begin(const char *fmt, ...){
  va_list ap; long c=counter++;
  if(!only && (c % shard_n)!=shard_i) return 0;
  va_start(ap,fmt); vsnprintf(cur,sizeof cur,fmt,ap); va_end(ap);
  if(only && strcmp(only,cur)) return 0;
  if(prog){ strncpy(prog,cur,511); }
  cur_failed=0; ncases++;
  return 1;
}
void vp_fail(const char *fmt, ...){
  va_list ap; if(cur_failed) return; cur_failed=1; nfail++;
  fprintf(out,"FAIL [%s] ",cur); va_start(ap,fmt); vfprintf(out,fmt,ap); va_end(ap); fputc('\n',out); fflush(out);
  if(nfail>=vp_maxfails){ vp_done(); _exit(0); }
}
int vp_failed(void){ return cur_failed; }
void vp_stat(const char *k,long n){
  for(int i=0;i<nst;i++) if(!st[i].ismax && !strcmp(st[i].k,k)){ st[i].v+=n; return; }
  if(nst<MAXST){ strncpy(st[nst].k,k,63); st[nst].v=n; st[nst].ismax=0; nst++; }
}
void vp_max(const char *k,long n){
  for(int i=0;i<nst;i++) if(st[i].ismax && !strcmp(st[i].k,k)){ if(n>st[i].v) st[i].v=n; return; }
  if(nst<MAXST){ strncpy(st[nst].k,k,63); st[nst].v=n; st[nst].ismax=1; nst++; }
}
void vp_outcome(const char *fmt, ...){
  char b[256]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  unsigned long h=1469598103934665603UL; for(char*p=b;*p;p++){h^=(unsigned char)*p;h*=1099511628211UL;}
  for(int i=0;i<noc;i++) if(oc[i]==h) return;
  if(noc>=4000) return;
  if(noc==coc){ coc=coc?coc*2:64; oc=realloc(oc,coc*sizeof*oc); }
  oc[noc++]=h; fprintf(out,"OUTCOME %s\n",b);
}
void vp_sample(const char *fmt, ...){
  if(nsample++>=3) return; va_list ap; fprintf(out,"SAMPLE "); va_start(ap,fmt); vfprintf(out,fmt,ap); va_end(ap); fputc('\n',out);
}
int vp_done(void){
  fprintf(out,"STAT cases %ld\n",ncases);
  for(int i=0;i<nst;i++) fprintf(out,"%s %s %ld\n",st[i].ismax?"MAX":"STAT",st[i].k,st[i].v);
  fprintf(out,"DONE\n"); fflush(out); return 0;
}

/* Run fn(arg) in a forked child with stdin /dev/null, stdout and stderr captured.
 * Returns the exit status (0..255), 256+signal, or -1 on timeout.
 * fn should report through the shared array (vp_shared) and need not return. */
long *vp_shared; static char *cap_o, *cap_e;
int vp_fork(void (*fn)(void *), void *arg, int timeout, char *so, int nso, char *se, int nse){
  if(!vp_shared) vp_shared=mmap(0,65536,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  char po[700],pe[700]; const char *d=getenv("VP_SCRATCH"); if(!d) d="/tmp";
  snprintf(po,sizeof po,"%s/vpc_out",d); snprintf(pe,sizeof pe,"%s/vpc_err",d);
  fflush(NULL);
  pid_t c=fork();
  if(c==0){
    freopen("/dev/null","r",stdin); freopen(po,"w",stdout); freopen(pe,"w",stderr);
    alarm(timeout); fn(arg); fflush(NULL); _exit(0);
  }
  int st; if(waitpid(c,&st,0)!=c) return -2;
  if(so){ FILE*f=fopen(po,"r"); int k=f?fread(so,1,nso-1,f):0; so[k]=0; if(f) fclose(f); }
  if(se){ FILE*f=fopen(pe,"r"); int k=f?fread(se,1,nse-1,f):0; se[k]=0; if(f) fclose(f); }
  unlink(po); unlink(pe);
  if(WIFSIGNALED(st)) return WTERMSIG(st)==SIGALRM? -1 : 256+WTERMSIG(st);
  return WEXITSTATUS(st);
}
