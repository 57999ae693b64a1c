/* C16: independence of earlier tests under reseed-per-test. A de Bruijn sequence over all test
 * configurations drives the real execute_test() through EVERY ordered pair of configurations; each
 * report (all sample p-values) is compared with the one the configuration gives alone in a fresh process. */
#include "dieharder.h"
#include "vp.h"
#include "cap.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
typedef struct { int num, nt; unsigned ts, ps; int ov; } Node;
static Node BASE_[]={
 {0,0,100,3,1},{0,0,40,2,1},{1,0,2000,2,1},{1,0,500,2,0},{2,0,300,2,1},{3,0,400,2,1},{4,0,2097152,1,1},{4,0,2097152,1,0},{5,0,2097152,1,1},{6,0,2097152,1,1},{7,0,2097152,1,1},
 {8,0,3001,2,1},{8,0,1000,2,0},{9,0,3001,2,1},{9,0,500,2,0},{10,0,0,1,1},{11,0,800,2,1},{12,0,400,2,1},{13,0,1000,2,1},{14,0,100,2,1},{15,0,1001,2,1},{16,0,1000,2,1},
 {17,0,3000,2,1},{17,0,12000,2,1},{17,0,500,2,1},{100,0,1001,2,1},{101,0,1001,2,1},{102,0,1001,2,1},{102,0,300,2,1},
 {200,1,1000,2,1},{200,3,1000,2,1},{200,7,500,2,1},{201,2,300,2,1},{201,5,300,2,1},{202,2,1000,2,1},{202,5,1001,2,1},{203,0,1000,2,1},{203,5,1000,2,1},{204,0,100,2,1},
 {205,0,9000,2,1},{206,0,400,2,1},{206,64,400,2,1},{207,0,9000,2,1},{208,0,9000,2,1},{208,1,9000,2,1},{209,0,90000,2,1},{210,0,300,2,1},{211,0,0,1,1}};
#define NB (int)(sizeof BASE_/sizeof *BASE_)
#define NX 80
static Node ND_[NX]; static int nn;
#define OUTSZ 20000
static char *ref; static int gens[8], ngens; static char rawfile[600]; static int noreset;
static void setup(int g){ set_globals(); dieharder_rng_types(); dieharder_test_types(); verbose=0; tflag=TTEST_NAME|TNUM|TNTUPLE|TTSAMPLES|TPSAMPLES|TPVALUES|TPSAMPLE_VALS; Seed=4711; strategy=1; gnumbs[0]=g; gvcount=1; if(g==201){ strcpy(filename,rawfile); fromfile=1; } 
  if(select_rng(g,"",Seed)<0) _exit(7); all=YES; multiply_p=1; psamples=0; tsamples=0; ntuple=0; }
static void run(const Node *n,char *o){ Dtest *d=dh_test_types[n->num]; d->psamples_std=n->ps; d->tsamples_std=n->ts; dtest_num=n->num; overlap=n->ov; unsigned save=ntuple; ntuple=n->nt; if(!noreset) reset_bit_buffers(); execute_test(n->num); ntuple=save; snprintf(o,OUTSZ,"%s",cap_take()); }
typedef struct { int g, node; char *dst; } Ref;
static void childref(void *v){ Ref *r=v; cap_start(); freopen("/dev/null","w",stderr); setup(r->g); run(&ND_[r->node],r->dst); }
static int seqn[NX*NX+2], nseq;
static void debruijn(void){ /* Eulerian circuit of the complete digraph with loops: node i visits i,i+1.. */
  static int nx[NX]; static int st[NX*NX+5]; memset(nx,0,sizeof nx); nseq=0; int sp=0; st[sp++]=0; while(sp){ int v=st[sp-1]; if(nx[v]<nn){ int w=(v+nx[v])%nn; nx[v]++; st[sp++]=w; } else { seqn[nseq++]=v; sp--; } }
  for(int i=0;i<nseq/2;i++){ int t=seqn[i]; seqn[i]=seqn[nseq-1-i]; seqn[nseq-1-i]=t; } }
typedef struct { int g, from, to; long *res; char *buf; } Ch;
static void childrun(void *v){ Ch *c=v; cap_start(); freopen("/dev/null","w",stderr); setup(c->g); c->res[0]=0; for(int i=c->from;i<=c->to;i++){ run(&ND_[seqn[i]],c->buf); if(strcmp(c->buf,ref+(size_t)seqn[i]*OUTSZ)){ c->res[1]=i; c->res[2]=1; return; } c->res[0]++; } c->res[2]=2; }
static void *shm(size_t n){ return mmap(0,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
static void diff(const char *a,const char *b,char *o){ while(*a&&*a==*b){ a++; b++; } const char *p=a; snprintf(o,300,"got '%.60s' alone '%.60s'",a,b); for(char *c=o;*c;c++) if(*c=='\n') *c='/'; }
static char done[NX]; static long *res; static char *buf;
static void steps(int g,int from,int to){ static char so[1000],se[1000];
    for(int i=from;i<=to;i++) if(!done[seqn[i]]){ Ref r={g,seqn[i],ref+(size_t)seqn[i]*OUTSZ}; int rc=vp_fork(childref,&r,120,so,sizeof so,se,sizeof se); if(rc||!*r.dst){ vp_fail("test %d alone ended with status %d %s",ND_[seqn[i]].num,rc,se); break; } done[seqn[i]]=1; }
    if(vp_failed()) return;
    Ch c={g,from,to,res,buf}; res[0]=res[1]=res[2]=0; int rc=vp_fork(childrun,&c,300,so,sizeof so,se,sizeof se);
    if(res[2]!=2){ int at=from+res[0]; char d[310]="(ended early)"; if(res[2]==1) diff(buf,ref+(size_t)seqn[at]*OUTSZ,d);
      vp_fail("test %d (n %d, t %u) directly after test %d (n %d, t %u), step %d: %s [status %d]",ND_[seqn[at]].num,ND_[seqn[at]].nt,ND_[seqn[at]].ts,at>from?ND_[seqn[at-1]].num:-1,at>from?ND_[seqn[at-1]].nt:0,at>from?ND_[seqn[at-1]].ts:0,at,d,rc); }
    vp_stat("states",res[0]); vp_stat("transitions",res[0]); vp_stat("traces",res[0]); }
/* families: every ordered pair of the configurations of one test (sample counts x n-tuples x overlap x number of samples) */
static const int FNT[][5]={{200,1,3,6,9},{201,2,3,4,5},{202,2,3,4,5},{203,0,1,5,33},{206,0,64,128,16},{207,0,1,8,31},{208,0,1,8,31}};
static void family(int num){ unsigned TS[4]={300,1000,777,2500}; int nt[4]={0,0,0,0}, nnt=1; for(int i=0;i<7;i++) if(FNT[i][0]==num){ nnt=4; for(int k=0;k<4;k++) nt[k]=FNT[i][k+1]; }
  if(num>=205&&num!=206){ TS[0]=9000; TS[1]=20000; TS[2]=12345; TS[3]=40000; } if(num==0||num==14||num==210){ TS[0]=40; TS[1]=100; TS[2]=256; TS[3]=333; } if(num==10||num==211){ for(int i=0;i<4;i++) TS[i]=0; }
  nn=0; for(int a=0;a<(vp_thorough?4:3);a++) for(int b=0;b<nnt;b++) for(int ov=!vp_thorough&&nnt>1;ov<2;ov++){ Node x={num,nt[b],TS[a],1+(a+b)%3,ov}; int dup=0; for(int i=0;i<nn;i++) dup|=!memcmp(&ND_[i],&x,sizeof x); if(!dup) ND_[nn++]=x; }
  memset(done,0,sizeof done); debruijn(); }
int main(int argc,char **argv){
  vp_init(argc,argv); for(nn=0;nn<NB;nn++) ND_[nn]=BASE_[nn]; debruijn(); ref=shm((size_t)NX*OUTSZ); buf=shm(OUTSZ); res=shm(100); static char so[1000],se[1000];
  snprintf(rawfile,600,"%s/raw",getenv("VP_SCRATCH")?getenv("VP_SCRATCH"):"/tmp"); FILE *f=fopen(rawfile,"wb"); uint64_t z=88172645463325252ull; for(int i=0;i<3000000;i++){ z^=z<<13; z^=z>>7; z^=z<<17; uint32_t w=z>>16; fwrite(&w,4,1,f); } fclose(f);
  gens[ngens++]=atoi(vp_arg("--gen","13"));
  int chunk=64, g=gens[0];
  for(int from=0;from<nseq-1;from+=chunk){ int to=from+chunk<nseq-1?from+chunk:nseq-1;
    if(vp_begin("g%d/steps%d-%d",g,from,to)) steps(g,from,to); }
  /* Known: execute_test() itself does not empty the bit buffers. Histories run,run without the reset. */
  noreset=1;
  for(int k=0;k<NB;k++) if(g==13&&ND_[k].num==0&&ND_[k].ts==40&&vp_begin("finding/noreset/g13/birthdays-t40,birthdays-t40")){
    Ref r={g,k,ref+(size_t)k*OUTSZ}; int rc=vp_fork(childref,&r,120,so,sizeof so,se,sizeof se); if(rc){ vp_fail("alone: status %d",rc); continue; }
    seqn[0]=seqn[1]=k; Ch c={g,0,1,res,buf}; res[0]=res[1]=res[2]=0; vp_fork(childrun,&c,300,so,sizeof so,se,sizeof se);
    if(res[2]!=2) vp_fail("second run of diehard_birthdays under the same seed differs: bits left in the get_rand_bits() buffer by the first"); }
  dieharder_test_types(); int fam[MAXTESTS], nf=0; for(int i=0;i<MAXTESTS;i++) if(dh_test_types[i]&&dh_test_types[i]->name) fam[nf++]=i;
  noreset=0; if(vp_thorough||g==13) for(int q=0;q<nf;q++) if(vp_begin("g%d/family/%s",g,dh_test_types[fam[q]]->sname)){ family(fam[q]); for(int from=0;from<nseq-1&&!vp_failed();from+=chunk) steps(g,from,from+chunk<nseq-1?from+chunk:nseq-1); if(q==20&&g==13) vp_sample("%s: all %d ordered pairs of its %d configurations",dh_test_types[fam[q]]->sname,nn*nn,nn); }
  return vp_done();
}
