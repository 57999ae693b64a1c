/* C04: formatted file input. Every declared format x header layout x count x history of
 * reads / reseeds / reopenings up to a depth, on the real generator, against a pure model. */
#include <dieharder/libdieharder.h>
#include "vp.h"
#include "script.h"
#include <unistd.h>
#include <sys/resource.h>
#include <sys/syscall.h>
static char dir[200];
static const char TYPES[]="diueEfFgoxXb";
typedef struct { char path[600]; char type; int nb, n; double lo[400], hi[400]; uint32_t ex[400]; int real; } Fil;
static Fil F[2]; static const gsl_rng_type *T; static int fdbase;
static uint32_t BV[200]; static int NBV;
static const double RV[]={0.0,0.5,0.25,0.75,0.999999,0.0000001,0.123456789,0.3333333333,0.9999999999,0.0000000003,0.6180339887,0.1,0.2,0.3,0.4,0.6,0.7,0.8,0.9,0.999,0.001};
#define NRV (int)(sizeof RV/sizeof *RV)
static const int PERM[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
static void mkfile(Fil *f,int which,char type,int nb,int perm,int lay,int n,int vs,int extra,int declared){
  snprintf(f->path,sizeof f->path,"%s/g%d",dir,which); f->type=type; f->nb=nb; f->n=n; f->real=strchr("eEfFg",type)!=0;
  FILE *o=fopen(f->path,"w");
  if(lay&1) fprintf(o,"# a comment\n#12345\n# type: x\n");
  for(int i=0;i<3;i++){
    static const char *SEP[4]={": ",":",":\t",":   "}; const char *sep=SEP[(lay>>2&1)*2+(perm&1)];
    switch(PERM[perm][i]){ case 0: fprintf(o,"type%s%c\n",sep,type); break; case 1: fprintf(o,"count%s%d\n",sep,declared>=0?declared:n); break; case 2: fprintf(o,"numbit%s%d\n",sep,nb); }
    if((lay&2) && i<2) fprintf(o,"# between %d\n#99\n",i);
  }
  for(int i=0;i<n+extra;i++){
    uint32_t v=BV[(vs+i)%NBV]; double d=RV[(vs+i)%NRV];
    if(type=='b' && nb<32) v&=(1u<<nb)-1;
    switch(type){
      case 'd': fprintf(o,"%10u\n",v); break; case 'i': fprintf(o,"%u\n",v); break; case 'u': fprintf(o,"  %u\n",v); break;
      case 'e': case 'E': fprintf(o,"%.12e\n",d); break; case 'f': fprintf(o,"%0.10f\n",d); break; case 'F': fprintf(o,"%.12f\n",d); break; case 'g': fprintf(o,"%.12g\n",d); break;
      case 'o': fprintf(o,"%o\n",v); break; case 'x': fprintf(o,i&1?"0x%x\n":"%x\n",v); break; case 'X': fprintf(o,"%X\n",v); break;
      case 'b': for(int b=nb-1;b>=0;b--) fputc('0'+((v>>b)&1),o); fputc('\n',o); break; }
    if(i<n){ f->ex[i]=v; f->lo[i]=d*4294967296.0-2.5; f->hi[i]=d*4294967296.0+1.5; }
  }
  fclose(o);
}
typedef struct { gsl_rng *r; int f; long tot; } Gen; static Gen G;
static void openg(Gen *g,int f){ strcpy(filename,F[f].path); g->r=gsl_rng_alloc(T); g->f=f; g->tot=0; }
static int rd(Gen *g,long n,const char *h,int dbl){
  Fil *f=&F[g->f];
  for(long i=0;i<n;i++){
    int k=g->tot%f->n; double lo,hi; g->tot++;
    if(f->real){ lo=f->lo[k]; hi=f->hi[k]; } else { lo=hi=f->ex[k]; }
    double v; if(dbl){ v=gsl_rng_uniform(g->r)*4294967296.0; lo-=1e-3; hi+=1.001; } else v=gsl_rng_get(g->r);
    vp_stat("transitions",1);
    if(!(v>=lo && v<=hi)){ vp_fail("type %c, %d numbers, history %s: number %ld since reseed is %.0f, the file says %.0f..%.0f",f->type,f->n,h,g->tot,v,lo,hi); return 0; }
  }
  return 1;
}
static int counts(Gen *g,const char *h){
  Fil *f=&F[g->f]; long rw=g->tot?(g->tot-1)/f->n:0;
  if(file_input_get_rtot(g->r)!=g->tot){ vp_fail("history %s: %ld numbers counted, %ld delivered",h,(long)file_input_get_rtot(g->r),g->tot); return 0; }
  if(file_input_get_rewind_cnt(g->r)!=rw){ vp_fail("history %s: %u wrap-arounds counted, %ld happened (%ld numbers of %d)",h,file_input_get_rewind_cnt(g->r),rw,g->tot,f->n); return 0; }
  return 1;
}
#define NOPS 7
static const char *OPN[NOPS]={"get1","get(n-1)","get(n)","get(n+1)","uniform","reseed","open-other"};
static int step(int op,const char *h){
  long n=F[G.f].n;
  switch(op){
    case 0: case 1: case 2: case 3: return rd(&G,op==0?1:n+op-2,h,0)&&counts(&G,h);
    case 4: return rd(&G,1,h,1)&&counts(&G,h);
    case 5: strcpy(filename,F[G.f].path); gsl_rng_set(G.r,77); G.tot=0; return counts(&G,h);
    case 6: gsl_rng_free(G.r); openg(&G,!G.f); return rd(&G,1,h,0)&&counts(&G,h);
  }
  return 0;
}
static void child(void *a){ gsl_rng *r=gsl_rng_alloc(T); gsl_rng_set(r,1); for(int i=0;i<40;i++){ vp_shared[2+i]=gsl_rng_get(r); vp_shared[1]++; } }
/* a file whose data ends or breaks after `good' numbers must deliver exactly those and then stop with a message */
static void bad(const char *text,int good,const long *vals,const char *what){
  char so[2000],se[2000]; snprintf(filename,500,"%s/bad",dir); FILE*f=fopen(filename,"w"); fputs(text,f); fclose(f);
  vp_shared[1]=0; int st=vp_fork(child,0,20,so,sizeof so,se,sizeof se);
  if(st>=256||st<0) vp_fail("%s: the process died (status %d) instead of reporting an error",what,st);
  else if(vp_shared[1]!=good) vp_fail("%s: %ld numbers were delivered, %d are in the file",what,vp_shared[1],good);
  else if(!se[0]) vp_fail("%s: no error message",what);
  else for(int i=0;i<good;i++) if(vp_shared[2+i]!=vals[i]){ vp_fail("%s: number %d is %ld, expected %ld",what,i+1,vp_shared[2+i],vals[i]); break; }
  vp_stat("states",1); vp_stat("transitions",good+1);
}
static void cmt(void *v){ gsl_rng *r=gsl_rng_alloc(T); gsl_rng_set(r,1); for(int i=0;i<5;i++){ vp_shared[1+i]=gsl_rng_get(r); vp_shared[0]++; } }
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0; snprintf(dir,sizeof dir,"%s",getenv("VP_SCRATCH")?getenv("VP_SCRATCH"):"/tmp");
  dieharder_rng_types(); T=dh_rng_types[202];
  BV[NBV++]=0; BV[NBV++]=0xffffffffu; BV[NBV++]=0x12345678; for(int i=0;i<32;i++){ BV[NBV++]=1u<<i; BV[NBV++]=(1u<<i)-1; BV[NBV++]=(1u<<i)+1; } BV[NBV++]=0x80000000u; BV[NBV++]=0xdeadbeef;
  fdbase=dup(0); close(fdbase); int depth=vp_thorough?4:3;
  for(const char *t=TYPES;*t;t++) for(int nb=1;nb<=32;nb++) if((*t=='b'||nb==32) && vp_begin("values/type-%c/bits%d",*t,nb)){
    mkfile(&F[0],0,*t,nb,0,0,strchr("eEfFg",*t)?NRV:NBV,0,3,-1); openg(&G,0); rd(&G,3*F[0].n+2,"all values, three times round",0); if(!vp_failed()) counts(&G,"all values"); vp_stat("traces",1); vp_stat("states",F[0].n); }
  /* long files: every number distinct, twice round */
  { static const int LN[]={127,128,129,255,256,257,999,1023,1024,1025,4095,4096,4097,32767,32768,32769,65535,65536,65537,100001,262145}; for(int i=0;i<21;i++) for(const char *t="dxb";*t;t++) if(vp_begin("long/type-%c/%d",*t,LN[i])){ int n=LN[i]; snprintf(F[0].path,sizeof F[0].path,"%s/g0",dir); FILE *o=fopen(F[0].path,"w"); fprintf(o,"type: %c\ncount: %d\nnumbit: 32\n",*t,n); Script s; memset(&s,0,sizeof s); s.kind=SK_MIX; s.width=32; s.a=n; for(int k=0;k<n;k++){ uint32_t v=script_word(&s,k); if(*t=='d') fprintf(o,"%u\n",v); else if(*t=='x') fprintf(o,"%x\n",v); else { for(int b=31;b>=0;b--) fputc('0'+(v>>b&1),o); fputc('\n',o); } } fclose(o);
     strcpy(filename,F[0].path); gsl_rng *r=gsl_rng_alloc(T); gsl_rng_set(r,1); for(int k=0;k<2*n+2&&!vp_failed();k++){ uint32_t e=script_word(&s,k%n); unsigned long v=gsl_rng_get(r); if(v!=e) vp_fail("type %c, %d numbers: number %d is %lu, the file says %u",*t,n,k,v,e); if(!vp_failed()&&(k%n<2||k%n==n-1)&&(file_input_get_rtot(r)!=k+1||file_input_get_rewind_cnt(r)!=k/n)) vp_fail("type %c, %d numbers: %ld delivered and %u wrap-arounds counted after %d",*t,n,(long)file_input_get_rtot(r),file_input_get_rewind_cnt(r),k+1); } gsl_rng_free(r); unlink(F[0].path); vp_stat("states",1); vp_stat("traces",1); vp_stat("transitions",2*n+2); } }
  /* comment lines of every length around the powers of two, and many of them, whatever they say, before and between the header lines */
  { static const char *CT[]={"x","count: 2","type: o","numbit: 7","12345"," a b c d e"}; for(int L=1;L<=4100;L+= L<40||(L>120&&L<132)||(L>250&&L<262)||(L>505&&L<520)||(L>1000&&L<1050)||(L>2030&&L<2060)||(L>4080)?1:61) if(vp_begin("comment/%d",L)) for(int c=0;c<6&&!vp_failed();c++) for(int at=0;at<3&&!vp_failed();at++) if(vp_thorough||(L>1018&&L<1040)||(c+at*2+L)%6==0){ snprintf(filename,128,"%s/cm",dir); FILE *o=fopen(filename,"w"); for(int i=0;i<3;i++){ if(i==at){ fputc('#',o); int k=1,m=strlen(CT[c]); for(;k<L-m;k++) fputc(k%97==0?' ':'-',o); fputs(CT[c],o); fputc('\n',o); } fputs(i==0?"type: d\n":i==1?"count: 3\n":"numbit: 32\n",o); } fputs("11\n22\n33\n",o); fclose(o);
     static char so[2000],se[2000]; if(!vp_shared) vp_fork((void(*)(void*))getpid,0,5,0,0,0,0); memset((void*)vp_shared,0,8*sizeof *vp_shared); int st=vp_fork(cmt,0,20,so,sizeof so,se,sizeof se); vp_stat("states",1); vp_stat("traces",1); vp_stat("transitions",5); if(st||vp_shared[0]!=5||vp_shared[1]!=11||vp_shared[2]!=22||vp_shared[3]!=33||vp_shared[4]!=11||vp_shared[5]!=22) vp_fail("a comment of %d characters ending in '%s' before header line %d: read %ld numbers %ld %ld %ld %ld %ld; %.200s",L,CT[c],at,vp_shared[0],vp_shared[1],vp_shared[2],vp_shared[3],vp_shared[4],vp_shared[5],se); } }
  if(vp_begin("reseed-3000-times")){ struct rlimit rl={256,256}; setrlimit(RLIMIT_NOFILE,&rl); mkfile(&F[0],0,'d',32,0,0,3,0,0,-1); openg(&G,0); for(int i=1;i<=3000 && !vp_failed();i++){ gsl_rng_set(G.r,i); G.tot=0; rd(&G,1+i%5,"many reseeds",0); vp_stat("states",1);} vp_stat("traces",1); }
  if(!vp_shared) vp_fork((void(*)(void*))getpid,0,5,0,0,0,0);
  static const char *NUM[12]={"5","5","5","5e-1","5E-1","0.5","0.5","0.5","5","5","5","101"};
  for(int t=0;t<12;t++){ char c=TYPES[t]; int real=strchr("eEfFg",c)!=0; char b[600]; long v[8]; 
    if(c!='b') for(int bk=0;bk<3;bk++) for(int g=0;g<=2;g++) if(!real && vp_begin("broken-line/type-%c/kind%d/after%d",c,bk,g)){
      static const char *B[3]={"\n","   \n","zzz\n"}; int k=sprintf(b,"type: %c\ncount: 5\nnumbit: 32\n",c); for(int i=0;i<g;i++){ k+=sprintf(b+k,"%s\n",NUM[t]); v[i]=5; } k+=sprintf(b+k,"%s",B[bk]); for(int i=0;i<4;i++) k+=sprintf(b+k,"%s\n",NUM[t]); bad(b,g,v,"line that is not a number"); }
    if(!real) for(int g=0;g<=3;g++) if(vp_begin("short-file/type-%c/has%d",c,g)){ int k=sprintf(b,"type: %c\ncount: %d\nnumbit: 3\n",c,g+1); for(int i=0;i<g;i++){ k+=sprintf(b+k,"%s\n",NUM[t]); v[i]=5; } bad(b,g,v,"file shorter than declared"); }
  }
  static const char *HB[]={"","1\n2\n3\n4\n5\n","type: d\n1\n2\n3\n4\n","type: d\ncount: 3\n1\n2\n3\n","count: 3\nnumbit: 32\n1\n2\n3\n","# only comments\n# here\n","type: q\ncount: 3\nnumbit: 32\n1\n2\n3\n","type\ncount\nnumbit\n1\n2\n","type: d 3\ncount: 3\nnumbit: 32\n1\n2\n3\n"};
  for(int i=0;i<(int)(sizeof HB/sizeof *HB);i++) if(vp_begin("bad-header/%d",i)) bad(HB[i],0,0,"file without a usable header");
  if(vp_begin("missing")){ char so[500],se[500]; snprintf(filename,500,"%s/nonexistent",dir); vp_shared[1]=0; int st=vp_fork(child,0,20,so,sizeof so,se,sizeof se); if(vp_shared[1]||!se[0]||st<0||st>=256) vp_fail("missing file not refused (status %d, %ld numbers)",st,vp_shared[1]); vp_stat("states",1); }
  for(const char *t=TYPES;*t;t++) for(int p=0;p<6;p++) for(int lay=0;lay<8;lay++) if(vp_begin("type-%c/headers%d/layout%d",*t,p,lay))
    for(int n=1;n<=(vp_thorough?6:4);n++) for(int extra=0;extra<2 && !vp_failed();extra++){
      int nb= *t=='b' ? 32-(n*5+lay)%9 : 32;
      mkfile(&F[0],0,*t,nb,p,lay,n,n*7+p*3+lay,extra,-1); mkfile(&F[1],1,TYPES[(t-TYPES+5)%12],32,(p+1)%6,(lay+3)&7,1+(n*3)%5,p,0,-1);
      long tot=1; for(int i=0;i<depth;i++) tot*=NOPS;
      for(long k=0;k<tot && !vp_failed();k++){
        char h[200]; int hl=0; long q=k; int ops[6]; for(int i=0;i<depth;i++){ ops[i]=q%NOPS; q/=NOPS; hl+=snprintf(h+hl,sizeof h-hl,"%s%s",i?",":"",OPN[ops[i]]); }
        openg(&G,0); if(k&1) gsl_rng_set(G.r,3);
        for(int i=0;i<depth;i++){ if(!step(ops[i],h)) break; vp_stat("states",1); }
        gsl_rng_free(G.r); syscall(SYS_close_range,fdbase,fdbase+100,0);
        vp_stat("traces",1);
      }
      if(*t=='b'&&!p&&!lay&&n==1&&!extra) vp_sample("type b, %d bits, 1 number: all %ld histories of %d operations from {get 1, n-1, n, n+1, uniform, reseed, open another file}",nb,tot,depth);
    }
  return vp_done();
}
