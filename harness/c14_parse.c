/* C14 (parsing): all option sequences up to a length, in every order, through the real set_globals()
 * and parsecl(); the complete set of parameters is compared with a model in which each option sets
 * its own parameter and nothing else. */
#include "dieharder.h"
#include "vp.h"
#include <unistd.h>
typedef struct { double d[40]; char s[8][132]; } Snap;
enum { all_,tf,dn,ff,ks,ofi,ofo,mp,gc,it,li,nt,ov,ps,st,Se,ts,se,ve,Xt,Xw,Xf,Xs,Xo,xu,yu,zu,g0,g1,g2,hf,ND };
static void snap(Snap *x){ memset(x,0,sizeof *x); double *d=x->d; d[all_]=all; d[tf]=tflag; d[dn]=dtest_num; d[ff]=fromfile; d[ks]=ks_test; d[ofi]=output_file; d[ofo]=output_format; d[mp]=multiply_p; d[gc]=gvcount; d[it]=iterations; d[li]=list; d[nt]=ntuple; d[ov]=overlap; d[ps]=psamples; d[st]=strategy; d[Se]=Seed; d[ts]=tsamples; d[se]=(unsigned char)table_separator; d[ve]=verbose; d[Xt]=Xtrategy; d[Xw]=Xweak; d[Xf]=Xfail; d[Xs]=Xstep; d[Xo]=Xoff; d[xu]=x_user; d[yu]=y_user; d[zu]=z_user; d[g0]=(int)gnumbs[0]; d[g1]=(int)gnumbs[1]; d[g2]=(int)gnumbs[2]; d[hf]=help_flag;
  snprintf(x->s[0],130,"%s",dtest_name); snprintf(x->s[1],130,"%s",filename); for(int i=0;i<3;i++) snprintf(x->s[2+i],130,"%s",gnames[i]); }
/* an option: letter, argument, and its effect on one parameter */
typedef struct { const char *opt,*arg; int fld; double val; const char *str; } Opt;
static const Opt O[]={
 {"-a",0,all_,1},{"-c",",",se,','},{"-c",";",se,';'},{"-d","100",dn,100},{"-d","0",dn,0},{"-d","sts_runs",-1,0,"sts_runs"},{"-d","diehard_birthdays",-1,0,"diehard_birthdays"},
 {"-f","abc.dat",-2,0,"abc.dat"},{"-f","x",-2,0,"x"},{"-g","205",-3,205},{"-g","0",-3,0},{"-g","mt19937_1999",-4,0,"mt19937_1999"},
 {"-k","1",ks,1},{"-k","3",ks,3},{"-L","0",ov,0},{"-L","1",ov,1},{"-m","2.5",mp,2.5},{"-m","0.25",mp,.25},{"-n","7",nt,7},{"-n","32",nt,32},{"-o",0,ofi,1},{"-O","0",ofo,0},{"-O","2",ofo,2},
 {"-P","250",Xo,250},{"-p","17",ps,17},{"-p","1",ps,1},{"-S","1",Se,1},{"-S","4294967295",Se,4294967295.0},{"-s","1",st,1},{"-s","0",st,0},{"-t","1000",ts,1000},{"-t","2147483647",ts,2147483647.0},
 {"-W","0.01",Xw,.01},{"-X","0.0001",Xf,.0001},{"-x","1.5",xu,1.5},{"-Y","1",Xt,1},{"-Y","2",Xt,2},{"-y","-2.25",yu,-2.25},{"-z","1e3",zu,1000},
 {"-D","0",-5,0},{"-D","default",-5,0},{"-D","8",-6,8},{"-D","test_name",-6,8},{"-D","pvalues",-6,128},{"-D","show_num",-6,16384},{"-D","no_whitespace",-6,32768},{"-D","prefix",-6,512},{"-D","seed",-6,4096},{"-D","header",-6,1},{"-D","file_rng_stat",-6,131072},{"-D","65536",-6,65536},{"-D","histogram",-6,2048},{"-D","psamples",-6,64},{"-D","tsamples",-6,32},{"-D","ntuple",-6,16},{"-D","rate",-6,8192},{"-D","description",-6,1024},{"-D","line_header",-6,4},{"-D","show_rng",-6,2},{"-D","assessment",-6,256},{"-D","psample_values",-6,65536},
};
#define NO (int)(sizeof O/sizeof *O)
static Snap base; static int nD;
static void apply(Snap *x,const Opt *o){ switch(o->fld){ case -1: strcpy(x->s[0],o->str); break; case -2: strcpy(x->s[1],o->str); x->d[ff]=1; break; case -3: x->d[g0+(int)x->d[gc]]=o->val; x->d[gc]++; break; case -4: strcpy(x->s[2+(int)x->d[gc]],o->str); x->d[gc]++; break;
  case -5: x->d[tf]=tflag_default; nD=2; break; case -6: x->d[tf]+=o->val; if(!nD) nD=1; break; default: x->d[o->fld]=o->val; } }
static long nseq;
static void reset(void){ for(int i=0;i<4;i++){ gnames[i][0]=0; gnumbs[i]=0; } generator=0; set_globals(); }
static void seq(const int *ix,int n,int joined){
  char *av[20]; int ac=0; static char buf[8][64]; av[ac++]="dieharder"; Snap m=base; nD=0; 
  for(int i=0;i<n;i++){ const Opt *o=&O[ix[i]]; apply(&m,o); if(o->arg&&joined){ sprintf(buf[i],"%s%s",o->opt,o->arg); av[ac++]=buf[i]; } else { av[ac++]=(char*)o->opt; if(o->arg) av[ac++]=(char*)o->arg; } }
  if(!nD) m.d[tf]=tflag_default;
  av[ac]=0; reset(); optind=0; nseq++;
  parsecl(ac,av);
  Snap r; snap(&r); int bad=-1; for(int i=0;i<ND;i++) if(r.d[i]!=m.d[i]) bad=i; for(int i=0;i<8;i++) if(strcmp(r.s[i],m.s[i])) bad=100+i;
  if(bad>=0){ char c[400]=""; for(int i=1;i<ac;i++){ strcat(c,av[i]); strcat(c," "); } if(bad<100) vp_fail("options '%s': parameter #%d is %.17g, expected %.17g",c,bad,r.d[bad],m.d[bad]); else vp_fail("options '%s': string parameter #%d is '%s', expected '%s'",c,bad-100,r.s[bad-100],m.s[bad-100]); } }
static int legal(const int *ix,int n){ unsigned sum=0; int g=0; for(int i=0;i<n;i++){ if(O[ix[i]].fld==-6){ if(sum&(unsigned)O[ix[i]].val) return 0; sum|=(unsigned)O[ix[i]].val; if(0) return 0; } if(O[ix[i]].fld==-3||O[ix[i]].fld==-4) g++; }
  /* -D adds to what -D selected before; adding to the default set a field it already has is outside the documented use, and a default given after others replaces them */
  int def=0,last=0; for(int i=0;i<n;i++){ if(O[ix[i]].fld==-5){ def=1; last=1; sum=0; } if(O[ix[i]].fld==-6){ if(def&&(tflag_default&(unsigned)O[ix[i]].val)) return 0; } }
  return g<=3; }
int main(int argc,char **argv){
  vp_init(argc,argv); freopen("/dev/null","w",stderr); dieharder_test_types(); dieharder_rng_types(); reset(); snap(&base);
  int depth=vp_thorough?4:3; int ix[6];
  for(int a=0;a<NO;a++){ if(!vp_begin("first/%s_%s",O[a].opt,O[a].arg?O[a].arg:"")) continue; nseq=0; ix[0]=a;
    for(int j=0;j<2;j++) seq(ix,1,j);
    for(int b=0;b<NO;b++){ ix[1]=b; if(!legal(ix,2)) continue; seq(ix,2,0); seq(ix,2,1);
      for(int c=0;c<NO;c++){ ix[2]=c; if(!legal(ix,3)) continue; seq(ix,3,0);
        if(depth>3) for(int d=0;d<NO;d+=1){ ix[3]=d; if(!legal(ix,4)) continue; seq(ix,4,0); if(vp_failed()) break; }
        if(vp_failed()) break; } if(vp_failed()) break; }
    vp_stat("states",nseq); vp_stat("transitions",nseq*depth); vp_stat("traces",nseq);
  }
  return vp_done();
}
