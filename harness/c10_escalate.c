/* C10: escalation modes. Stateless exploration of all sequences of per-sample results (over a value
 * alphabet) x modes x thresholds x steps x ceilings: the real execute_test()/std_test() loop runs a
 * scripted test; rows printed and samples run are compared with the stop rule. */
#include "dieharder.h"
#include "vp.h"
#include "script.h"
#include "cap.h"
#define MAXS 64
static double AL[]={0.5,0.0,0.125,0.25,0.75,1.0,0.999,0.375}; static int NAL=8;
static int ch[MAXS], nch, used; static int fk; static int order_bad;
static int fake(Test **t,int irun){ if(irun!=used) order_bad=1; if(used>=nch){ ch[nch++]=0; } int c=ch[used]; used++;
  for(int j=0;j<fk;j++){ t[j]->pvalues[irun]=AL[(c+3*j)%NAL]; t[j]->ntuple=0; } return 0; }
static Dtest dt;
static const char *verdict(double p){ return (p<Xfail||p>1.0-Xfail)?"FAILED":(p<Xweak||p>1.0-Xweak)?"WEAK":"PASSED"; }
static long nrun,nrow,nsamp; static long stopwhy[8];
static void one(void){
  used=0; order_bad=0; cap_take(); nrun++;
  execute_test(899);
  char *o=cap_take();
  /* model */
  static double h[2][4*MAXS]; int n=0; int want=psamples; char *sv,*l=strtok_r(o,"\n",&sv); int round=0;
  if(order_bad){ vp_fail("sample indices out of order"); return; }
  for(;;){
    if(n+want>(int)Xoff) want=Xoff-n; if(want<0) want=0;
    for(int k=0;k<want;k++,n++){ if(n>=used){ vp_fail("round %d: stopped after %d samples, rule requires %d more",round,used,want-k); return; } for(int j=0;j<fk;j++) h[j][n]=AL[(ch[n]+3*j)%NAL]; }
    double s=0.5; 
    for(int j=0;j<fk;j++){ static double cp[4*MAXS]; memcpy(cp,h[j],n*sizeof(double)); double p=kstest(cp,n); if(0.5-fabs(p-0.5)<s) s=0.5-fabs(p-0.5);
      char f[12][160],e[40]; while(l&&(*l=='#'||!*l)) l=strtok_r(NULL,"\n",&sv);
      if(!l){ vp_fail("round %d statistic %d: no row printed",round,j); return; }
      char ln[400]; snprintf(ln,400,"%s",l); int nf=cap_split(l,'|',f,12); nrow++;
      snprintf(e,40,"%10.8f",p); char *ee=e; while(*ee==' ') ee++;
      if(nf!=6||strcmp(f[0],"2")||strcmp(f[1],"fakeX")||strcmp(f[4],ee)||atoi(f[3])!=n||strcmp(f[5],verdict(p))){ vp_fail("round %d statistic %d: row '%s', expected %d samples, p-value %s, %s",round,j,ln,n,ee,verdict(p)); return; }
      l=strtok_r(NULL,"\n",&sv); }
    round++;
    int go= Xtrategy==1? (s>=Xfail&&s<Xweak&&n<(int)Xoff): Xtrategy==2? (s>=Xfail&&n<(int)Xoff): 0;
    if(!go){ stopwhy[s<Xfail?0:n>=(int)Xoff?1:s>=Xweak?2:3]++; break; }
    want=Xstep;
  }
  while(l&&(*l=='#'||!*l)) l=strtok_r(NULL,"\n",&sv);
  if(l) vp_fail("extra row '%s' after the stop rule was met (round %d, %d samples)",l,round,n);
  if(used!=n) vp_fail("%d samples were run, rule requires %d",used,n);
  nsamp+=n;
}
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0; set_globals(); cap_start(); script.kind=SK_MIX; script.width=32; script_install(&script);
  dt.name="fake"; dt.sname="fakeX"; dt.description="fake"; dt.test=fake; dt.tsamples_std=77; dt.psamples_std=1; dh_test_types[899]=&dt; dtest_num=899;
  tflag=TPREFIX|TTEST_NAME|TNUM|TPSAMPLES|TPVALUES|TASSESSMENT;
  static const double TH[][2]={{.1,.3},{.125,.25},{.25,.25},{0,.3},{.05,.5},{.3,.1},{0.000001,.005},{0,0},{.125,.6}};
  static const int XS[]={1,2,3}; long budget=vp_thorough?400000:12000;
  for(fk=1;fk<=2;fk++) for(int mode=0;mode<3;mode++) for(int th=0;th<9;th++) for(int xs=0;xs<3;xs++) for(int ps=1;ps<=3;ps++) for(int xo=1;xo<=7;xo++) for(int st=0;st<2;st++){
    if(mode==0&&xs) continue; if(st&&(xs||ps>1)) continue;
    if(!vp_begin("nkps%d/Y%d/fail%g/weak%g/step%d/p%d/P%d/s%d",fk,mode,TH[th][0],TH[th][1],XS[xs],ps,xo,st)) continue;
    NAL=xo>=7?3:xo>=6?4:xo>=5?5:8; if(vp_thorough&&xo>=6) NAL=6; if(!vp_thorough&&xo==5) NAL=4;
    dt.nkps=fk; Xtrategy=mode; Xfail=TH[th][0]; Xweak=TH[th][1]; Xstep=XS[xs]; psamples=ps; Xoff=xo; strategy=st; Seed=st;
    AL[1]= (mode&&Xfail==0)? 1e-9: 0.0; /* exactly 0 with a fail threshold of 0: recorded finding, below */
    nrun=nrow=nsamp=0; memset(stopwhy,0,sizeof stopwhy); memset(ch,0,sizeof ch); nch=0;
    int comp=0;
    for(;;){ one(); if(vp_failed()){ char s[300]=""; for(int i=0;i<nch&&i<20;i++) sprintf(s+strlen(s),"%g ",AL[ch[i]]); vp_fail("  with sample values %s",s); break; }
      int i=used-1; nch=used; while(i>=0&&ch[i]==NAL-1) i--; if(i<0){ comp=1; break; } ch[i]++; nch=i+1; if(nrun>budget) break; }
    if(!comp) vp_stat("cut_short",1);
    vp_stat("states",nrow); vp_stat("transitions",nsamp); vp_stat("traces",nrun);
    for(int i=0;i<4;i++) if(stopwhy[i]) vp_outcome("mode%d/stop%d",mode,i);
  }
  if(vp_begin("finding/zero/Y2/X0/values0,0.5")){ fk=1; dt.nkps=1; Xtrategy=2; Xfail=0; Xweak=.3; Xstep=1; psamples=1; Xoff=3; strategy=0; AL[1]=0.0; NAL=8; memset(ch,0,sizeof ch); ch[0]=1; nch=1; one(); }
  return vp_done();
}
