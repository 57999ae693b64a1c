/* C09: sample accounting. All histories (up to a depth) of run / extend / clear / recreate over a
 * parameter grid, on the real create_test/std_test/add_2_test/clear_test, with a recording test
 * function, against a model that keeps the list of results. Built with the address sanitizer. */
#include <dieharder/libdieharder.h>
#include "vp.h"
#include "script.h"
#define NK 3
static int mode; static long calls, ci[4096]; static Test **ct; static int bad;
static double pv(int j,long call){ /* distinct, reproducible values; mode 1: all exactly 0; mode 2: constant 1; mode 3: stat 0 normal, others 0 */
  if(mode==1) return 0.0; if(mode==2) return 1.0; if(mode==3&&j) return 0.0;
  uint64_t z=(call*NK+j+1)*0x9E3779B97F4A7C15ull; z^=z>>29; z*=0xBF58476D1CE4E5B9ull; z^=z>>32; return (z>>11)/9007199254740992.0; }
static int fk;
static int fake(Test **t,int irun){ if(calls<4096) ci[calls]=irun; for(int j=0;j<fk;j++){ t[j]->pvalues[irun]=pv(j,calls); t[j]->ntuple=j; } calls++; return 0; }
static Dtest dt;
static double hist[NK][4096]; static int nh; /* the model: results of the current test so far */
static int def_ps(int ps){ if(all==YES||ps==0){ int d=(int)(dt.psamples_std*multiply_p); return d<1?1:d; } return ps; }
static int check(Test **t,long before,int want_n,int first,const char *h){ /* after a run that should have added want_n samples starting at nh */
  if(calls-before!=want_n){ vp_fail("%s: test function called %ld times, expected %d",h,calls-before,want_n); return 1; }
  for(int k=0;k<want_n;k++){ if(ci[before+k]!=nh){ vp_fail("%s: call %d used sample index %ld, expected %d",h,k,ci[before+k],nh); return 1; }
    for(int j=0;j<fk;j++) hist[j][nh]=pv(j,before+k); nh++; }
  for(int j=0;j<fk;j++){ static double cp[4096]; 
    if((int)t[j]->psamples!=nh){ vp_fail("%s: statistic %d reports %u samples, expected %d",h,j,t[j]->psamples,nh); return 1; }
    memcpy(cp,hist[j],nh*sizeof(double)); double e= ks_test>=3? kstest_kuiper(cp,nh): kstest(cp,nh);
    if(!(t[j]->ks_pvalue==e || fabs(t[j]->ks_pvalue-e)<1e-12 || (isnan(e)&&isnan(t[j]->ks_pvalue)))){ vp_fail("%s: statistic %d combined p-value %.17g, expected %.17g over %d samples",h,j,t[j]->ks_pvalue,e,nh); return 1; }
  }
  return 0; }
enum { O_STD,O_ADD1,O_ADD4,O_CLEAR,O_NEW,NO_ }; static const char *on[]={"run","add1","add4","clear","recreate"};
static Test **mk(int ts,int ps){ nh=0; return create_test(&dt,ts,ps); }
static long nst,ntr,nhist; static int strict; /* strict: also walk into the two recorded findings */
static int zero_all(Test **t){ for(int j=0;j<fk;j++) if(t[j]->ks_pvalue!=0.0) return 0; return 1; }
static void history(const int *op,int n,int ts,int ps){
  char h[100]=""; for(int i=0;i<n;i++){ strcat(h,i?",":""); strcat(h,on[op[i]]); }
  int fresh=1; calls=0; nhist++;
  Test **t=mk(ts,ps); int ts_e= (all==YES||ts==0)? dt.tsamples_std: ts;
  for(int j=0;j<fk;j++){ if((int)t[j]->tsamples!=ts_e||(int)t[j]->psamples!=def_ps(ps)){ vp_fail("create_test: statistic %d has tsamples %u psamples %u, expected %d %d",j,t[j]->tsamples,t[j]->psamples,ts_e,def_ps(ps)); destroy_test(&dt,t); return; } }
  for(int i=0;i<n;i++){ nst++; long b=calls; int want=-1;
    if(!strict&&((op[i]==O_STD&&!fresh&&zero_all(t))||(op[i]==O_CLEAR&&(all==YES||ps==0)&&(int)(dt.psamples_std*multiply_p)<1))) break; /* recorded findings, see the finding/ cases */
    if(op[i]==O_STD){ if(fresh){ want=def_ps(ps); nh=0; } else want=Xstep; if(nh+want>(int)Xoff) want=(int)Xoff>nh?Xoff-nh:0; std_test(&dt,t); fresh=0; }
    else if(op[i]==O_ADD1||op[i]==O_ADD4){ int c=op[i]==O_ADD1?1:4; want=c; if(nh+want>(int)Xoff) want=(int)Xoff>nh?Xoff-nh:0; add_2_test(&dt,t,c); }
    else if(op[i]==O_CLEAR){ clear_test(&dt,t); fresh=1; nh=0; for(int j=0;j<fk;j++) if((int)t[j]->psamples!=def_ps(ps)){ vp_fail("%s: after clearing, %u samples requested, expected %d",h,t[j]->psamples,def_ps(ps)); break; } }
    else { destroy_test(&dt,t); t=mk(ts,ps); fresh=1; }
    if(want>=0){ ntr+=want; if(check(t,b,want,0,h)) break; }
    for(int j=0;j<fk;j++) if((int)t[j]->tsamples!=ts_e){ vp_fail("%s: tsamples changed to %u",h,t[j]->tsamples); break; }
    if(vp_failed()) break;
  }
  destroy_test(&dt,t);
}
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0;
  static const int PS[]={0,1,2,5,11}; static const double MP[]={1.0,0.01,0.5,2.0,1.5,2.25}; static const int STD[]={1,4,100}; static const int XO[]={7,12,1000};
  static const int XS[]={1,3}; int depth=vp_thorough?6:4;
  dt.name="fake"; dt.sname="fake"; dt.description="fake"; dt.test=fake; dt.tsamples_std=77; script.kind=SK_MIX; script.width=32; script_install(&script);
  for(mode=0;mode<4;mode++) for(fk=1;fk<=NK;fk++) for(int kst=0;kst<4;kst++) for(int xt=0;xt<3;xt++) for(int al=0;al<2;al++)
  for(int pi=0;pi<5;pi++) for(int mi=0;mi<6;mi++){ 
    if(mi&&!(al||PS[pi]==0)) continue;
    if(mode&&kst!=0) continue; if(!vp_thorough&&(fk==2||kst==1)) continue;
    if(!vp_begin("m%d/nkps%d/ks%d/X%d/all%d/p%d/mult%g",mode,fk,kst,xt,al,PS[pi],MP[mi])) continue;
    nst=ntr=nhist=0;
    for(int si=0;si<3;si++) for(int xo=0;xo<3;xo++) for(int xs=0;xs<2;xs++) for(int ti=0;ti<2;ti++){
      dt.nkps=fk; dt.psamples_std=STD[si]; ks_test=kst; Xtrategy=xt; all=al?YES:NO; psamples=PS[pi]; multiply_p=MP[mi]; Xoff=XO[xo]; Xstep=XS[xs]; tsamples=ti?33:0;
      if(xt==0&&(xs)) continue;
      int d = si==2? 3: depth; int np=xt==0? 0: NO_;
      if(ti) d=2;
      int op[8]; long tot=1; for(int n=1;n<=d;n++){ 
        /* without escalation only the sequence run,(clear|recreate),run,... is legal */
        long c=1; for(int i=0;i<n;i++) c*=NO_;
        for(long q=0;q<c;q++){ long z=q; int ok=1, fresh=1; for(int i=0;i<n;i++){ op[i]=z%NO_; z/=NO_;
            if(op[i]==O_STD){ if(!fresh&&xt==0) ok=0; fresh=0; }
            else if(op[i]==O_ADD1||op[i]==O_ADD4){ if(fresh||xt==0) ok=0; }
            else fresh=1; }
          if(!ok||vp_failed()) continue; history(op,n,tsamples,psamples); } } }
    vp_stat("states",nst); vp_stat("transitions",ntr); vp_stat("traces",nhist);
    vp_outcome("%d/%d",fk,mode);
  }
  /* the two recorded findings, as exact histories */
  strict=1; fk=1; dt.nkps=1; ks_test=0; Xtrategy=1; all=NO; psamples=0; Xoff=10; Xstep=1; tsamples=0; dt.psamples_std=1;
  if(vp_begin("finding/clear/std1/mult0.5/history-run,clear")){ mode=0; multiply_p=0.5; int op[]={O_STD,O_CLEAR}; history(op,2,0,0); }
  if(vp_begin("finding/zero/psamples1/history-run,run/value0")){ mode=1; multiply_p=1; int op[]={O_STD,O_STD}; history(op,2,0,0); }
  return vp_done();
}
