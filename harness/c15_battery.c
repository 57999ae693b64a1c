/* C15: the battery. The registered test functions are replaced by a recording stub and the real
 * run_all_tests()/run_test() are run for every multiplier, n-tuple and mode of a grid; the sequence of
 * executed tests is compared with the documented schedule. */
#include "dieharder.h"
#include "vp.h"
#include "script.h"
#include "cap.h"
typedef struct { int num; const char *name; int nkps; unsigned ps, ts; } Spec;
static const Spec SP[]={
{0,"diehard_birthdays",1,100,100},{1,"diehard_operm5",1,100,1000000},{2,"diehard_rank_32x32",1,100,40000},{3,"diehard_rank_6x8",1,100,100000},{4,"diehard_bitstream",1,100,2097152},{5,"diehard_opso",1,100,2097152},{6,"diehard_oqso",1,100,2097152},{7,"diehard_dna",1,100,2097152},{8,"diehard_count_1s_stream",1,100,256000},{9,"diehard_count_1s_byte",1,100,256000},{10,"diehard_parking_lot",1,100,0},{11,"diehard_2dsphere",1,100,8000},{12,"diehard_3dsphere",1,100,4000},{13,"diehard_squeeze",1,100,100000},{14,"diehard_sums",1,100,100},{15,"diehard_runs",2,100,100000},{16,"diehard_craps",2,100,200000},{17,"marsaglia_tsang_gcd",2,100,10000000},
{100,"sts_monobit",1,100,100000},{101,"sts_runs",1,100,100000},{102,"sts_serial",30,100,100000},
{200,"rgb_bitdist",1,100,100000},{201,"rgb_minimum_distance",1,1000,10000},{202,"rgb_permutations",1,100,100000},{203,"rgb_lagged_sum",1,100,1000000},{204,"rgb_kstest_test",1,1000,10000},{205,"dab_bytedistrib",1,1,51200000},{206,"dab_dct",1,1,50000},{207,"dab_filltree",2,1,15000000},{208,"dab_filltree2",2,1,5000000},{209,"dab_monobit2",1,1,65000000},{210,"dab_birthdays1",1,1,2000},{211,"dab_opso2",2,1,67108864}};
#define NSP (int)(sizeof SP/sizeof *SP)
static long calls; static int cur_nk;
static int stub(Test **t,int irun){ int nk=dh_test_types[dtest_num]->nkps; for(int j=0;j<nk;j++){ t[j]->ntuple=ntuple; t[j]->pvalues[irun]=0.1+0.5*((calls*7919)%1000)/1000.; } calls++; return 0; }
typedef struct { int sp, nt; unsigned ts, ps; } Ev; static Ev exq[4000]; static int nexq;
static void ev(int sp,int nt,unsigned ts,unsigned ps){ exq[nexq++]=(Ev){sp,nt,ts,ps}; }
static long nev;
static void verify(const char *what){
  char *o=cap_take(), *sv; char *l=strtok_r(o,"\n",&sv); long need=0;
  for(int i=0;i<nexq;i++){ const Spec *s=&SP[exq[i].sp]; need+=exq[i].ps; nev++;
    for(int j=0;j<s->nkps;j++){ while(l&&(*l=='#'||!strchr(l,'|'))) l=strtok_r(NULL,"\n",&sv);
      if(!l){ vp_fail("%s: %s (n-tuple %d) was not run",what,s->name,exq[i].nt); return; }
      char ln[300]; snprintf(ln,300,"%s",l); char f[9][160]; int n=cap_split(l,'|',f,9);
      if(n!=5||strcmp(f[0],s->name)||atoi(f[1])!=s->num||atoi(f[2])!=exq[i].nt||strtoul(f[3],0,10)!=exq[i].ts||strtoul(f[4],0,10)!=exq[i].ps){ vp_fail("%s: report row '%s', expected %s|%d|%d|%u|%u",what,ln,s->name,s->num,exq[i].nt,exq[i].ts,exq[i].ps); return; }
      l=strtok_r(NULL,"\n",&sv); } }
  while(l&&(*l=='#'||!strchr(l,'|'))) l=strtok_r(NULL,"\n",&sv);
  if(l){ vp_fail("%s: unscheduled row '%s'",what,l); return; }
  if(calls!=need) vp_fail("%s: %ld samples were run, expected %ld",what,calls,need);
}
static unsigned pstd(int i,double m){ unsigned p=(unsigned)(SP[i].ps*m); return p<1?1:p; }
int main(int argc,char **argv){
  vp_init(argc,argv); set_globals(); cap_start(); dieharder_test_types(); script.kind=SK_MIX; script.width=32; script_install(&script);
  tflag=TTEST_NAME|TNUM|TNTUPLE|TTSAMPLES|TPSAMPLES|TNO_WHITE; 
  if(vp_begin("registry")){ int n=0; for(int i=0;i<MAXTESTS;i++) if(dh_test_types[i]) n++; if(n!=NSP) vp_fail("%d tests registered, expected %d",n,NSP);
    for(int i=0;i<NSP;i++){ Dtest *d=dh_test_types[SP[i].num]; vp_stat("states",1); if(!d) vp_fail("test %d not registered",SP[i].num); else if(strcmp(d->sname,SP[i].name)||d->nkps!=SP[i].nkps||d->psamples_std!=SP[i].ps||d->tsamples_std!=SP[i].ts) vp_fail("test %d is %s with %d statistics, %u x %u samples; documented: %s, %d, %u x %u",SP[i].num,d->sname,(int)d->nkps,(unsigned)d->psamples_std,(unsigned)d->tsamples_std,SP[i].name,SP[i].nkps,SP[i].ps,SP[i].ts); } }
  for(int i=0;i<MAXTESTS;i++) if(dh_test_types[i]) dh_test_types[i]->test=stub;
  static const double MU[]={1,0.01,0.5,0.015,2,10.5}; static const int NT[]={0,2,3,4,5};
  for(int m=0;m<6;m++) for(int t=0;t<5;t++) for(int st=0;st<2;st++) for(int tp=0;tp<2;tp++) for(int twice=0;twice<2;twice++){
    if(!vp_begin("all/m%g/n%d/s%d/tp%d/%s",MU[m],NT[t],st,tp,twice?"again":"first")) continue;
    if(MU[m]>=10&&(st||tp||twice)) { }
    nev=0;
    for(int rep=0;rep<=twice;rep++){ all=YES; multiply_p=MU[m]; ntuple=NT[t]; strategy=st; Seed=5; tsamples=tp?1234:0; psamples=tp?7:0; calls=0; cap_take(); nexq=0;
      for(int i=0;i<NSP;i++){ int lo=NT[t],hi=NT[t]; if(NT[t]==0) switch(SP[i].num){ case 200: lo=1;hi=12;break; case 201: case 202: lo=2;hi=5;break; case 203: lo=0;hi=32; }
        for(int n=lo;n<=hi;n++) ev(i,n,SP[i].ts,pstd(i,MU[m])); }
      run_all_tests(); verify("all"); if((int)ntuple!=NT[t]) vp_fail("the n-tuple setting was changed to %d",(int)ntuple); if(vp_failed()) break; }
    vp_stat("states",nev); vp_stat("transitions",calls); vp_stat("traces",1+twice);
  }
  for(int i=0;i<NSP;i++) for(int by=0;by<2;by++){ if(!vp_begin("single/%s/%s",SP[i].name,by?"name":"number")) continue; nev=0;
    for(int n=0;n<=33;n++) for(int m=0;m<6;m++) for(int p=0;p<3;p++) for(int ts=0;ts<2;ts++){ all=NO; multiply_p=MU[m]; ntuple=n; strategy=0; psamples=p; tsamples=ts?4321:0; calls=0; cap_take(); nexq=0; 
      if(by){ dtest_num=-1; strcpy(dtest_name,SP[i].name); } else { dtest_num=SP[i].num; dtest_name[0]=0; }
      ev(i,n,ts?4321:SP[i].ts,p?p:pstd(i,MU[m])); run_test(); verify("single"); if(vp_failed()) break; }
    vp_stat("states",nev); vp_stat("transitions",nev); vp_stat("traces",nev);
  }
  return vp_done();
}
