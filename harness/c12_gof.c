/* C12: the shared goodness-of-fit routines on every bounded table of counts, against the textbook
 * statistic and an independent evaluation of the chi-square tail (series / continued fraction, long double). */
#include <dieharder/libdieharder.h>
#include "vp.h"
extern double chisq_geometric(unsigned int *,double,int,unsigned int) __attribute__((weak)); extern double chisq2d(unsigned int *,unsigned int,unsigned int,unsigned int) __attribute__((weak));
#define EPS 1e-9L
static long double gq(long double a,long double x){ /* regularized upper incomplete gamma */
  if(x<=0) return 1; if(a<=0) return 0; long double lg=a*logl(x)-x-lgammal(a);
  if(x<a+1){ long double s=1/a,t=s; for(int i=1;i<100000;i++){ t*=x/(a+i); s+=t; if(t<s*1e-21L) break; } return 1-s*expl(lg); }
  long double b=x+1-a,c=1e4000L,d=1/b,h=d; for(int i=1;i<100000;i++){ long double an=-i*(i-a); b+=2; d=an*d+b; if(fabsl(d)<1e-4000L) d=1e-4000L; c=b+an/c; if(fabsl(c)<1e-4000L) c=1e-4000L; d=1/d; long double e=d*c; h*=e; if(fabsl(e-1)<1e-19L) break; }
  return h*expl(lg); }
static long double tail(long double chisq,long dof){ return gq(dof/2.0L,chisq/2); }
static void cmp(double g,long double e,const char *what,const char *detail){ vp_stat("states",1); vp_stat("traces",1); vp_stat("transitions",1);
  if(!(fabsl(g-e)<=EPS)) vp_fail("%s %s: %.15g, expected %.15Lg",what,detail,g,e); }
static char D_[400];
static void vt(const double *x,const double *y,int n,double cut,unsigned fix){
  Vtest v; Vtest_create(&v,n); for(int i=0;i<n;i++){ v.x[i]=x[i]; v.y[i]=y[i]; } v.cutoff=cut; v.ndof=fix; Vtest_eval(&v);
  long double c=0,px=0,py=0; int used=0,pool=0; for(int i=0;i<n;i++) if(y[i]>=cut){ used++; c+=((long double)x[i]-y[i])*((long double)x[i]-y[i])/y[i]; } else { pool=1; px+=x[i]; py+=y[i]; }
  if(pool&&py>=cut){ used++; c+=(px-py)*(px-py)/py; }
  if(!fix&&used<2){ if(!(v.pvalue>=0&&v.pvalue<=1)) vp_fail("p-value %g for a table without degrees of freedom",v.pvalue); Vtest_destroy(&v); vp_stat("states",1); return; }
  long dof= fix?fix:used-1; int k=0; k+=sprintf(D_+k,"cutoff %g dof %u x/y",cut,fix); for(int i=0;i<n&&i<8;i++) k+=sprintf(D_+k," %g/%g",x[i],y[i]);
  cmp(v.pvalue,tail(c,dof),"Vtest_eval",D_); if(!(fabsl(v.chisq-c)<=1e-9L*(1+c))) vp_fail("Vtest_eval %s: chisq %.15g, expected %.15Lg",D_,v.chisq,c);
  if(v.ndof!=dof) vp_fail("Vtest_eval %s: %u degrees of freedom, expected %ld",D_,v.ndof,dof); Vtest_destroy(&v); }
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0; double x[300],y[300];
  const double X[]={0,4,11,40}, Y[]={0,2.5,5,10}, C[]={2.5,5,7,20}; const unsigned F[]={0,1,3};
  for(int n=1;n<=(vp_thorough?5:4);n++) for(int ci=0;ci<4;ci++) for(int fi=0;fi<3;fi++) if(vp_begin("vtest/n%d/cut%g/dof%u",n,C[ci],F[fi])){
    long T=1; for(int i=0;i<n;i++) T*=16; for(long t=0;t<T&&!vp_failed();t++){ long q=t; for(int i=0;i<n;i++){ x[i]=X[q&3]; y[i]=Y[q>>2&3]; q>>=4; } vt(x,y,n,C[ci],F[fi]); } }
  for(int n=5;n<=200;n+=n<40?1:20) if(vp_begin("vtest-long/n%d",n)) for(int lo=0;lo<=n&&!vp_failed();lo+=1+n/12) for(int st=1;st<6;st++) for(int fi=0;fi<2;fi++){
    for(int i=0;i<n;i++){ y[i]= i<lo ? 0.3*(1+(i*st)%7) : 5+(i*st)%11; x[i]=(i*7+st)%23; } vt(x,y,n,5,fi?n-1:0); }
  unsigned o[300]; double e[300];
  const double L[]={0.5,2,3.7,7}; const unsigned O[]={0,1,3,12};
  for(int km=2;km<=6;km++) for(int li=0;li<4;li++) if(vp_begin("poisson/k%d/l%g",km,L[li])){ long T=1; for(int i=0;i<km;i++) T*=4; for(long t=0;t<T&&!vp_failed();t++){ long q=t; unsigned ns=0; for(int i=0;i<km;i++){ o[i]=O[q&3]; ns+=o[i]; q>>=2; } if(!ns) continue;
     for(unsigned n2=ns;n2<=ns+5;n2+=5){ long double c=0,p=expl(-L[li]); for(int k=0;k<km;k++){ if(k) p*=L[li]/k; long double ex=n2*p; c+=(o[k]-ex)*(o[k]-ex)/ex; } sprintf(D_,"counts %u %u %u.. of %u",o[0],o[1],km>2?o[2]:0,n2); cmp(chisq_poisson(o,L[li],km,n2),tail(c,km-1),"chisq_poisson",D_); } } }
  const double PR[]={0.1,0.5,0.8};
  for(int km=2;km<=6;km++) for(int li=0;li<3;li++) if(chisq_geometric&&vp_begin("geometric/k%d/p%g",km,PR[li])){ long T=1; for(int i=0;i<km;i++) T*=4; for(long t=0;t<T&&!vp_failed();t++){ long q=t; unsigned ns=0; for(int i=0;i<km;i++){ o[i]=O[q&3]; ns+=o[i]; q>>=2; } if(!ns) continue;
     long double c=0,p=PR[li]; for(int k=0;k<km;k++){ if(k) p*=1-(long double)PR[li]; long double ex=ns*p; c+=(o[k]-ex)*(o[k]-ex)/ex; } sprintf(D_,"counts %u %u %u..",o[0],o[1],km>2?o[2]:0); cmp(chisq_geometric(o,PR[li],km,ns),tail(c,km-1),"chisq_geometric",D_); } }
  for(int km=2;km<=5;km++) if(vp_begin("pearson/k%d",km)){ const double E2[]={0.5,2,7.25,30}; long T=1; for(int i=0;i<km;i++) T*=16; if(T>70000&&!vp_thorough) T=70000; for(long t=0;t<T&&!vp_failed();t++){ long q=t; long double c=0; for(int i=0;i<km;i++){ x[i]=X[q&3]; e[i]=E2[q>>2&3]; q>>=4; c+=((long double)x[i]-e[i])*((long double)x[i]-e[i])/e[i]; } sprintf(D_,"%g/%g %g/%g",x[0],e[0],x[1],e[1]); cmp(chisq_pearson(x,e,km),tail(c,km-1),"chisq_pearson",D_); } }
  /* binomial: bins with more than ten observations are used, one constraint */
  for(int km=1;km<=5;km++) for(int li=0;li<3;li++) if(vp_begin("binomial/k%d/p%g",km,PR[li])){ const double OB[]={0,10,11,30}; long T=1; for(int i=0;i<=km;i++) T*=4; for(long t=0;t<T&&!vp_failed();t++){ long q=t; double ns=0; int used=0; for(int i=0;i<=km;i++){ x[i]=OB[q&3]; ns+=x[i]; if(x[i]>10) used++; q>>=2; } if(used<2) continue;
     long double c=0; for(int k=0;k<=km;k++) if(x[k]>10){ long double b=1; for(int i=0;i<k;i++) b=b*(km-i)/(i+1); long double ex=ns*b*powl(PR[li],k)*powl(1-(long double)PR[li],km-k); c+=(x[k]-ex)*(x[k]-ex)/ex; } sprintf(D_,"counts %g %g..",x[0],x[1]); cmp(chisq_binomial(x,PR[li],km,(unsigned)ns),tail(c,used-1),"chisq_binomial",D_); } }
  for(int km=2;km<=7;km++) if(vp_begin("gtest/k%d",km)){ long T=1; for(int i=0;i<km;i++) T*=4; for(long t=0;t<T&&!vp_failed();t++){ long q=t; unsigned ns=0; for(int i=0;i<km;i++){ o[i]=O[q&3]; ns+=o[i]; q>>=2; } if(!ns) continue; long double g=0; for(int i=0;i<km;i++) if(o[i]) g+=2*o[i]*logl(o[i]*(long double)km/ns);
     g/=1+(km+1)/(6.0L*ns)+(long double)km*km/(6.0L*ns*ns); sprintf(D_,"counts %u %u..",o[0],o[1]); cmp(chisq_uint_uniform_gtest(o,ns,km),tail(fabsl(g),km-1),"chisq_uint_uniform_gtest",D_); } }
  for(int r=2;r<=3;r++) for(int cl=2;cl<=3;cl++) if(chisq2d&&vp_begin("table/%dx%d",r,cl)){ const unsigned Q[]={1,2,5,9}; int m=r*cl; long T=1; for(int i=0;i<m;i++) T*=4; for(long t=0;t<T&&!vp_failed();t++){ long q=t; unsigned N=0; for(int i=0;i<m;i++){ o[i]=Q[q&3]; N+=o[i]; q>>=2; } long double c=0; for(int i=0;i<r;i++) for(int j=0;j<cl;j++){ long double a=0,b=0; for(int k=0;k<cl;k++) a+=o[i*cl+k]; for(int k=0;k<r;k++) b+=o[k*cl+j]; long double ex=a*b/N; c+=(o[i*cl+j]-ex)*(o[i*cl+j]-ex)/ex; }
     sprintf(D_,"%u %u / %u %u..",o[0],o[1],o[cl],o[cl+1]); cmp(chisq2d(o,r,cl,N),tail(c,(long)(r-1)*(cl-1)),"chisq2d",D_); } }
  if(vp_begin("normal")) for(int a=-60;a<=60;a++) for(int b=-4;b<=4;b++) for(int s=1;s<=6&&!vp_failed();s++){ Xtest t; t.npts=1; t.p=0.5; t.x=a*0.25; t.y=b*1.5; t.sigma=s*0.5; Xtest_eval(&t); sprintf(D_,"x %g y %g sigma %g",t.x,t.y,t.sigma); cmp(t.pvalue,0.5L*erfcl(-(t.y-t.x)/(t.sigma*sqrtl(2))),"Xtest_eval",D_); if(t.x!=a*0.25||t.y!=b*1.5||t.sigma!=s*0.5) vp_fail("Xtest_eval changed its inputs"); }
  if(vp_begin("binomial-p")) for(unsigned n=0;n<=40;n++) for(unsigned k=0;k<=n;k++) for(int li=0;li<3;li++){ long double b=1; for(unsigned i=0;i<k;i++) b=b*(n-i)/(i+1); sprintf(D_,"n %u k %u p %g",n,k,PR[li]); cmp(binomial(n,k,PR[li]),b*powl(PR[li],k)*powl(1-(long double)PR[li],n-k),"binomial",D_); }
  return vp_done();
}
