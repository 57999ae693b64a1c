/* C11: kstest()/kstest_kuiper() on every bounded sample against an independent exact evaluation
 * (band-limited Poisson-process recursion for P(D_n<d), long double; Kuiper's published series). */
#include <dieharder/libdieharder.h>
#include "vp.h"
#include "cap.h"
static int cmpd(const void *a,const void *b){ double x=*(double*)a,y=*(double*)b; return x<y?-1:x>y; }
/* Q(n,d)=P(D_n>=d): number of points N(t) of a Poisson process of rate n conditioned on N(1)=n stays strictly within n t -+ n d */
typedef struct { double t; int j, up; } Ev;
static int cmpe(const void *a,const void *b){ double x=((Ev*)a)->t,y=((Ev*)b)->t; return x<y?-1:x>y; }
static long double exactQ(int n,double d){
  if(d<=0) return 1; if(d>=1) return 0; double nd=n*d; static Ev e[20010]; int ne=0;
  for(int j=1;j<=n;j++){ double t=(j-nd)/n; if(t>0&&t<1){ e[ne].t=t; e[ne].j=j; e[ne++].up=1; } }
  for(int j=0;j<n;j++){ double t=(j+nd)/n; if(t>0&&t<1){ e[ne].t=t; e[ne].j=j; e[ne++].up=0; } }
  qsort(e,ne,sizeof *e,cmpe);
  static long double v[6000],w[6000]; int lo=0,hi=0; /* reachable N in [lo,hi] */
  int cap=0; for(int j=1;j<=n;j++) if((j-nd)/n<=0) cap=j; /* allowed from the start */
  v[0]=1; int maxN=cap; double t=0;
  for(int k=0;k<=ne;k++){ double t2= k<ne?e[k].t:1.0; long double m=(long double)n*(t2-t); int top=maxN; if(top>n) top=n;
    if(m>0){ long double em=expl(-m); static long double p[6000]; p[0]=em; for(int i=1;i<=top-lo;i++) p[i]=p[i-1]*m/i;
      for(int b=lo;b<=top;b++){ long double s=0; int ah=b<hi?b:hi; for(int a=lo;a<=ah;a++) s+=v[a]*p[b-a]; w[b]=s; }
      for(int b=lo;b<=top;b++) v[b]=w[b]; hi=top; }
    if(k<ne){ if(e[k].up) { if(e[k].j>maxN) maxN=e[k].j; } /* from now on N may be j */
              else if(e[k].j>=lo){ lo=e[k].j+1; if(hi<lo){ for(int b=hi+1;b<=lo;b++) v[b]=0; hi=lo; } } }
    t=t2; }
  long double P= hi>=n? v[n]:0; /* times n! e^n / n^n */
  long double c=expl((long double)n - n*logl((long double)n) + lgammal((long double)n+1));
  return 1-P*c; }
static long double asymQ(long double x){ if(x<0.04L) return 1; long double s=0; for(int i=1;i<2000;i++){ long double t=expl(-2*x*x*i*(long double)i); s+= (i&1)?t:-t; if(t<1e-25L) break; } return 2*s; }
static long double expect(int n,const double *srt,int method,long double *tol){
  if(n==1){ *tol=0; return srt[0]; }
  double d=0; for(int i=0;i<n;i++){ double y=fabs(srt[i]-(double)(i+1)/(n+1.0)); if(y>d) d=y; }
  if(method==0&&n>4999){ double c=sqrt(n); *tol=1e-9L; return asymQ((c+0.12+0.11/c)*d); }
  double s=d*d*n; if(method!=2&&(s>7.24||(s>3.76&&n>99))){ long double q=exactQ(n,d); *tol=3e-7L+0.01L*q; return q; }
  *tol=1e-9L; return exactQ(n,d); }
static long double kuiper(int n,const double *srt,long double *tol){
  *tol=1e-9L; if(n==1){ *tol=0; return srt[0]; } double hi=0,lo=0; for(int i=0;i<n;i++){ double v=srt[i]-(double)i/n; if(v>hi) hi=v; if(v<lo) lo=v; }
  long double V=hi-lo, c=sqrtl(n), x=(c+0.155L+0.24L/c)*V; if(x<0.35L) return 1; long double q=0,p=0;
  for(int m=1;m<200;m++){ long double a=(long double)m*m, e=expl(-2*a*x*x); q+=(4*a*x*x-1)*e; p+=a*(4*a*x*x-3)*e; } q=2*q-8*x*p/(3*c); return q<0?0:q>1?1:q; }
static void one(const double *v,int n,int method){
  static double a[20000],s[20000]; memcpy(a,v,n*sizeof *a); memcpy(s,v,n*sizeof *s); qsort(s,n,sizeof *s,cmpd); long double tol,e; double g;
  vp_stat("states",1); vp_stat("transitions",n); vp_stat("traces",1);
  if(method==3){ g=kstest_kuiper(a,n); e=kuiper(n,s,&tol); } else { ks_test=method; g=kstest(a,n); e=expect(n,s,method,&tol); }
  if(!(g>=-1e-12&&g<=1+1e-12)) vp_fail("method %d, n=%d, smallest %g largest %g: result %.17g is no probability",method,n,s[0],s[n-1],g);
  else if(!(fabsl(g-e)<=tol)) vp_fail("method %d, n=%d, values %g %g %g..%g: result %.15g, expected %.15Lg (tolerance %.1Lg)",method,n,s[0],n>1?s[1]:0,n>2?s[2]:0,s[n-1],g,e,tol); }
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0; static double v[20000];
  /* self-check of the oracle: P(D_1>=d), P(D_2>=d) in closed form */
  if(fabsl(exactQ(1,0.7)-0.6L)>1e-15L||fabsl(exactQ(2,0.6)-(2*0.4L*0.4L))>1e-15L||fabsl(exactQ(2,0.4)-(1-2*(2*0.4L-0.5L)*(2*0.4L-0.5L)))>1e-15L){ fprintf(stderr,"oracle\n"); abort(); }
  const double G[]={0,0.125,0.25,0.3333333333,0.5,0.6,0.75,0.9,1}; int NG=9;
  for(int m=0;m<4;m++){
    for(int n=1;n<=(vp_thorough?6:4);n++) for(int f=0;f<NG;f++) if(vp_begin("seq/m%d/n%d/first%d",m,n,f)){ long T=1; for(int i=1;i<n;i++) T*=NG;
      for(long t=0;t<T&&!vp_failed();t++){ v[0]=G[f]; long q=t; for(int i=1;i<n;i++){ v[i]=G[q%NG]; q/=NG; } one(v,n,m); } }
    /* multisets of size 5..8 over a 5 value grid (thorough 10) */
    for(int n=5;n<=(vp_thorough?10:7);n++) if(vp_begin("multiset/m%d/n%d",m,n)){ int c[12]; memset(c,0,sizeof c);
      for(;;){ for(int i=0;i<n;i++) v[i]=c[n-1-i]*0.25*0.999; one(v,n,m); if(vp_failed()) break; int i=n-1; while(i>=0&&c[i]==4) i--; if(i<0) break; int x=c[i]+1; for(;i<n;i++) c[i]=x; } }
    /* shapes: evenly spaced values shifted / stretched / clustered, every n */
    static const int NS[]={2,3,5,8,9,10,11,15,20,21,33,50,64,98,99,100,101,127,200,255,500,1000,1001,2500,4998,4999,5000,5001,10400,12000,0};
    for(int k=0;NS[k];k++){ int n=NS[k]; if(n>1001&&n<4998&&!vp_thorough) continue;
      double ds[]={0,1e-6,0.001,0.003,0.01,0.02,0.03,0.05,0.08,0.12,0.18,0.25,0.4,0.6,0.9};
      for(int j=0;j<15;j++){ double s=ds[j]*ds[j]*n; int big=(m==1||m==2)&&(n==5000||n==5001); if(big&&(j<2||j>(vp_thorough?6:4))) continue; if(m!=0&&n>4999&&n!=10400&&!big) continue; if(m<3&&n>1001&&s>3.7&&!(m==0&&n>4999)&&j<14&&!vp_thorough) continue; if(m==2&&s>20) continue; if(m!=3&&n>2000&&n<=4999&&s>8) continue; if(m!=3&&n==10400&&m!=0) continue;
        for(int sh=0;sh<4;sh++) if((n<=1001||n>4999||m==3||vp_thorough||(sh==0&&(j==4||j==2)))&&(n<500||m!=1||big||vp_thorough)&&vp_begin("shape/m%d/n%d/d%g/%d",m,n,ds[j],sh)){
          for(int i=0;i<n;i++){ double b=(i+1)/(n+1.0),x; if(sh==0) x=b+ds[j]; else if(sh==1) x=b-ds[j]; else if(sh==2) x=0.5+(b-0.5)*(1-2*ds[j]); else x= b<0.5? b*(1-ds[j]) : 1-(1-b)*(1-ds[j]); if(x<0) x=0; if(x>1) x=1; v[i]=x; }
          /* shuffle by a fixed permutation: the order must not matter */
          for(int i=n-1;i>0;i--){ int o=(int)(((uint64_t)i*2654435761u>>7)%(i+1)); double t=v[i]; v[i]=v[o]; v[o]=t; }
          one(v,n,m); } } }
  }
  /* nothing is printed */
  if(vp_begin("silent")) for(int n=2;n<=10400&&!vp_failed();n=n<200?n+1:n==200?1000:n==1000?10400:n+1) { cap_start(); for(int i=0;i<n;i++) v[i]=i*0.5/n; ks_test=1; kstest(v,n); char *o=cap_take(); if(*o) vp_fail("kstest of %d values printed '%.60s'",n,o); vp_stat("states",1); }
  return vp_done();
}
