/* C13: report rows. Exhaustive over the output-flag sets (x strategy x file input), each in a fresh
 * process image (headers are printed once), and over p-values at and around every threshold. */
#include "dieharder.h"
#include "vp.h"
#include "script.h"
#include "cap.h"
static Dtest dt; static Test T_[3], *TT[3]; static double PV[3][5]; static char lab[3][LINE];
static void fill(int k,unsigned ts,unsigned ps,int nt,const double *p){ dt.nkps=k; for(int j=0;j<k;j++){ TT[j]=&T_[j]; T_[j].nkps=k; T_[j].tsamples=ts; T_[j].psamples=ps; T_[j].ntuple=nt+j; T_[j].pvalues=PV[j]; T_[j].pvlabel=lab[j]; T_[j].ks_pvalue=p[j]; for(int i=0;i<5;i++) PV[j][i]=(i*0.21+j*0.05); } }
static const char *verdict(double p){ return (p<Xfail||p>1.0-Xfail)?"FAILED":(p<Xweak||p>1.0-Xweak)?"WEAK":"PASSED"; }
/* the model's expected non-comment lines: fields joined by \001; fields starting with '~' are real numbers */
static char ex[64][700]; static int nex;
static void L0(void){ ex[nex][0]=0; nex++; } static void F(const char *f,...){ char *o=ex[nex-1]; if(*o) strcat(o,"\001"); va_list a; va_start(a,f); vsprintf(o+strlen(o),f,a); va_end(a); }
static void header(unsigned t){ L0(); if(t&TPREFIX) F("0"); if(t&TTEST_NAME) F("test_name"); if(t&TNUM) F("num"); if(t&TNTUPLE) F("ntup"); if(t&TTSAMPLES) F("tsamples"); if(t&TPSAMPLES) F("psamples"); if(t&TPVALUES) F("p-value"); if(t&TASSESSMENT) F("Assessment"); if((t&TSEED)&&strategy) F("Seed"); if(!ex[nex-1][0]) nex--; }
static void expect(unsigned t,int first){
  if(first){ if(t&TSHOW_RNG){
      if(t&TLINE_HEADER){ L0(); if(t&TPREFIX) F("0"); F("rng_name"); if(t&TNUM) F("num"); if(fromfile) F("filename"); if(t&TRATE) F("rands/second"); if((t&TSEED)&&strategy==0&&!fromfile) F("Seed"); F(""); }
      L0(); if(t&TPREFIX) F("1"); F("%s",gsl_rng_name(rng)); if(t&TNUM) F("%d",(int)generator); if(fromfile) F("%s",filename); if(t&TRATE) F("~%.17g",rng_rands_per_second); if((t&TSEED)&&strategy==0&&!fromfile) F("%lu",(unsigned long)seed); F(""); }
    if((t&TLINE_HEADER)&&!(t&THISTOGRAM)) header(t); }
  if(t&TDESCRIPTION){ L0(); F("DESCR_of_test"); L0(); F("second_line"); }
  for(int j=0;j<dt.nkps;j++){ if((t&THISTOGRAM)&&(t&TLINE_HEADER)) header(t);
    L0(); if(t&TPREFIX) F("2"); if(t&TTEST_NAME) F("%s",dt.sname); if(t&TNUM) F("%d",dtest_num); if(t&TNTUPLE) F("%d",(int)T_[j].ntuple); if(t&TTSAMPLES) F("%u",T_[0].tsamples); if(t&TPSAMPLES) F("%u",T_[0].psamples);
    if(t&TPVALUES) F("~%.17g",T_[j].ks_pvalue); if(t&TASSESSMENT) F("%s",verdict(T_[j].ks_pvalue)); if((t&TSEED)&&strategy) F("%lu",(unsigned long)seed); if(!ex[nex-1][0]) nex--;
    if(t&TPSAMPLE_VALS) for(int i=0;i<(int)T_[j].psamples;i++){ L0(); sprintf(ex[nex-1],"\001~%.17g\001",PV[j][i]); } }
}
static long nrows;
static int compare(char *o,unsigned t,char sep){ char *sv; int i=0; nex=nex; int hash=0;
  for(char *l=o;l&&*l;){ char *e=strchr(l,'\n'); if(e) *e=0; char *nx=e?e+1:NULL;
    char *q=l; while(*q==' '||*q=='\t') q++;
    if(*l=='#'){ hash=1; } else if(*q){ nrows++;
      if(i>=nex){ vp_fail("flags 0x%x: unexpected line '%s'",t,l); return 1; }
      if((t&TNO_WHITE)&&strncmp(ex[i],"DESCR",5)&&strncmp(ex[i],"second_l",8)) for(char *c=l;*c;c++) if((*c==' '||*c=='\t')&&*c!=sep){ vp_fail("flags 0x%x: whitespace in '%s'",t,l); return 1; }
      char f[40][160],g[40][160],cp[700]; snprintf(cp,700,"%s",l); int n=cap_split(l,sep,f,40); char c2[700]; strcpy(c2,ex[i]); int m=cap_split(c2,'\001',g,40); if(n==m+1&&!f[n-1][0]) n--; if(m==n+1&&!g[m-1][0]) m--; int bad=n!=m;
      for(int k=0;k<n&&!bad;k++){ if(g[k][0]=='~'){ double a=atof(f[k]),b=atof(g[k]+1); bad=!(fabs(a-b)<=5.01e-9+6e-3*(fabs(b)>2?fabs(b):0)) || !f[k][0]; } else if(strcmp(f[k],g[k])){ bad=!(!(t&TNO_WHITE)&&strlen(f[k])==20&&!strncmp(f[k],g[k],20)); } }
      if(bad){ for(char *z=ex[i];*z;z++) if(*z=='\001') *z=sep; vp_fail("flags 0x%x: line '%s' where '%s' was expected",t,cp,ex[i]); return 1; }
      i++; }
    l=nx; }
  if(i<nex){ for(char *z=ex[i];*z;z++) if(*z=='\001') *z=sep; vp_fail("flags 0x%x: line '%s' missing",t,ex[i]); return 1; }
  if(hash&&!(t&(THEADER|THISTOGRAM|TPSAMPLE_VALS))){ vp_fail("flags 0x%x: comment lines printed though none selected",t); return 1; }
  if(!hash&&(t&THEADER)&&nex){ return 2; }
  return 0; }
typedef struct { unsigned t; int strat, ff; char sep; int k; } Cs;
static const double P3[]={0.0000000512,0.99999712,0.31830989};
static void child(void *v){ Cs *c=v; tflag=c->t; output(&dt,TT); fputs("#SECOND\n",stdout); output(&dt,TT); fflush(stdout); }
/* the histogram: each bar reaches exactly as high as its bin's count on the printed scale, which holds the tallest bin */
static double HV[2][2000]; static Test H_[2], *HT[2]={&H_[0],&H_[1]};
static void hist(int k,int n,int gps){ psamples=gps; tflag=THISTOGRAM|TPVALUES; dt.nkps=k; for(int j=0;j<k;j++){ H_[j]=T_[0]; H_[j].pvalues=HV[j]; H_[j].psamples=n; H_[j].ks_pvalue=0.25+j*0.5; } output(&dt,HT); char *o=cap_take(); vp_stat("states",1); vp_stat("traces",1);
  for(int j=0;j<k;j++){ int bin[10]={0},mx=0; for(int i=0;i<n;i++){ int b=(int)(HV[j][i]*10); if(b>9) b=9; bin[b]++; } for(int b=0;b<10;b++) if(bin[b]>mx) mx=bin[b]; int s=(gps+99)/100; while(mx>=20*s) s++;
    o=strstr(o,"Bin scale"); if(!o){ vp_fail("no histogram for statistic %d of %d",j,k); return; } double bs=0; sscanf(o,"Bin scale = %lf",&bs); if(fabs(bs-0.1)>1e-6) vp_fail("histogram bin scale %g",bs); o=strchr(o,'\n')+1;
    for(int i=20;i>0;i--){ char *e=strchr(o,'\n'); if(!e||*o!='#'){ vp_fail("histogram row %d is missing",i); return; } *e=0; char *q=strchr(o,'|'); if(!q){ vp_fail("histogram row %d: '%s'",i,o); return; } int lv=atoi(o+1); if(i%2==0&&lv!=i*s){ vp_fail("%d samples (-p %d), tallest bin %d: histogram row %d is labelled %d, expected %d",n,gps,mx,i,lv,i*s); return; }
      for(int b=0;b<10;b++){ char *r=strchr(q+1,'|'); if(!r){ vp_fail("histogram row %d has %d bars",i,b); return; } int st=memchr(q,'*',r-q)!=NULL; if(st!=(bin[b]>=i*s)){ vp_fail("%d samples (-p %d): bin %d holds %d p-values, its bar is %s at height %d",n,gps,b,bin[b],st?"drawn":"not drawn",i*s); return; } q=r; } o=e+1; }
    double ax[10]; char *q=strstr(o,"0.1|"); if(!q){ vp_fail("histogram axis is missing"); return; } for(int b=0;b<10;b++){ ax[b]=atof(q); if(fabs(ax[b]-(b+1)*0.1)>0.001){ vp_fail("histogram axis label %d is %g",b,ax[b]); return; } q=strchr(q,'|'); if(!q&&b<9){ vp_fail("histogram axis is cut short"); return; } if(q) q++; } if(q){ while(*q==' ') q++; if(*q!='\n') vp_fail("histogram axis has more than ten labels"); } vp_stat("transitions",210); } 
  char *q=strstr(o,k==1?"0.25":"0.75"); if(!q) vp_fail("no result row after the histogram"); }
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0; set_globals(); script.kind=SK_MIX; script.width=32; script_install(&script);
  dt.name="Fake test"; dt.sname="fake_test_nm"; dt.description="DESCR_of_test\nsecond_line\n"; dtest_num=317; seed=1234567890UL; generator=205; rng_rands_per_second=1.234e7; strcpy(filename,"some_file.dat");
  int nb=vp_thorough?17:14; static const int bitsel[]={0,1,2,3,4,5,6,7,8,9,12,13,14,15,10,11,16};
  static const char SEPS[]="|,;:!"; static char out[1<<16], er[1000];
  for(unsigned hi=0;hi<(1u<<(nb-6))||(!vp_thorough&&hi<(1u<<(nb-6))+64);hi++) for(int strat=0;strat<2;strat++) for(int ff=0;ff<2;ff++){
    if(!vp_begin("flags/%x/s%d/f%d",hi,strat,ff)) continue;
    nrows=0; long n=0;
    for(unsigned lo=0;lo<64&&!vp_failed();lo++){ unsigned t=0, x=(hi<<6)|lo;
      if(hi>=(1u<<(nb-6))){ /* quick: the three per-test extras with a reduced set of the others */
        unsigned y=hi-(1u<<(nb-6)); t=((y&7)==0?TDESCRIPTION:0)|((y&1)?TDESCRIPTION:0)|((y&2)?THISTOGRAM:0)|((y&4)?TPSAMPLE_VALS:0)|((y&8)?TPREFIX:0)|((y&16)?TNO_WHITE:0)|((y&32)?TSEED:0)|((lo&1)?TLINE_HEADER:0)|((lo&2)?TTEST_NAME:0)|((lo&4)?TPVALUES:0)|((lo&8)?TASSESSMENT:0)|((lo&16)?THEADER:0)|((lo&32)?TNTUPLE:0); }
      else for(int b=0;b<nb;b++) if(x>>b&1) t|=1u<<bitsel[b];
      Cs c={t,strat,ff,SEPS[(x+strat+ff)%5],1+(x+hi)%3}; if((t&TNO_WHITE)&&x%7==0) c.sep=' '; if((t&TNO_WHITE)&&x%11==0) c.sep='\t';
      strategy=strat; fromfile=ff; table_separator=c.sep; psamples=3; fill(c.k,10000u+x,3,(int)(x%33),P3);
      int rc=vp_fork(child,&c,20,out,sizeof out,er,sizeof er); n++;
      if(rc){ vp_fail("flags 0x%x: output() ended the program (status %d)",t,rc); break; }
      char *s=strstr(out,"#SECOND\n"); if(!s){ vp_fail("flags 0x%x: no output",t); break; } *s=0; s+=8;
      nex=0; expect(t,1); int r=compare(out,t,c.sep); if(r==1) break; if(r==2&&(t&THEADER)){ vp_fail("flags 0x%x: banner selected but not printed",t); break; }
      nex=0; expect(t,0); r=compare(s,t&~THEADER|( (t&THISTOGRAM)?THEADER:0),c.sep); if(r==1) break; }
    vp_stat("states",n); vp_stat("transitions",nrows); vp_stat("traces",n);
  }
  /* verdict thresholds, in process (headers already gone after the first call) */
  cap_start(); tflag=TPVALUES; strategy=0; fromfile=0; table_separator='|'; fill(1,1,1,0,P3); output(&dt,TT); cap_take();
  static const double TH[]={0,0.000001,0.005,0.125,0.25,0.0625,0.01,0.3,0.5,0.05}; 
  for(int a=0;a<10;a++) for(int b=0;b<10;b++){ if(!vp_begin("verdict/X%g/W%g",TH[a],TH[b])) continue;
    Xfail=TH[a]; Xweak=TH[b]; double p[60]; int np=0; p[np++]=0; p[np++]=1; p[np++]=0.5; p[np++]=1e-300; p[np++]=1-1e-16;
    for(int q=0;q<2;q++){ double x=q?Xweak:Xfail; int dy= x==0.125||x==0.25||x==0.0625||x==0.5||x==0; p[np++]=x; p[np++]=nextafter(x,1); if(x>0) p[np++]=nextafter(x,0); p[np++]=1-x-1e-12; if(x>1e-12) p[np++]=1-x+1e-12; if(dy) p[np++]=1-x; p[np++]=x/2; p[np++]=1-x/2; p[np++]=x+(0.5-x)/3; p[np++]=1-x-(0.5-x)/3; }
    nrows=0; long n=0;
    for(int i=0;i<np&&!vp_failed();i++) for(int j=0;j<np&&!vp_failed();j++) for(int w=0;w<2&&!vp_failed();w++){ double pp[3]={p[i],p[j],p[(i+j)%np]}; fill(1+(i+j)%3,100,3,7,pp); tflag=TPVALUES|TASSESSMENT|TTEST_NAME|(w?TNO_WHITE:0); output(&dt,TT); n++; nex=0; expect(tflag,0); compare(cap_take(),tflag,'|'); }
    vp_stat("states",n); vp_stat("transitions",nrows); vp_stat("traces",n);
  }
  static const int HN[]={1,2,3,5,10,19,20,21,39,40,41,99,100,101,199,200,201,250,399,400,401,1000,1500};
  for(int a=0;a<23;a++) if(vp_begin("histogram/%d",HN[a])){ int n=HN[a]; fill(1,1,1,0,P3); table_separator='|';
    for(int g=0;g<2&&!vp_failed();g++) for(int b=0;b<10&&!vp_failed();b++) for(int pos=0;pos<3&&!vp_failed();pos++){ double p= pos==0?b*0.1+1e-9:pos==1?b*0.1+0.05:(b+1)*0.1-1e-9; if(b==0&&pos==0) p=0; if(b==9&&pos==2) p=1; 
      for(int c=0;c<10&&!vp_failed();c++) for(int part=0;part<5;part++){ int m=part*n/4; for(int i=0;i<n;i++){ HV[0][i]= i<m?p:c*0.1+0.03; HV[1][i]= ((i*7+c)%10)*0.1+0.001*(1+i%90); } hist(1+(c==b),n,g?n:0); if(vp_failed()) break; } } 
    for(int c=0;c<10&&!vp_failed();c++){ for(int i=0;i<n;i++) HV[0][i]=((long)i*i+c*i)%997/997.0; hist(1,n,n); } }
  return vp_done();
}
