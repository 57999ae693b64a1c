/* C18: the missing-word tests on enumerated streams: the exact set of words is rebuilt bit by bit. */
#include "ref.h"
static Script S_; static char N_[400]; static const char *nm(void){ script_name(&S_,N_,sizeof N_); return N_; }
static unsigned char *hit; 
static long missing(long n){ long c=0; for(long i=0;i<n;i++) c+=!hit[i]; return c; }

static void one(const char *name,unsigned ts,int ov,int runs){ int T=num_of(name); if(T<0) return; script_install(&S_); Rb r={&S_}; tst_open(T,ts,0,ov,runs); int w=S_.width; uint32_t m= w>=32?0xffffffffu:((1u<<w)-1);
  for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); memset(hit,0,1<<20); ld y=0,sg=1;
    if(!strcmp(name,"diehard_opso")){ y=141909.3299550069L; sg=290.4622634038L; uint32_t a=0,b=0; for(unsigned t=0;t<ts;t++){ if(t%2==0){ a=rb_word(&r); b=rb_word(&r); } int o=10*(t%2); hit[(a>>o&1023)<<10|(b>>o&1023)]=1; } }
    else if(!strcmp(name,"diehard_oqso")){ y=141909.6005321316L; sg=294.6558723658L; uint32_t a[4]; for(unsigned t=0;t<ts;t++){ if(t%6==0) for(int i=0;i<4;i++) a[i]=rb_word(&r); int o=5*(t%6); uint32_t v=0; for(int i=0;i<4;i++) v=v<<5|(a[i]>>o&31); hit[v]=1; } }
    else if(!strcmp(name,"diehard_dna")){ y=141910.4026047629L; sg=337.2901506904L; uint32_t a[10]; for(int i=0;i<11;i++) rb_word(&r); for(unsigned t=0;t<ts;t++){ if(t%32==0) for(int i=0;i<10;i++) a[i]=rb_word(&r); int o=t%32%w, o2=(o+1)%w; uint32_t v=0; for(int i=0;i<10;i++) v=v<<2|(a[i]>>o2&1)<<1|(a[i]>>o&1); hit[v]=1; } }
    else { y=141909; sg=428; long nw= ts/32+2>262146?ts/32+2:262146; uint32_t *b=malloc(4*nw); for(long i=0;i<nw;i++) b[i]=rb_bits(&r,32); for(unsigned t=0;t<ts;t++){ uint32_t v=0; for(int i=0;i<20;i++){ long q=8l+t+i; v=v<<1|(b[q>>5]>>(31-(q&31))&1); } hit[v]=1; } free(b); }
    long x=missing(1<<20); p_cmp(TP(0,k),r_x(x,y,sg),"%s %s t%u overlap %d run %d (missing %ld)",name,nm(),ts,ov,k,x); vp_stat("transitions",ts); if(t_cur[0]->tsamples!=ts) vp_fail("%s changed its sample count to %u",name,t_cur[0]->tsamples); }
  tst_close(); }
static void opso2(int runs){ int T=num_of("dab_opso2"); if(T<0) return; script_install(&S_); Rb r={&S_}; int w=S_.width; tst_open(T,1<<26,0,1,runs); static uint64_t *h1,*h2; if(!h1){ h1=malloc(1<<21); h2=malloc(1<<21); }
  for(int k=0;k<runs&&!vp_failed();k++){ dh_test_types[T]->test(t_cur,k); if(w<24){ p_cmp(TP(0,k),0.5L,"dab_opso2 %s narrow",nm()); p_cmp(TP(1,k),0.5L,"dab_opso2 %s narrow",nm()); if(script_pos) vp_fail("dab_opso2 drew %ld words it does not use",script_pos); continue; }
    memset(h1,0,1<<21); memset(h2,0,1<<21); for(long t=0;t<1l<<25;t++){ uint32_t a=rb_word(&r),b=rb_word(&r); uint32_t v; v=a&0xffffff; h1[v>>6]|=1ull<<(v&63); v=b&0xffffff; h1[v>>6]|=1ull<<(v&63); v=(a&4095)<<12|(b&4095); h2[v>>6]|=1ull<<(v&63); v=(a>>12&4095)<<12|(b>>12&4095); h2[v>>6]|=1ull<<(v&63); }
    long x1=0,x2=0; for(int i=0;i<1<<18;i++){ x1+=64-__builtin_popcountll(h1[i]); x2+=64-__builtin_popcountll(h2[i]); }
    p_cmp(TP(0,k),r_x(x1,307285.393182468L,528.341514924662L),"dab_opso2 within words %s run %d (missing %ld)",nm(),k,x1); p_cmp(TP(1,k),r_x(x2,307285.393182468L,528.341514924662L),"dab_opso2 pairs %s run %d (missing %ld)",nm(),k,x2); vp_stat("transitions",1l<<26); }
  tst_close(); }
int main(int argc,char **argv){
  vp_init(argc,argv); tst_init(); hit=malloc(1<<20); const char *NM[]={"diehard_opso","diehard_oqso","diehard_dna","diehard_bitstream"};
  const int WD[]={32,31,30,24,20,16,13,8,27,9}; const int DT[]={0,1,-1,2,3,31,-4097,9001};
  for(int n=0;n<4;n++) for(int wi=0;wi<(vp_thorough?10:8);wi++) for(int d=0;d<8;d++) if(vp_begin("%s/w%d/t%+d",NM[n],WD[wi],DT[d])){ for(int f=0;f<(vp_thorough?4:2)&&!vp_failed();f++){ script_family((f+d)%4,WD[wi],&S_); one(NM[n],2097152+DT[d],d&1,f?1:2); }
     if(d==0) for(int f=4;script_family(f,WD[wi],&S_)&&!vp_failed();f++) one(NM[n],2097152,1,1); }
  /* narrow words, fewer samples: the count of missing words is brought into the range where it decides the p-value */
  for(int n=0;n<4;n++) if(vp_begin("%s/small",NM[n])) for(unsigned ts=0;ts<=7&&!vp_failed();ts++) for(int f=0;script_family(f,32,&S_)&&!vp_failed();f++) one(NM[n],ts,1,1);
  /* a word repeated any number of times is present: constant prefixes of every length up to the bound, then a good stream */
  for(int n=0;n<4;n++) for(int c=0;c<4;c++) if(vp_begin("%s/prefix/c%d",NM[n],c)){ const uint32_t C[]={0,0xffffffffu,0xaaaaaaaau,0x33333333u}; for(int L=0;L<=(vp_thorough?60:24)&&!vp_failed();L++){ memset(&S_,0,sizeof S_); S_.kind=SK_PREFIX; S_.width=32; S_.a=1+L%4; S_.c=C[c]; S_.b= n==2?11+10*L: n==3?L+1: 128*L; one(NM[n],2097152,1,1); } }
  /* ... and at bit granularity, so that every number of repetitions from about 224 to 288 occurs */
  for(int n=2;n<4;n++) for(int c=0;c<4;c++) if(vp_begin("%s/repeat/c%d",NM[n],c)) for(int g=7;g<=8;g++) for(int k=0;k<32&&!vp_failed();k++){ memset(&S_,0,sizeof S_); S_.kind=SK_PERIODIC; S_.width=32; S_.tail=1; S_.a=977*(c+1); int q=0; if(n==2){ for(int i=0;i<11+10*g;i++) S_.words[q++]=0; for(int i=0;i<10;i++) S_.words[q++]=0xffffffffu<<k; } else { for(int i=0;i<=g;i++) S_.words[q++]=0; S_.words[q++]=0xffffffffu>>k; } S_.n=q; one(NM[n],2097152,1,1); }
  for(unsigned ts=8388600;ts<8388700;ts+=13) if(vp_begin("diehard_bitstream/long/t%u",ts)){ script_family(ts%4,32,&S_); one(NM[3],ts,1,2); }
  if(vp_begin("opso2/narrow")) for(int w=8;w<24;w++){ script_family(0,w,&S_); opso2(2); }
  const int W2[]={32,24,31,25,28,30}; for(int i=0;i<(vp_thorough?6:4);i++) for(int f=0;f<(vp_thorough?4:1);f++) if(vp_begin("opso2/w%d/%d",W2[i],f)){ script_family(f,W2[i],&S_); opso2(vp_thorough?2:1+(i==0)); }
  return vp_done();
}
