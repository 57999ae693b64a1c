/* C02: exhaustive check of the public bit-window helpers against per-bit definitions. */
#include <dieharder/libdieharder.h>
#include "vp.h"
#include "script.h"
#include <unistd.h>
static uint32_t pat[48]; static int npat;
static uint32_t Lb(uint32_t x,int p){ return (x>>(31-p))&1; } /* bit p from the left */
static uint32_t wd(long i,int w){ Script s; memset(&s,0,sizeof s); s.kind=SK_MIX; s.a=77; s.width=w; return script_word(&s,i); }
static char *cap_path; static int saved_fd=-1;
static void cap_begin(void){ fflush(stdout); if(!freopen(cap_path,"w",stdout)) abort(); }
static int cap_end(char *b,int n){ fflush(stdout); FILE*f=fopen(cap_path,"r"); int k=fread(b,1,n-1,f); b[k]=0; fclose(f); return k; }
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0;
  for(int i=0;i<32;i++) pat[npat++]=1u<<i;
  pat[npat++]=0; pat[npat++]=~0u; pat[npat++]=0xAAAAAAAAu; pat[npat++]=0x80000001u; for(int i=0;i<8;i++) pat[npat++]=wd(i,32);
  char path[600]; snprintf(path,sizeof path,"%s/cap",getenv("VP_SCRATCH")?getenv("VP_SCRATCH"):"/tmp"); cap_path=path;
  for(int s=0;s<32;s++) if(vp_begin("mask/start%d",s)) for(int e=s;e<32 && !vp_failed();e++){
    uint32_t m=0; for(int p=s;p<=e;p++) m|=1u<<(31-p);
    uint32_t g=b_umask(s,e); vp_stat("transitions",1); vp_stat("states",1);
    if(g!=m) vp_fail("mask of bits %d..%d (from the left) is %08x, expected %08x",s,e,g,m);
    for(int o=0;o<32 && !vp_failed();o++) for(int k=0;k<npat && !vp_failed();k++){
      uint32_t x=0; for(int p=s;p<=e;p++){ int q=o+(p-s); if(q<32 && Lb(pat[k],p)) x|=1u<<(31-q); }
      g=b_window(pat[k],s,e,o); vp_stat("transitions",1);
      if(g!=x) vp_fail("window %d..%d of %08x moved to %d is %08x, expected %08x",s,e,pat[k],o,g,x);
    }
    vp_stat("traces",1);
  }
  if(vp_begin("rotate")) for(int sh=0;sh<32;sh++) for(int k=0;k<npat;k++){
    uint32_t x=pat[k], r= sh? (x>>sh)|(x<<(32-sh)):x, l= sh?(x<<sh)|(x>>(32-sh)):x, g;
    g=b_rotate_right(x,sh); if(g!=r) vp_fail("%08x rotated right by %d is %08x, expected %08x",x,sh,g,r);
    if(sh){ g=b_rotate_left(x,sh); if(g!=l) vp_fail("%08x rotated left by %d is %08x, expected %08x",x,sh,g,l); }
    vp_stat("transitions",2); vp_stat("states",1);
  }
  for(int n=1;n<=32;n++) if(vp_begin("cycle/n%d",n)) for(int k=0;k<npat;k++){
    uint32_t m=n==32?~0u:((1u<<n)-1), x=pat[k]&m, r=(x>>1)|((x&1)<<(n-1)), g=pat[k];
    cycle(&g,n); vp_stat("transitions",1); vp_stat("states",1);
    if(g!=r) vp_fail("%d-bit cycle of %08x gives %08x, expected %08x",n,pat[k],g,r);
  }
  for(int n=1;n<=32;n++) if(vp_begin("bit2uint/n%d",n)){
    int all= n<=(vp_thorough?18:13); long lim= all? 1L<<n : npat;
    for(long v=0;v<lim;v++){ uint32_t x= all? (uint32_t)v : (pat[v]&(n==32?~0u:((1u<<n)-1))); char b[40]; for(int i=0;i<n;i++) b[i]='0'+((x>>(n-1-i))&1); b[n]='1';b[n+1]=0;
      uint32_t g=bit2uint(b,n); vp_stat("transitions",1); if(g!=x){ vp_fail("'%.*s' (%d bits) converts to %08x, expected %08x",n,b,n,g,x); break; } }
    vp_stat("states",lim);
  }
  for(int w=1;w<=32;w++) if(vp_begin("getbit/w%d",w)){
    rmax_bits=w; for(int t=0;t<6;t++){ uint32_t v[4]; for(int i=0;i<4;i++) v[i]= t==4?0: t==5?(w==32?~0u:((1u<<w)-1)) : wd(t*4+i,w);
      for(int n=0;n<32;n++){ int e=(v[0]>>n)&1, g=get_int_bit(v[0],n); vp_stat("transitions",1); if(!!g!=e) vp_fail("bit %d of %08x is %d",n,v[0],g); }
      for(int n=0;n<4*w;n++){ int e=(v[n/w]>>(w-1-n%w))&1; int g=get_bit(v,n); vp_stat("transitions",1); vp_stat("states",1); if(g!=e) vp_fail("valid bit %d of %d-bit words %08x %08x.. is %d, expected %d",n,w,v[0],v[1],g,e); } }
  }
  for(int w=16;w<=32;w++) if(vp_begin("fill/w%d",w)){
    Script s; for(int f=0;script_family(f,w,&s);f++){ script_install(&s); uint32_t b[9]; b[8]=0x1234567; fill_uint_buffer(b,8); int d=32-w;
      for(int i=0;i<8;i++){ uint32_t e=(d?script_word(&s,2*i)<<d:script_word(&s,2*i)) + (script_word(&s,2*i+1)&((1u<<d)-1)); vp_stat("transitions",1); if(b[i]!=e) vp_fail("filled word %d is %08x, expected %08x",i,b[i],e); }
      if(b[8]!=0x1234567) vp_fail("wrote past the end of the buffer"); vp_stat("states",1); }
  }
  /* n-tuples counted from the right end of a vector of w-bit words */
  for(int w=1;w<=32;w++) for(int bs=1;bs<=4;bs++) if(vp_begin("ntuple/w%d/len%d",w,bs)){
    rmax_bits=w; for(int t=0;t<(vp_thorough?8:4);t++){ uint32_t v[6],o[6]; for(int i=0;i<6;i++) v[i]= t==1?(w==32?~0u:((1u<<w)-1)): t==2?(i&1?0:wd(i,w)) : wd(t*7+i,w); memcpy(o,v,sizeof v);
      for(int off=0;off<bs*w && !vp_failed();off++) for(int n=1;n<=32;n++){
        uint32_t e=0; for(int i=0;i<n;i++){ int b=(off+i)%(bs*w); if((v[1+bs-1-b/w]>>(b%w))&1) e|=1u<<i; }
        uint32_t g=get_bit_ntuple(v+1,bs,n,off); vp_stat("transitions",1);
        if(g!=e){ vp_fail("%d bits at offset %d of %d words of %d bits (%08x ...): %08x, expected %08x",n,off,bs,w,v[1],g,e); break; }
        if(memcmp(o,v,sizeof v)){ vp_fail("input vector modified"); break; } }
      vp_stat("states",bs*w); } vp_stat("traces",1);
  }
  /* cyclic n-tuples counted from the left */
  for(int il=1;il<=6;il++) for(int jl=1;jl<=5;jl++) if(vp_begin("cyclic/in%d/out%d",il,jl)){
    for(int t=0;t<(vp_thorough?6:3);t++){ uint32_t v[8],o[8],out[8]; for(int i=0;i<8;i++) v[i]= t==1?~0u: wd(t*9+i,32); memcpy(o,v,sizeof v);
      for(int off=0;off<2*il*32 && !vp_failed();off++) for(int n=1;n<=jl*32 && n<=il*32;n++){
        uint32_t e[8]; memset(e,0,sizeof e); for(int b=0;b<n;b++){ int p=(off+n-1-b)%(il*32); if(Lb(v[1+p/32],p%32)) e[jl-1-b/32]|=1u<<(b%32); }
        for(int i=0;i<8;i++) out[i]=0xABABABAB; get_ntuple_cyclic(v+1,il,out+1,jl,n,off); vp_stat("transitions",1);
        if(memcmp(out+1,e,4*jl)){ vp_fail("%d bits at offset %d of %d words: got %08x %08x.., expected %08x %08x.. (%d output words)",n,off,il,out[1],out[2],e[0],e[1],jl); break; }
        if(out[0]!=0xABABABAB||out[jl+1]!=0xABABABAB){ vp_fail("wrote outside the output (%d bits at %d)",n,off); break; }
        if(memcmp(o,v,sizeof v)){ vp_fail("input vector modified"); break; } }
      vp_stat("states",2*il*32); } vp_stat("traces",1);
  }
  for(int n=1;n<=32;n++) if(vp_begin("print/n%d",n)) for(int k=0;k<npat && !vp_failed();k++){
    char b[300],e[300]; int q=0; uint32_t x=pat[k];
    for(int i=n-1;i>=0;i--) e[q++]='0'+((x>>i)&1); e[q]=0;
    cap_begin(); dumpbits(&x,n); cap_end(b,sizeof b); if(strcmp(b,e)) vp_fail("printed bits of %08x (%d): '%s' expected '%s'",x,n,b,e);
    cap_begin(); dumpbitwin(x,n); cap_end(b,sizeof b); if(strcmp(b,e)) vp_fail("printed window of %08x (%d): '%s' expected '%s'",x,n,b,e);
    if(n<=3){ uint32_t v[3]={x,~x,x*3}; char *z=e; z+=sprintf(z,"|"); for(int i=0;i<n;i++){ for(int j=31;j>=0;j--) *z++='0'+((v[i]>>j)&1); *z++='|'; } *z=0;
      cap_begin(); dumpuintbits(v,n); cap_end(b,sizeof b); if(strcmp(b,e)) vp_fail("printed words of %08x (%d): '%s' expected '%s'",x,n,b,e); }
    vp_stat("transitions",2);
  }
  vp_sample("n-tuples: every width 1..32 x 1..4 words x every offset x lengths 1..32; cyclic windows: 1..6 input words, 1..5 output words, every offset (twice round) and length");
  return vp_done();
}
