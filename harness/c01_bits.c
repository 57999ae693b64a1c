/* C01: the bit supply is lossless, in order and duplicate-free for every generator width.
 *
 * Model: the generator's words of width w form one bit string, low bit of each word first.
 * get_uint_rand() number k must return bits 32k..32k+31; a request for n bits must return the next n.
 * The abstract state of the request machine is (bit position mod 192, size of the previous request):
 * an Eulerian tour of that state graph drives the real code through EVERY (position, previous size,
 * next size) transition, for each width. */
#include <dieharder/libdieharder.h>
#include "vp.h"
#include "script.h"
static int POS=192;
static const Script *SC; static int W;
static uint64_t cw_i=-1; static uint32_t cw;
static inline unsigned sbit(uint64_t k){ uint64_t i=k/W; if(i!=cw_i){ cw_i=i; cw=script_word(SC,i);} return (cw>>(k%W))&1; }
static void expect(uint64_t from,int n,uint32_t *out,int nw){ /* result layout: right aligned, most significant word first */
  memset(out,0,4*nw);
  for(int b=0;b<n;b++) if(sbit(from+b)) out[nw-1-b/32] |= 1u<<(b%32);
}
/* ring oracle: expected bits as 64-bit chunks, generated in LSB-first order */
static uint64_t *tour; static long tourlen;
static unsigned char *tn; /* sizes along the tour */
static void build_tour(int maxn,int minn){
  /* Hierholzer on nodes (p,last) ; edges n in minn..maxn */
  int KK=maxn-minn+1; long V=(long)POS*KK; unsigned char *ptr=calloc(V,1); unsigned short *ptr2=calloc(V,2);
  long E=V*KK; int *st=malloc((E+2)*sizeof(int)); unsigned char *res=malloc(E+2); long sp=0,rl=0;
  unsigned char *se=malloc(E+2);
  st[sp]=0; se[sp]=0; sp++;
  while(sp>0){ int v=st[sp-1]; if(ptr2[v]<KK){ int e=ptr2[v]++; int p=v/KK; int np=(p+minn+e)%POS; st[sp]=np*KK+e; se[sp]=minn+e; sp++; } else { sp--; if(sp>0||1) res[rl++]=se[sp]; } }
  /* res reversed is the sequence of edge labels, res[rl-1] is the start marker */
  tourlen=rl-1; tn=malloc(tourlen+1); for(long i=0;i<tourlen;i++) tn[i]=res[rl-2-i];
  free(ptr);free(ptr2);free(st);free(res);free(se);
}
int main(int argc,char **argv){
  vp_init(argc,argv);
  verbose=0;
  int built=0; long V=0;
  /* part 1: plain 32-bit delivery over several full phase cycles, every width, every stream of the family */
  for(W=1;W<=32;W++) for(int f=0;;f++){
    Script s; if(!script_family(f,W,&s)) break;
    char nm[300]; script_name(&s,nm,sizeof nm);
    if(!vp_begin("uint/%s",nm)) continue;
    script_install(&s); SC=&s; cw_i=-1;
    int N= vp_thorough? 4096:512;
    for(int k=0;k<N;k++){ uint32_t got=get_uint_rand(rng),e; expect((uint64_t)32*k,32,&e,1);
      vp_stat("transitions",1);
      if(got!=e){ vp_fail("32-bit word %d from a %d-bit generator is %08x, the stream says %08x",k,W,got,e); break; } }
    vp_stat("states",W); vp_stat("traces",1);
    vp_outcome("u%08x",script_word(&s,3));
  }
  /* part 2: every (position, previous size, next size), sizes 1..128 */
  for(W=1;W<=32;W++) for(int f=0;f<(vp_thorough?6:1);f++){
    Script s; static const int fam[6]={0,5,9,1,6,11}; script_family(fam[f],W,&s);
    char nm[300]; script_name(&s,nm,sizeof nm);
    if(!vp_begin("tour/%s",nm)) continue;
    if(!built){ built=1; build_tour(128,1); V=(long)POS*128; }
    script_install(&s); SC=&s; cw_i=-1;
    /* incremental oracle: 128+ bit window as stream; chunk buffer of stream bits */
    uint64_t base=0; /* bits consumed */
    uint64_t acc_lo=0,acc_hi=0; int accn=0; long gi=0; /* unread bits, low first */
    long steps=0;
    for(long i=0;i<tourlen;i++){
      int n=tn[i];
      unsigned __int128 acc=((unsigned __int128)acc_hi<<64)|acc_lo;
      uint32_t e[4]={0,0,0,0};
      /* gather n bits */
      int need=n, pos=0; unsigned __int128 v=0;
      while(need>0){
        if(accn==0){ acc=script_word(&s,gi++); accn=W; }
        int t= need<accn?need:accn;
        unsigned __int128 m = t>=64? ~(unsigned __int128)0 : ((((unsigned __int128)1)<<t)-1);
        v |= (acc&m)<<pos; acc>>=t; accn-=t; pos+=t; need-=t;
      }
      acc_lo=(uint64_t)acc; acc_hi=(uint64_t)(acc>>64);
      int nw=(n+31)/32; /* natural result size; alternate with the largest one */
      if(i&1) nw=4;
      for(int k=0;k<nw;k++) e[nw-1-k]=(uint32_t)(v>>(32*k));
      uint32_t got[4]={0xdeadbeef,0xdeadbeef,0xdeadbeef,0xdeadbeef};
      get_rand_bits(got,nw*4,n,rng);
      steps++;
      if(memcmp(got,e,nw*4)){
        vp_fail("%d-bit request at stream bit %llu (previous request %d bits), %d-bit generator: got %08x.%08x.%08x.%08x expected %08x.%08x.%08x.%08x (leading words first)",n,(unsigned long long)base,i?tn[i-1]:0,W,got[0],got[1],got[2],got[3],e[0],e[1],e[2],e[3]); break; }
      base+=n;
    }
    vp_stat("transitions",steps); vp_stat("states",V); vp_stat("traces",1);
    vp_sample("tour over %ld transitions, width %d, %llu stream bits, all requests in order",steps,W,(unsigned long long)base);
  }
  /* part 3: a reset at every position of the request machine restarts at the generator's next word */
  for(W=1;W<=32;W++){
    if(!vp_begin("reset/w%d",W)) continue;
    Script s; script_family(2,W,&s); SC=&s;
    for(int T=0;T<400 && !vp_failed();T++) for(int kind=0;kind<2;kind++){
      script_install(&s);
      uint32_t r[4];
      if(kind) for(int k=0;k<T/16;k++) get_uint_rand(rng); else for(int k=0;k<T;k++) get_rand_bits(r,4,1+(k*7)%32,rng);
      reset_bit_buffers();
      long p=script_pos; cw_i=-1;
      for(int k=0;k<8;k++){ uint32_t e,g; int n= kind?32:13;
        expect((uint64_t)p*W+(uint64_t)n*k,n,&e,1);
        if(kind) g=get_uint_rand(rng); else get_rand_bits(&g,4,n,rng);
        vp_stat("transitions",1);
        if(g!=e){ vp_fail("after a buffer reset (history %d/%d) request %d returned %08x, expected %08x: stale bits survive the reset",T,kind,k,g,e); break; }
      }
      vp_stat("states",1); vp_stat("traces",1);
    }
  }
  return vp_done();
}
