/* C27: the library's own generators against independent implementations of their algorithms:
 * seeds enumerated, positions beyond several refills, integer and floating draws interleaved. */
#include <dieharder/libdieharder.h>
#include "vp.h"
#include "script.h"
#undef M
#undef K
typedef struct { int kind; const char *name; double max; } G;
static const G GEN[]={{0,"kiss",4294967295.0},{1,"superkiss",4294967295.0},{2,"AES_OFB",4294967295.0},{3,"Threefish_OFB",4294967295.0},{4,"ca",4294967295.0},{5,"uvag",4294967295.0},
 {6,"R_wichmann_hill",4294967295.0},{7,"R_marsaglia_multic.",4294967295.0},{8,"R_super_duper",4294967295.0},{9,"R_mersenne_twister",4294967295.0},{10,"R_knuth_taocp",1073741823.0},{11,"R_knuth_taocp2",1073741823.0}};
#define NG 12
typedef struct { int kind; uint32_t x,y,z,c; uint32_t *q; int qi; uint8_t key[16],blk[64]; int pos; uint64_t tk[8],tw[2]; uint8_t cell[2056]; int at; uint8_t sv[259]; uint8_t si; uint32_t acc; uint32_t mt[624]; int mi; long kx[100]; int ki; } Ref;
/* --- AES-128, straight from the cipher's definition --- */
static uint8_t SB[256];
static uint8_t gmul(uint8_t a,uint8_t b){ uint8_t p=0; for(int i=0;i<8;i++){ if(b&1) p^=a; uint8_t h=a&0x80; a<<=1; if(h) a^=0x1b; b>>=1; } return p; }
static void mksbox(void){ for(int i=0;i<256;i++){ uint8_t inv=0; if(i) for(int j=1;j<256;j++) if(gmul(i,j)==1){ inv=j; break; } uint8_t s=0; for(int b=0;b<8;b++){ int v=(inv>>b)^(inv>>((b+4)%8))^(inv>>((b+5)%8))^(inv>>((b+6)%8))^(inv>>((b+7)%8))^(0x63>>b); s|=(v&1)<<b; } SB[i]=s; } }
static uint8_t M2[256],M3[256];
static void aes(const uint8_t *key,uint8_t *b){ uint8_t w[176]; memcpy(w,key,16); uint8_t rc=1; for(int i=16;i<176;i+=4){ uint8_t t[4]; memcpy(t,w+i-4,4); if(i%16==0){ uint8_t u=t[0]; t[0]=SB[t[1]]^rc; t[1]=SB[t[2]]; t[2]=SB[t[3]]; t[3]=SB[u]; rc=gmul(rc,2); } for(int j=0;j<4;j++) w[i+j]=w[i-16+j]^t[j]; }
  for(int i=0;i<16;i++) b[i]^=w[i];
  for(int r=1;r<=10;r++){ uint8_t s[16]; for(int c=0;c<4;c++) for(int k=0;k<4;k++) s[4*c+k]=SB[b[4*((c+k)%4)+k]]; for(int c=0;c<4;c++) for(int k=0;k<4;k++){ uint8_t v= r==10?s[4*c+k]:M2[s[4*c+k]]^M3[s[4*c+(k+1)%4]]^s[4*c+(k+2)%4]^s[4*c+(k+3)%4]; b[4*c+k]=v^w[16*r+4*c+k]; } } }
/* --- Threefish-512, from the Skein 1.1 specification --- */
static const int TR[8][4]={{38,30,50,53},{48,20,43,31},{34,14,15,27},{26,12,58,7},{33,49,8,42},{39,27,41,14},{29,26,11,9},{33,51,39,35}};
static uint64_t ld64(const uint8_t *p){ uint64_t v=0; for(int i=7;i>=0;i--) v=v<<8|p[i]; return v; }
static void fish(const uint64_t *key,const uint64_t *tw,uint8_t *b){ uint64_t k[9],t[3]={tw[0],tw[1],tw[0]^tw[1]},v[8],f[8]; k[8]=0x5555555555555555ull; for(int i=0;i<8;i++){ k[i]=key[i]; k[8]^=key[i]; v[i]=ld64(b+8*i); }
  static const int PI8[8]={2,1,4,7,6,5,0,3};
  for(int d=0;d<=72;d++){ if(d%4==0){ int s=d/4; for(int i=0;i<8;i++){ v[i]+=k[(s+i)%9]; if(i==5) v[i]+=t[s%3]; if(i==6) v[i]+=t[(s+1)%3]; if(i==7) v[i]+=s; } } if(d==72) break; for(int j=0;j<4;j++){ uint64_t a=v[2*j]+v[2*j+1]; int r=TR[d%8][j]; f[2*j]=a; f[2*j+1]=((v[2*j+1]<<r)|(v[2*j+1]>>(64-r)))^a; } for(int i=0;i<8;i++) v[i]=f[PI8[i]]; }
  for(int i=0;i<8;i++) for(int j=0;j<8;j++) b[8*i+j]=v[i]>>(8*j); }
/* --- the cellular automaton --- */
static const uint8_t CR[256]={100,75,16,3,229,51,197,118,24,62,198,11,141,152,241,188,2,17,71,47,179,177,126,231,202,243,59,25,77,196,30,134,199,163,34,216,21,84,37,182,224,186,64,79,225,45,143,20,48,147,209,221,125,29,99,12,46,190,102,220,80,215,242,105,15,53,0,67,68,69,70,89,109,195,170,78,210,131,42,110,181,145,40,114,254,85,107,87,72,192,90,201,162,122,86,252,94,129,98,132,193,249,156,172,219,230,153,54,180,151,83,214,123,88,164,167,116,117,7,27,23,213,235,5,65,124,60,127,236,149,44,28,58,121,191,13,250,10,232,112,101,217,183,239,8,32,228,174,49,113,247,158,106,218,154,66,226,157,50,26,253,93,205,41,133,165,61,161,187,169,6,171,81,248,56,175,246,36,178,52,57,212,39,176,184,185,245,63,35,189,206,76,104,233,194,19,43,159,108,55,200,155,14,74,244,255,222,207,208,137,128,135,96,144,18,95,234,139,173,92,1,203,115,223,130,97,91,227,146,4,31,120,211,38,22,138,140,237,238,251,240,160,142,119,73,103,166,33,148,9,111,136,168,150,82,204};
static uint32_t ca_step(Ref *r){ uint32_t v=0; int e=r->at; for(int j=0;j<4;j++){ int i=e-j; int left= i>0?r->cell[i-1]:0; r->cell[i]=CR[(left+r->cell[i])&255]; } for(int j=0;j<4;j++) v|=(uint32_t)r->cell[e-3+j]<<(8*j); r->at= e==3?2055:e-4; return v; }
/* --- Knuth --- */
#define MMK 1073741824L
static long kd(long a,long b){ return ((a-b)%MMK+MMK)%MMK; }
static void k_array(long *x,long *out,int n){ /* the next n numbers after the state, then the state of the last 100 */ long *a=malloc((n+100)*sizeof(long)); memcpy(a,x,100*sizeof(long)); for(int j=100;j<n+100;j++) a[j]=kd(a[j-100],a[j-37]); if(out) memcpy(out,a,n*sizeof(long)); memcpy(x,a+n,100*sizeof(long)); free(a); }
static void k_start(long *X,long s){ long x[200]; long ss=(s+2)&(MMK-2); for(int j=0;j<100;j++){ x[j]=ss; ss<<=1; if(ss>=MMK) ss-=MMK-2; } x[1]++; long e=s&(MMK-1); int t=69; 
  while(t){ /* square modulo z^100 + z^37 + 1 */ long y[199]; memset(y,0,sizeof y); for(int j=0;j<100;j++) y[2*j]=x[j]; /* odd places stay 0 */ for(int j=198;j>=100;j--){ y[j-63]=kd(y[j-63],y[j]); y[j-100]=kd(y[j-100],y[j]); } memcpy(x,y,100*sizeof(long));
    if(e&1){ long top=x[99]; for(int j=99;j>0;j--) x[j]=x[j-1]; x[0]=top; x[37]=kd(x[37],top); } if(e) e>>=1; else t--; }
  for(int j=0;j<37;j++) X[j+63]=x[j]; for(int j=37;j<100;j++) X[j-37]=x[j]; for(int j=0;j<10;j++) k_array(X,0,199); }
static void ref_set(Ref *r,int kind,uint32_t s){ uint32_t *q=r->q; int k0=kind; memset(r,0,sizeof *r); r->q=q; r->kind=k0; gsl_rng *m=0; if(kind==0||kind==1||kind==5){ m=gsl_rng_alloc(gsl_rng_mt19937_1999); gsl_rng_set(m,s); }
  switch(kind){
   case 0: r->x=gsl_rng_get(m); while(!(r->y=gsl_rng_get(m))); r->z=gsl_rng_get(m); r->c=gsl_rng_get(m)%698769068u+1; break;
   case 1: if(!r->q) r->q=malloc(41790*4); for(int i=0;i<41790;i++) r->q[i]=gsl_rng_get(m); r->qi=41790; r->c=362436; r->x=1236789; r->y=521288629; break;
   case 2: for(int i=0;i<16;i++) r->key[i]=112+i+(s>>((5*i)%26)); aes(r->key,r->blk); break;
   case 3: { uint8_t k[64]; for(int i=0;i<64;i++) k[i]=64+i; for(int i=0;i<8;i++) r->tk[i]=ld64(k+8*i); for(int i=0;i<16;i++) k[i]=112+i; r->tw[0]=ld64(k); r->tw[1]=ld64(k+8); for(int i=0;i<4;i++) r->blk[i]=s>>(8*i); fish(r->tk,r->tw,r->blk); r->tw[0]=112; break; }
   case 4: r->cell[2055]=s; { uint32_t u= s==0xffffffffu?s:s+1; for(int i=0;i<2052;i++) r->cell[i]=u>>(i%32); } r->at=2055; for(int i=0;i<2056*2056/4;i++) ca_step(r); break;
   case 5: { uint8_t key[256]; for(int i=0;i<64;i++){ uint32_t w=gsl_rng_get(m); for(int j=0;j<4;j++) key[4*i+j]=w>>(8*j); } key[255]=0; for(int i=0;i<259;i++) r->sv[i]=i; int kl=1; while(key[kl]) kl++; unsigned tot=0; for(int i=0;i<259;i++){ tot=(tot+key[i%kl])%259; uint8_t t=r->sv[tot]; r->sv[tot]=r->sv[i]; r->sv[i]=t; } break; }
   default: { for(int i=0;i<50;i++) s=69069*s+1; uint32_t w[625]; if(kind<=9) for(int i=0;i<625;i++) w[i]=s=69069*s+1;
     if(kind==6){ r->x=w[0]%30269; r->y=w[1]%30307; r->z=w[2]%30323; if(!r->x) r->x=1; if(!r->y) r->y=1; if(!r->z) r->z=1; }
     if(kind==7){ r->x=w[0]?w[0]:1; r->y=w[1]?w[1]:1; } if(kind==8){ r->x=w[0]?w[0]:1; r->y=w[1]|1; }
     if(kind==9){ memcpy(r->mt,w+1,sizeof r->mt); r->mi=624; } if(kind>=10){ k_start(r->kx,s%1073741821u); r->ki=100; } } }
  if(m) gsl_rng_free(m); }
static double fix(double u){ const double h=0.5*2.328306437080797e-10; return u<=0?h:1-u<=0?1-h:u; }
/* next value: integers for kinds 0-5 in *iv; the uniform for the R family in the result */
static double ref_next(Ref *r,uint32_t *iv){ uint64_t t; double u;
  switch(r->kind){
   case 0: r->x=314527869u*r->x+1234567u; r->y^=r->y<<5; r->y^=r->y>>7; r->y^=r->y<<22; t=4294584393ull*r->z+r->c; r->c=t>>32; r->z=t; *iv=r->x+r->y+r->z; return 0;
   case 1: r->x=69069*r->x+123; r->y^=r->y<<13; r->y^=r->y>>17; r->y^=r->y>>5; if(r->qi==41790){ for(int i=0;i<41790;i++){ t=7010176ull*r->q[i]+r->c; r->c=t>>32; r->q[i]=~(uint32_t)t; } r->qi=0; } *iv=r->q[r->qi++]+r->x+r->y; return 0;
   case 2: if(r->pos==16){ aes(r->key,r->blk); r->pos=0; } *iv=r->blk[r->pos]|r->blk[r->pos+1]<<8|r->blk[r->pos+2]<<16|(uint32_t)r->blk[r->pos+3]<<24; r->pos+=4; return 0;
   case 3: if(r->pos==64){ fish(r->tk,r->tw,r->blk); r->pos=0; } *iv=r->blk[r->pos]|r->blk[r->pos+1]<<8|r->blk[r->pos+2]<<16|(uint32_t)r->blk[r->pos+3]<<24; r->pos+=4; return 0;
   case 4: *iv=ca_step(r); return 0;
   case 5: { r->si++; uint8_t *p=r->sv+r->sv[r->si]; uint32_t v=p[0]|p[1]<<8|p[2]<<16|(uint32_t)p[3]<<24; v+=r->acc; for(int i=0;i<4;i++) p[i]=v>>(8*i); r->acc+=v; *iv=r->acc; return 0; }
   case 6: r->x=r->x*171%30269; r->y=r->y*172%30307; r->z=r->z*170%30323; u=r->x/30269.0+r->y/30307.0+r->z/30323.0; return fix(u-floor(u));
   case 7: r->x=36969*(r->x&65535)+(r->x>>16); r->y=18000*(r->y&65535)+(r->y>>16); return fix((uint32_t)((r->x<<16)^(r->y&65535))/4294967295.0);
   case 8: r->x^=r->x>>15; r->x^=r->x<<17; r->y*=69069; return fix((r->x^r->y)/4294967295.0);
   case 9: { if(r->mi==624){ for(int k=0;k<624;k++){ uint32_t y=(r->mt[k]&0x80000000u)|(r->mt[(k+1)%624]&0x7fffffffu); r->mt[k]=r->mt[(k+397)%624]^(y>>1)^((y&1)*0x9908b0dfu); } r->mi=0; } uint32_t y=r->mt[r->mi++]; y^=y>>11; y^=(y<<7)&0x9d2c5680u; y^=(y<<15)&0xefc60000u; y^=y>>18; return fix(y/4294967296.0); }
   default: if(r->ki==100){ k_array(r->kx,0,1009); r->ki=0; } return fix(r->kx[r->ki++]/1073741824.0);
  } }
static int num(const char *n){ for(int i=0;i<MAXRNGS;i++) if(dh_rng_types[i]&&!strcmp(dh_rng_types[i]->name,n)) return i; return -1; }
static Ref R;
/* op pattern: bit i%8 of pat chooses the floating draw */
static void run(gsl_rng *g,const G *d,uint32_t s,long n,int pat,const char *what){ gsl_rng_set(g,s); ref_set(&R,d->kind,s); vp_stat("states",1); vp_stat("traces",1);
  for(long i=0;i<n;i++){ uint32_t iv; double u=ref_next(&R,&iv); int fl=pat>>(i%8)&1; vp_stat("transitions",1);
    if(d->kind<6){ if(fl){ double v=gsl_rng_uniform(g); if(fabs(v-iv/4294967295.0)>1e-9){ vp_fail("%s seed %u %s: draw %ld is %.12g, expected %.12g",d->name,s,what,i,v,iv/4294967295.0); return; } } else { unsigned long v=gsl_rng_get(g); if(v!=iv){ vp_fail("%s seed %u %s: draw %ld is %lu, expected %u",d->name,s,what,i,v,iv); return; } } }
    else if(fl){ double v=gsl_rng_uniform(g); if(fabs(v-u)>1e-12){ vp_fail("%s seed %u %s: draw %ld is %.15g, expected %.15g",d->name,s,what,i,v,u); return; } }
    else { double v=gsl_rng_get(g), lo=floor(u*d->max-1e-3), hi=floor(u*d->max+1e-3); if(v<lo||v>hi){ vp_fail("%s seed %u %s: draw %ld is %.0f, expected %.0f",d->name,s,what,i,v,hi); return; } } } }
int main(int argc,char **argv){
  vp_init(argc,argv); verbose=0; dieharder_rng_types(); reset_bit_buffers(); mksbox(); for(int i=0;i<256;i++){ M2[i]=gmul(i,2); M3[i]=gmul(i,3); } int X=1, T=vp_thorough;
  static const long NPOS[NG]={2000,130000,4000,8000,5000,20000,3000,3000,3000,3200,1050,1050};   /* several refills */
  static const long NDEEP[NG]={2000000,1000000,400000,800000,2000000,4000000,2000000,2000000,2000000,2000000,200000,200000};
  static const int SMALL[NG]={65536,96,32768,65536,0,8192,65536,65536,65536,4096,192,192}; /* seeds 0..n-1, first draws */
  static const int SHORT[NG]={24,64,24,40,0,300,40,40,40,700,120,120};
  for(int gi=0;gi<NG;gi++){ const G *d=&GEN[gi]; int id=num(d->name); gsl_rng *g=0;
    if(vp_begin("%s/registered",d->name)){ if(id<0) vp_fail("generator %s is not registered",d->name); else if(dh_rng_types[id]->max!=d->max||dh_rng_types[id]->min!=0) vp_fail("generator %s declares the range %lu..%lu",d->name,dh_rng_types[id]->min,dh_rng_types[id]->max); }
    if(id<0) continue;
    /* every single-bit seed, its complement, boundaries: several refills, with every draw pattern of the alphabet */
    uint32_t sd[100]; int ns=0; for(int b=0;b<32;b++){ sd[ns++]=1u<<b; sd[ns++]=~(1u<<b); } sd[ns++]=0; sd[ns++]=0xffffffffu; sd[ns++]=0x12345678u; sd[ns++]=0xdeadbeefu; sd[ns++]=4357; sd[ns++]=1073741821u; 
    if(d->kind>=6) for(int j=0;j<3;j++) for(uint32_t w=0;w<2;w++){ uint32_t x=0u-w, inv=69069u; for(int k=0;k<5;k++) inv*=2-69069u*inv; for(int k=0;k<51+j;k++) x=(x-1)*inv; sd[ns++]=x; }   /* word j of the scrambled state is 0 or all ones */

    int step= (d->kind==1||d->kind==4||d->kind>=10)&&!X ? (d->kind==4?2:3) : 1;
    for(int k=0;k<ns;k+=step) if(vp_begin("%s/seed%u",d->name,sd[k])){ g=gsl_rng_alloc(dh_rng_types[id]); static const int P[]={0,0x5a,0xff,0x11}; for(int p=0;p<((d->kind==1||d->kind==4)&&!X?1:4)&&!vp_failed();p++){ char w[40]; snprintf(w,sizeof w,"pattern %02x",P[p]); run(g,d,sd[k],d->kind==1&&k%9?42000:NPOS[gi],P[p],w); } if(d->kind==1||d->kind==4) if(!vp_failed()) run(g,d,sd[k],2000,0x5a,"pattern 5a"); gsl_rng_free(g); }
    /* every seed below a bound (and the same above 2^31), the first draws */
    for(int c=0;c<16;c++){ int n=SMALL[gi]*(SMALL[gi]>30000?8:4)*(T?16:1)/16; if(n&&vp_begin("%s/small%d",d->name,c)){ g=gsl_rng_alloc(dh_rng_types[id]); for(int i=0;i<n&&!vp_failed();i++){ run(g,d,c*n+i,SHORT[gi],0x80,"small"); if(i%4==0&&!vp_failed()) run(g,d,0x80000000u+c*n+i,SHORT[gi],0,"large"); } gsl_rng_free(g); } }
    /* far into the stream */
    for(int q=0;q<(T?24:6);q++) if(vp_begin("%s/far%d",d->name,q)){ g=gsl_rng_alloc(dh_rng_types[id]); run(g,d,q*1000003u+17,NDEEP[gi]*(T?16:4),0x40,"far"); gsl_rng_free(g); }
    /* reseeding after every number of draws up to a bound leaves nothing behind */
    if(vp_begin("%s/reseed",d->name)){ g=gsl_rng_alloc(dh_rng_types[id]); int lim= d->kind==4?6:d->kind==1?20:d->kind>=10?110:200; for(int n=0;n<lim&&!vp_failed();n++){ gsl_rng_set(g,n+99); for(int i=0;i<n;i++) gsl_rng_get(g); run(g,d,n*7+1,d->kind==4?60:SHORT[gi],0x22,"after reseeding"); } gsl_rng_free(g); }
  }
  if(vp_begin("sample")) vp_sample("AES_OFB: key bytes 112+i+(seed>>(5i mod 26)), zero block, output feedback; every draw compared with an independent AES-128 derived from GF(2^8) arithmetic");
  return vp_done();
}
