/* Capture of everything the front end prints to stdout, in memory. */
#ifndef CAP_H
#define CAP_H
#include <stdio.h>
static char *cap_buf; static size_t cap_len; static FILE *cap_f;
static void cap_start(void){ cap_f=open_memstream(&cap_buf,&cap_len); stdout=cap_f; }
static char *cap_take(void){ fflush(cap_f); cap_buf[cap_len]=0; static char *o; static size_t on; if(on<cap_len+1){ on=2*cap_len+1000; o=realloc(o,on); } memcpy(o,cap_buf,cap_len+1); fseeko(cap_f,0,SEEK_SET); fflush(cap_f); cap_buf[0]=0; return o; }
/* split a line on sep, strip blanks of each field; returns number of fields */
static int cap_split(char *l,char sep,char f[][160],int max){ int n=0; char *p=l; for(;;){ char *e=strchr(p,sep); int len=e?(int)(e-p):(int)strlen(p); while(len&&(*p==' '||*p=='\t')){p++;len--;} while(len&&(p[len-1]==' '||p[len-1]=='\t')) len--; if(len>159) len=159; if(n<max){ memcpy(f[n],p,len); f[n][len]=0; n++; } if(!e) break; p=e+1; } return n; }
#endif
