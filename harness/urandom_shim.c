/* LD_PRELOAD: /dev/urandom is taken from the file named by VP_URANDOM (or cannot be opened when that is empty). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <stdarg.h>
static const char *sub(const char *p){ const char *e=getenv("VP_URANDOM"); return e && !strcmp(p,"/dev/urandom") ? (*e?e:"/nonexistent/urandom") : p; }
FILE *fopen(const char *p,const char *m){ static FILE *(*f)(const char *,const char *); if(!f) f=dlsym(RTLD_NEXT,"fopen"); return f(sub(p),m); }
FILE *fopen64(const char *p,const char *m){ static FILE *(*f)(const char *,const char *); if(!f) f=dlsym(RTLD_NEXT,"fopen64"); return f(sub(p),m); }
int open(const char *p,int fl,...){ static int (*f)(const char *,int,int); if(!f) f=dlsym(RTLD_NEXT,"open"); va_list a; va_start(a,fl); int m=va_arg(a,int); va_end(a); return f(sub(p),fl,m); }
int open64(const char *p,int fl,...){ static int (*f)(const char *,int,int); if(!f) f=dlsym(RTLD_NEXT,"open64"); va_list a; va_start(a,fl); int m=va_arg(a,int); va_end(a); return f(sub(p),fl,m); }
