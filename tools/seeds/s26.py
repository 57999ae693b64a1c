ID="c11-fast-k1"; PROPERTY="C11"
NEEDS="the exact method (-k 1) asked for, with more than 4999 samples"
BREAKS="the exact Kolmogorov-Smirnov method is replaced by the asymptotic one for large samples even when the exact one was chosen"
EDITS=[("libdieharder/kstest.c"," if(ks_test == 0 && count > KCOUNTMAX){\n   csqrt = sqrt(count);\n   x = (csqrt + 0.12 + 0.11/csqrt)*dmax;\n   p = q_ks(x);\n   if(verbose == D_KSTEST || verbose == D_ALL){\n     printf(\"# kstest: returning p = %f\\n\",p);"," if(ks_test <= 1 && count > KCOUNTMAX){\n   csqrt = sqrt(count);\n   x = (csqrt + 0.12 + 0.11/csqrt)*dmax;\n   p = q_ks(x);\n   if(verbose == D_KSTEST || verbose == D_ALL){\n     printf(\"# kstest: returning p = %f\\n\",p);")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
int main(void){ static double a[6000],b[6000]; for(int i=0;i<6000;i++) a[i]=b[i]=pow((i+0.5)/6000,1.012); ks_test=1; double p=kstest(a,6000); ks_test=2; double q=kstest(b,6000); printf("%.9g %.9g\n",p,q); return !(fabs(p-q)<1e-5); }
'''}
DEMO='cc_demo demo.c; "$T/demo"'
