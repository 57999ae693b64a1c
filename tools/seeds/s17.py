ID="c23-neighbour-window"; PROPERTY="C23"
NEEDS="a point set in which the closest pair is separated by more than 64 other points in the order of the first coordinate (for example many points on a vertical line)"
BREAKS="the two-dimensional minimum-distance test looks only at the next 64 points in the sorted order, so a closer pair farther apart in the list is missed"
EDITS=[("libdieharder/diehard_2dsphere.c","   for(j=i+1;j<test[0]->tsamples;j++){\n     if(points[j].c[0]","   for(j=i+1;j<test[0]->tsamples && j<=i+64;j++){\n     if(points[j].c[0]")]
FILES={"demo.c":r'''
#include <dieharder/libdieharder.h>
static unsigned long k; static void s_(void*v,unsigned long x){ k=0; } static unsigned long g_(void*v){ unsigned long i=k++; if(i%2==0) return 2000000000u+i/2; i/=2; return i==199?1000000000u+1u*50000000/100:1000000000u+(i*7919%199)*10000000u; } static double d_(void*v){ return g_(v)/4294967296.0; }
static const gsl_rng_type ty={"demo",4294967295u,0,8,s_,g_,d_};
int main(void){ dieharder_test_types(); rng=gsl_rng_alloc(&ty); gsl_rng_set(rng,1); rmax_bits=32; int T=0; for(int i=0;i<MAXTESTS;i++) if(dh_test_types[i]&&!strcmp(dh_test_types[i]->sname,"diehard_2dsphere")) T=i;
 Test **t=create_test(dh_test_types[T],200,1); gsl_rng_set(rng,1); dh_test_types[T]->test(t,0); double x[200][2],m=1e9; gsl_rng_set(rng,1); for(int i=0;i<200;i++) for(int j=0;j<2;j++) x[i][j]=10000*gsl_rng_uniform_pos(rng); for(int i=0;i<200;i++) for(int j=0;j<i;j++){ double d=hypot(x[i][0]-x[j][0],x[i][1]-x[j][1]); if(d<m) m=d; }
 double e=1-exp(-m*m/0.995); return fabs(e-t[0]->pvalues[0])>1e-6; }
'''}
DEMO='cc_demo demo.c; "$T/demo"'
