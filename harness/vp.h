/* Common scaffolding for the C harnesses: case selection, protocol output, progress. */
#ifndef VP_H
#define VP_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#ifdef __cplusplus
extern "C" {
#endif
extern int vp_thorough;
extern long vp_maxfails;
void vp_init(int argc, char **argv);
int vp_begin(const char *fmt, ...) __attribute__((format(printf,1,2))); /* 1 = run this case */
void vp_fail(const char *fmt, ...) __attribute__((format(printf,1,2))); /* fails the current case */
int vp_failed(void);           /* has the current case failed already */
void vp_stat(const char *k, long n);
void vp_max(const char *k, long n);
void vp_outcome(const char *fmt, ...) __attribute__((format(printf,1,2)));
void vp_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
const char *vp_arg(const char *name, const char *dflt);
int vp_done(void);
extern long *vp_shared;
int vp_fork(void (*fn)(void *), void *arg, int timeout, char *so, int nso, char *se, int nse);
#ifdef __cplusplus
}
#endif
#endif
