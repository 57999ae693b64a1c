From 54e6c3f59daa1d37d18c1a160902ee4ba3910900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:46 +0000
Subject: [PATCH 01/51] fix: get_uint_rand() kept the previous word when a
 generator word was used up exactly

When the last generator word filled the returned 32-bit word exactly, bits_rand[1]
was not cleared and the next word was accumulated on top of the old one, so
generators with fewer than 32 bits delivered sums of words instead of their bits.
---
 libdieharder/bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index fa7c4d3..bad8dca 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -995,6 +995,7 @@ unsigned int get_uint_rand(gsl_rng *gsl_rng)
   * need to start over on the next one.
   */
  if(bleft == rmax_bits){
+   bits_rand[1] = 0;
    bleft = bu;
  } else {
    bits_rand[1] = b_window(bits_rand[0],bu-rmax_bits,bu-bleft-1,bu-rmax_bits+bleft);
-- 
2.43.0


From 89a97956fe645c5c07131dd329dd6cf3bf1f72a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:46 +0000
Subject: [PATCH 02/51] fix: get_ntuple_cyclic() aborted on windows whose last
 piece spans two output words

Rule 2c computed a negative offset (bs - be) for windows longer than 32 bits that
start at a lower bit position than they end, and b_window() then ended the program.
---
 libdieharder/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index bad8dca..ac2cb9c 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -821,7 +821,7 @@ void get_ntuple_cyclic(unsigned int *input,unsigned int ilen,
     * partial line.
     * Rule 2c
     */
-   if(bleft == br2 && br2 < bu) {
+   if(bleft == br2 && br2 < bu && bs >= be) {
      MYDEBUG(D_BITS) {
        printf("Rule 2c: From input[%d] to output[%d] = ",i,j);
      }
-- 
2.43.0


From bfb7ff30358376f4fbddc67da06693f39815fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:45 +0000
Subject: [PATCH 03/51] fix: get_bit() masked the wrong bits when optimised

(int)pow(2,31) overflows int; the compiler folds it to 0x7fffffff, so get_bit()
tested all lower bits instead of the one asked for.
---
 libdieharder/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index ac2cb9c..5a91fef 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -291,7 +291,7 @@ int get_bit(unsigned int *rand_uint, unsigned int n)
   * the first significant/valid bit in the unsigned int.
   */
  offset = (8*sizeof(unsigned int) - rmax_bits) + n%rmax_bits;
- mask = (int)pow(2,8*sizeof(unsigned int) - 1);
+ mask = 1u << (8*sizeof(unsigned int) - 1);
  mask = mask>>offset;
  if(mask & rand_uint[index]){
    return(1);
-- 
2.43.0


From d217c38962be6d2488eaf5940977ace378be3054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:45 +0000
Subject: [PATCH 04/51] fix: raw file input took the length of the first file
 for every later one

file_input_raw_set() looked at the file's length only on the first call in
the process (a static flag), so a second generator, or a second file, was
read with a length of zero (never rewound, ending in 'This cannot happen') or
with the length of another file. Take the length whenever the file is opened.
---
 libdieharder/rng_file_input_raw.c | 53 +++++++++++++++----------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/libdieharder/rng_file_input_raw.c b/libdieharder/rng_file_input_raw.c
index 2e0e87d..44d50da 100644
--- a/libdieharder/rng_file_input_raw.c
+++ b/libdieharder/rng_file_input_raw.c
@@ -111,15 +111,7 @@ static void file_input_raw_set (void *vstate, unsigned long int s)
    fprintf(stdout,"# file_input_raw(): state->fp = %p, seed = %lu\n",(void*) state->fp,s);
  }
 
- /*
-  * Get and set the file length, check to make sure the file exists,
-  * whatever...
-  */
  if(first){
-   if(verbose){
-     fprintf(stdout,"# file_input_raw(): entering file_input_raw_set 1st call.\n");
-   }
-
    /*
     * This clears an obscure bug in FreeBSD reported by Lucius Windschuh,
     * lwindschuh@googlemail.com, I think.  Otherwise it should be
@@ -127,6 +119,32 @@ static void file_input_raw_set (void *vstate, unsigned long int s)
     * correctly opens later.
     */
    state->fp = NULL;
+   first = 0;
+ }
+
+ /*
+  * We use the "seed" to determine whether or not to reopen or
+  * rewind.  A seed s == 0 for an open file means rewind; a seed
+  * of anything else forces a close (resetting rewind_cnt) followed
+  * by a reopen.
+  */
+ if(state->fp && s ) {
+   if(verbose == D_FILE_INPUT || verbose == D_ALL){
+     fprintf(stdout,"# file_input(): Closing/reopening/resetting %s\n",filename);
+   }
+   fclose(state->fp);
+   state->fp = NULL;
+ }
+
+ /*
+  * Get and set the file length, check to make sure the file exists,
+  * whatever...  This has to be done whenever a file is (re)opened, as the
+  * length belongs to this file and this rng.
+  */
+ if(state->fp == NULL){
+   if(verbose){
+     fprintf(stdout,"# file_input_raw(): entering file_input_raw_set 1st call.\n");
+   }
 
    if(stat(filename, &sbuf)){
      if(errno == EBADF){
@@ -162,25 +180,6 @@ static void file_input_raw_set (void *vstate, unsigned long int s)
        */
      state->flen = 0;
    }
-
-   /*
-    * This segment is executed only one time when the file is FIRST opened.
-    */
-   first = 0;
- }
-
- /*
-  * We use the "seed" to determine whether or not to reopen or
-  * rewind.  A seed s == 0 for an open file means rewind; a seed
-  * of anything else forces a close (resetting rewind_cnt) followed
-  * by a reopen.
-  */
- if(state->fp && s ) {
-   if(verbose == D_FILE_INPUT || verbose == D_ALL){
-     fprintf(stdout,"# file_input(): Closing/reopening/resetting %s\n",filename);
-   }
-   fclose(state->fp);
-   state->fp = NULL;
  }
 
  if (state->fp == NULL){
-- 
2.43.0


From 08102222ccc4b536bc94f7bb2fc51237dd412b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:15 +0000
Subject: [PATCH 05/51] fix: real numbers read from a formatted file all became
 zero

The cast bound tighter than the product, so (uint) f was 0 for every f in
[0,1). Scale first, then convert.
---
 libdieharder/rng_file_input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index e70632a..32f973e 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -123,7 +123,7 @@ static unsigned long int file_input_get (void *vstate)
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
-       iret = (uint) f*UINT_MAX;
+       iret = (uint) (f*UINT_MAX);
        break;
      /*
       * OK, so octal is really pretty silly, but we got it.  Still uint.
-- 
2.43.0


From d0839966d766f2e4e1737a787c1c82f901e41de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:15 +0000
Subject: [PATCH 06/51] fix: a blank line in a formatted file delivered a stale
 number

sscanf() returns EOF, not 0, when the line holds no input at all, so the
conversion error was missed and the previous (or an uninitialised) value was
returned as if it had been read.
---
 libdieharder/rng_file_input.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index 32f973e..39467fd 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -106,7 +106,7 @@ static unsigned long int file_input_get (void *vstate)
      case 'd':
      case 'i':
      case 'u':
-       if(0 == sscanf(inbuf,"%u",&iret)){
+       if(1 != sscanf(inbuf,"%u",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -119,7 +119,7 @@ static unsigned long int file_input_get (void *vstate)
      case 'f':
      case 'F':
      case 'g':
-       if(0 == sscanf(inbuf,"%lg",&f)){
+       if(1 != sscanf(inbuf,"%lg",&f)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -129,7 +129,7 @@ static unsigned long int file_input_get (void *vstate)
       * OK, so octal is really pretty silly, but we got it.  Still uint.
       */
      case 'o':
-       if(0 == sscanf(inbuf,"%o",&iret)){
+       if(1 != sscanf(inbuf,"%o",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -138,13 +138,13 @@ static unsigned long int file_input_get (void *vstate)
       * hexadecimal is silly too, but we got it.  uint, of course.
       */
      case 'x':
-       if(0 == sscanf(inbuf,"%x",&iret)){
+       if(1 != sscanf(inbuf,"%x",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
        break;
      case 'X':
-       if(0 == sscanf(inbuf,"%X",&iret)){
+       if(1 != sscanf(inbuf,"%X",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
-- 
2.43.0


From 9675d2f6c6c4068a6844c06e5e01cff2435764bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:19 +0000
Subject: [PATCH 07/51] fix: every reseed of formatted file input leaked an
 open file

The fclose() before reopening was commented out; after enough reseeds the
process ran out of descriptors and stopped with 'Cannot open'.
---
 libdieharder/rng_file_input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index 39467fd..bc31b00 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -227,7 +227,7 @@ static void file_input_set (void *vstate, unsigned long int s)
    if(verbose == D_FILE_INPUT || verbose == D_ALL){
      fprintf(stdout,"# file_input(): Closing/reopening/resetting %s\n",filename);
    }
-   /* fclose(state->fp); */
+   fclose(state->fp);
    state->fp = NULL;
  }
 
-- 
2.43.0


From 017500b6fd8d7dcab1e25cac3719759da5644565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:15 +0000
Subject: [PATCH 08/51] fix: XOR generator drew its first component twice per
 word

The loop that folds in the other components started at the first one again,
so that component contributed the XOR of two successive outputs.
---
 libdieharder/rng_XOR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_XOR.c b/libdieharder/rng_XOR.c
index 27948d3..a44b4b4 100644
--- a/libdieharder/rng_XOR.c
+++ b/libdieharder/rng_XOR.c
@@ -40,7 +40,7 @@ XOR_get (void *vstate)
   * to have to decorate this code with error checks...
   */
  state->XOR_rnd = gsl_rng_get(state->grngs[1]);
- for(i=1;i<gvcount;i++){
+ for(i=2;i<gvcount;i++){
    state->XOR_rnd ^= gsl_rng_get(state->grngs[i]);
  }
  return state->XOR_rnd;
-- 
2.43.0


From afafab3237cc7a8ff1c01fa6e67e6f3fc26a9ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:15 +0000
Subject: [PATCH 09/51] fix: components of the XOR generator were neither
 resolved nor checked

Only the first -g was looked up. A component given by name silently became
generator 0, and a missing, unknown or recursive component crashed. Resolve
and check all of them, and refuse the selection as for any other generator.
---
 dieharder/choose_rng.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/dieharder/choose_rng.c b/dieharder/choose_rng.c
index f5d4e49..0f8aa62 100644
--- a/dieharder/choose_rng.c
+++ b/dieharder/choose_rng.c
@@ -100,6 +100,7 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
 {
 
  int i;
+ unsigned int j;
 
  /*
   * REALLY out of bounds we can just test for and return an error.
@@ -149,6 +150,25 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
    return(-1);
  }
 
+ /*
+  * The XOR supergenerator needs at least one component, and every
+  * component has to be a real generator.  Components entered by name are
+  * converted to numbers here, since that is what XOR_set() uses.
+  */
+ if(dh_rng_types[gennum] == gsl_rng_XOR){
+   if(gvcount < 2) return(-1);
+   for(j=1;j<gvcount;j++){
+     if(gnames[j][0] != 0){
+       for(i=0;i<MAXRNGS;i++){
+         if(dh_rng_types[i] && strncmp(dh_rng_types[i]->name,gnames[j],20) == 0) break;
+       }
+       gnumbs[j] = i;
+     }
+     if((int) gnumbs[j] < 0 || gnumbs[j] >= MAXRNGS || dh_rng_types[gnumbs[j]] == 0
+        || dh_rng_types[gnumbs[j]] == gsl_rng_XOR) return(-1);
+   }
+ }
+
  /*
   * We need a sanity check for file input.  File input is permitted
   * iff we have a file name, if the output flag is not set, AND if
-- 
2.43.0


From b853e30933da686620d97359e3a79b4a687605bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:15 +0000
Subject: [PATCH 10/51] fix: the ca generator ignored the seed it was given

ca_set() used, and incremented, the global variable seed instead of its
argument: gsl_rng_set(rng,s) gave a stream that did not depend on s, and the
seed reported to the user was off by one.
---
 libdieharder/rng_ca.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libdieharder/rng_ca.c b/libdieharder/rng_ca.c
index 1c8da8f..f0c3791 100644
--- a/libdieharder/rng_ca.c
+++ b/libdieharder/rng_ca.c
@@ -133,14 +133,14 @@ ca_set (void *vstate, unsigned long int s) {
     init_config[i] = 0;
 
   /* set initial cell states using seed */
-  init_config[CA_WIDTH - 1] = (unsigned char)(seed);
-  init_config[CA_WIDTH - 2] = (unsigned char)(seed << 8);
-  init_config[CA_WIDTH - 3] = (unsigned char)(seed << 16);
-  init_config[CA_WIDTH - 4] = (unsigned char)(seed << 24);
-  if (seed != 0xFFFFFFFF)
-     seed++;
+  init_config[CA_WIDTH - 1] = (unsigned char)(s);
+  init_config[CA_WIDTH - 2] = (unsigned char)(s << 8);
+  init_config[CA_WIDTH - 3] = (unsigned char)(s << 16);
+  init_config[CA_WIDTH - 4] = (unsigned char)(s << 24);
+  if (s != 0xFFFFFFFF)
+     s++;
   for (i = 0; i < CA_WIDTH - 4; i++)
-    init_config[i] = (unsigned char) ( seed >> (i % 32) );
+    init_config[i] = (unsigned char) ( s >> (i % 32) );
 
   /* define addresses of first_cell and last_cell */
   first_cell = init_config;
-- 
2.43.0


From 5edf97b5f0c443579e800ddd67135b38a89752c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:15 +0000
Subject: [PATCH 11/51] fix: uvag seeding depended on bits left over from
 earlier use

uvag_set() takes its key through get_rand_bits(), whose buffers are shared:
the key started with whatever bits the previous user left there, so the same
seed gave different streams, and bits of the seeding generator were left to be
delivered to the next test.
---
 libdieharder/rng_uvag.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdieharder/rng_uvag.c b/libdieharder/rng_uvag.c
index 7f77436..26d02aa 100644
--- a/libdieharder/rng_uvag.c
+++ b/libdieharder/rng_uvag.c
@@ -156,6 +156,11 @@ static void uvag_set (void *vstate, unsigned long int s) {
    rmax_mask++;
    rmax_bits++;
  }
+ /*
+  * get_rand_bits() keeps leftover bits in buffers shared by all generators:
+  * start from empty ones, and leave none of the seed rng's bits behind.
+  */
+ reset_bit_buffers();
  for(i=0;i<256;i++){
    /* if(i%32 == 0) printf("\n"); */
    get_rand_bits(&tmp8,sizeof(uint),8,seed_rng);
@@ -167,6 +172,7 @@ static void uvag_set (void *vstate, unsigned long int s) {
    /* printf("%02x",key[i]); */
  }
  /* printf("\n"); */
+ reset_bit_buffers();
 
  kp = key;
  tot = 0;
-- 
2.43.0


From 89e71248b6bd6f4f4c9c34f7999b5cf76ca24c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:15 +0000
Subject: [PATCH 12/51] fix: superkiss returned values above its maximum

The sum of three 32 bit numbers was taken in unsigned long and returned
unreduced.
---
 libdieharder/rng_superkiss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_superkiss.c b/libdieharder/rng_superkiss.c
index 92159ed..2282779 100644
--- a/libdieharder/rng_superkiss.c
+++ b/libdieharder/rng_superkiss.c
@@ -75,7 +75,7 @@ superkiss_get (void *vstate)
  state->xs ^= state->xs>>17;
  state->xs ^= state->xs>>5;
 
- return ( state->indx < SUPERKISS_QMAX ? state->Q[state->indx++] : superkiss_refill(vstate)) + state->xcng + state->xs;
+ return (unsigned int) (( state->indx < SUPERKISS_QMAX ? state->Q[state->indx++] : superkiss_refill(vstate)) + state->xcng + state->xs);
 
 }
 
-- 
2.43.0


From 409ce18412fc92e8ed47bd74559ba1362150f377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:15 +0000
Subject: [PATCH 13/51] fix: the /dev generators returned 64 bit values

They declare a maximum of UINT_MAX but read an unsigned long, so that integers
exceeded the maximum and uniform deviates were of the order of 2^32.
---
 libdieharder/rng_dev_arandom.c | 2 +-
 libdieharder/rng_dev_random.c  | 2 +-
 libdieharder/rng_dev_urandom.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdieharder/rng_dev_arandom.c b/libdieharder/rng_dev_arandom.c
index 226e362..a620f6a 100644
--- a/libdieharder/rng_dev_arandom.c
+++ b/libdieharder/rng_dev_arandom.c
@@ -21,7 +21,7 @@ static unsigned long int
 dev_arandom_get (void *vstate)
 {
   dev_arandom_state_t *state = (dev_arandom_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
     fread(&j,sizeof(j),1,state->fp);
diff --git a/libdieharder/rng_dev_random.c b/libdieharder/rng_dev_random.c
index ed4335c..14b0456 100644
--- a/libdieharder/rng_dev_random.c
+++ b/libdieharder/rng_dev_random.c
@@ -21,7 +21,7 @@ static unsigned long int
 dev_random_get (void *vstate)
 {
   dev_random_state_t *state = (dev_random_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
     fread(&j,sizeof(j),1,state->fp);
diff --git a/libdieharder/rng_dev_urandom.c b/libdieharder/rng_dev_urandom.c
index e4933c5..dbf2f02 100644
--- a/libdieharder/rng_dev_urandom.c
+++ b/libdieharder/rng_dev_urandom.c
@@ -21,7 +21,7 @@ static unsigned long int
 dev_urandom_get (void *vstate)
 {
   dev_urandom_state_t *state = (dev_urandom_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
     fread(&j,sizeof(j),1,state->fp);
-- 
2.43.0


From 7337b12ff0439e4232f7e8fd903f1890ce5bd137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:03 +0000
Subject: [PATCH 14/51] fix: the report showed number 0 for every generator

The show_num field of the generator line prints the global 'generator',
which nothing has set since generators are kept in the gnumbs vector.
---
 dieharder/choose_rng.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dieharder/choose_rng.c b/dieharder/choose_rng.c
index 0f8aa62..8301e02 100644
--- a/dieharder/choose_rng.c
+++ b/dieharder/choose_rng.c
@@ -186,6 +186,11 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
    }
  }
 
+ /*
+  * This is the generator number shown in the report.
+  */
+ generator = gennum;
+
  /*
   * If we get here, in principle the gennum is valid and the right
   * inputs are defined to run it (in the case of file_input). We therefore
-- 
2.43.0


From 7f277832be8da3ef1de466a10f3a8667f45d7eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:47 +0000
Subject: [PATCH 15/51] fix: -D file_rng_stat was refused

TCNT was one less than the number of names in table_fields, so the last
flag, listed by -F, could not be selected by name.
---
 dieharder/output.h  | 2 +-
 dieharder/parsecl.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dieharder/output.h b/dieharder/output.h
index 92c815f..d7c2f09 100644
--- a/dieharder/output.h
+++ b/dieharder/output.h
@@ -26,7 +26,7 @@
    TFILE_RNG_STAT = 131072
  } Table;
 
-#define TCNT 18
+#define TCNT 19
 
  /*
   * These should have a maximum length one can use in strncmp().
diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index f93b946..164dffc 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -309,7 +309,7 @@ void parsecl(int argc, char **argv)
      fprintf(stdout," Flag\t    Flag Name\n");
      fprintf(stdout,"=======================\n");
      fprintf(stdout,"%5d\t%15s\n",0,table_fields[0]);
-     for(i=0;i<TCNT;i++){
+     for(i=0;i<TCNT-1;i++){
        fprintf(stdout,"%5d\t%15s\n",(int)pow(2,i),table_fields[i+1]);
      }
      Exit(0);
-- 
2.43.0


From 41c809e39a1caa8f9eefb17a25b216c0be165625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:47 +0000
Subject: [PATCH 16/51] fix: an unknown test or generator name starting with
 digits selected another one

-d 100foo ran test 100 and -g 13abc used generator 13: only the first
character was compared to decide whether the argument is a number.
---
 dieharder/parsecl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 164dffc..7d79484 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -126,7 +126,7 @@ void parsecl(int argc, char **argv)
         */
        dtest_tmp =  strtol(optarg,&endptr,10);
        /* printf("optarg = %s, dtest_tmp = %d endptr = %s\n",optarg,dtest_tmp,endptr); */
-       if(strncmp(optarg,endptr,1) == 0){
+       if(endptr == optarg || *endptr != 0){
          strncpy(dtest_name,optarg,128);
          dtest_name[127] = '\0';
        } else {
@@ -153,7 +153,7 @@ void parsecl(int argc, char **argv)
      case 'g':
        gen_tmp =  strtol(optarg,&endptr,10);
        /* printf("optarg = %s, dtest_tmp = %d endptr = %s\n",optarg,dtest_tmp,endptr); */
-       if(strncmp(optarg,endptr,1) == 0){
+       if(endptr == optarg || *endptr != 0){
          strncpy(gnames[gvcount],optarg,128);
        } else {
          gnumbs[gvcount] = gen_tmp;
-- 
2.43.0


From 6da22bce5c88f112e061bd21784f8da316b857b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:47 +0000
Subject: [PATCH 17/51] fix: leftover command line arguments were reported but
 did not stop the run

The run went on with the output fields unset, as the comment says it
should print the usage message and exit.
---
 dieharder/parsecl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 7d79484..99005b7 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -348,7 +348,7 @@ void parsecl(int argc, char **argv)
   */
 
  Usage();
- 
+ exit(1);
 
 }
 
-- 
2.43.0


From d007c11c4b3043c1622f9be08c159cfa5e647d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:21 +0000
Subject: [PATCH 18/51] fix: the gcd test kept the table size of its first call
 for every later one

---
 libdieharder/marsaglia_tsang_gcd.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/libdieharder/marsaglia_tsang_gcd.c b/libdieharder/marsaglia_tsang_gcd.c
index c59f001..7d0dc0f 100644
--- a/libdieharder/marsaglia_tsang_gcd.c
+++ b/libdieharder/marsaglia_tsang_gcd.c
@@ -150,9 +150,9 @@ int marsaglia_tsang_gcd(Test **test, int irun)
 
  unsigned long long int t,ktbl[KTBLSIZE];
  uint i,j,k,u,v,w;
- static uint *gcd = 0;
+ uint *gcd;
  static double gnorm = 6.0/(PI*PI);
- static uint gtblsize = 0;
+ uint gtblsize;
  Vtest vtest_k,vtest_u;
 
  /*
@@ -180,14 +180,12 @@ int marsaglia_tsang_gcd(Test **test, int irun)
 
  /*
   * Zero both tables, set gtblsize so that the expectation of gcd[] > 10
-  * (arbitrary cutoff).  We don't free this on exit, but then, we only
-  * allocate it once so it should be OK.
+  * (arbitrary cutoff).  It depends on tsamples, which can be different
+  * the next time the test is called, so we size and allocate it per call.
   */
- if(gtblsize == 0) {
-   gtblsize = sqrt((double)test[0]->tsamples*gnorm/100.0);
-   /* printf("gtblsize = %u\n",gtblsize); */
- }
- if(gcd == 0) gcd = (uint *)malloc(gtblsize*sizeof(uint));
+ gtblsize = sqrt((double)test[0]->tsamples*gnorm/100.0);
+ /* printf("gtblsize = %u\n",gtblsize); */
+ gcd = (uint *)malloc(gtblsize*sizeof(uint));
  memset(gcd,0,gtblsize*sizeof(uint));
  memset(ktbl,0,KTBLSIZE*sizeof(unsigned long long int));
 
@@ -323,6 +321,7 @@ int marsaglia_tsang_gcd(Test **test, int irun)
 
  Vtest_destroy(&vtest_k);
  Vtest_destroy(&vtest_u);
+ nullfree(gcd);
 
  MYDEBUG(D_MARSAGLIA_TSANG_GCD){
    printf("# marsaglia_tsang_gcd(): ks_pvalue_k[%u] = %10.5f  ks_pvalue_w[%u] = %10.5f\n",kspi,ks_pvalue[kspi],kspi,ks_pvalue2[kspi]);
-- 
2.43.0


From e972ef3ab15dfc219e2d68d63d05cbe552cd40e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:51 +0000
Subject: [PATCH 19/51] fix: reset_bit_buffers() did not empty the buffers of
 get_rand_bits_uint()

---
 include/dieharder/libdieharder.h | 1 +
 libdieharder/bits.c              | 3 +++
 libdieharder/static_get_bits.c   | 9 +++++++++
 3 files changed, 13 insertions(+)

diff --git a/include/dieharder/libdieharder.h b/include/dieharder/libdieharder.h
index 3227c23..696ff8f 100644
--- a/include/dieharder/libdieharder.h
+++ b/include/dieharder/libdieharder.h
@@ -142,6 +142,7 @@
  void get_ntuple_cyclic(unsigned int *input,unsigned int ilen,
     unsigned int *output,unsigned int jlen,unsigned int ntuple,unsigned int offset);
  unsigned int get_uint_rand(gsl_rng *gsl_rng);
+ extern unsigned int bit_buffer_epoch; /* counts calls of reset_bit_buffers() */
  void get_rand_bits(void *result,unsigned int rsize,unsigned int nbits,gsl_rng *gsl_rng);
  void mybitadd(char *dst, int doffset, char *src, int soffset, int slen);
  void get_rand_pattern(void *result,unsigned int rsize,int *pattern,gsl_rng *gsl_rng);
diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index 5a91fef..3af1c20 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -899,6 +899,7 @@ void get_ntuple_cyclic(unsigned int *input,unsigned int ilen,
 
 static unsigned int bits_rand[2];   /* A buffer that can handle partial returns */
 static int bleft = -1; /* Number of bits we still need in rand[1] */
+unsigned int bit_buffer_epoch = 0; /* counts calls of reset_bit_buffers() */
 
 unsigned int get_uint_rand(gsl_rng *gsl_rng)
 {
@@ -1437,5 +1438,7 @@ void reset_bit_buffers()
   brindex = -1;
   iclear = -1;
   bitindex = -1;
+  /* every static_get_bits.c user has a buffer of its own, see there */
+  bit_buffer_epoch++;
 
 }
diff --git a/libdieharder/static_get_bits.c b/libdieharder/static_get_bits.c
index 6771935..df00d2b 100644
--- a/libdieharder/static_get_bits.c
+++ b/libdieharder/static_get_bits.c
@@ -27,8 +27,17 @@ inline static uint get_rand_bits_uint (uint nbits, uint mask, gsl_rng *rng)
 
  static uint bit_buffer;
  static uint bits_left_in_bit_buffer = 0;
+ static uint buffer_epoch = 0;
  uint bits,breturn;
 
+ /*
+  * Forget bits left over from before the last reset_bit_buffers().
+  */
+ if(buffer_epoch != bit_buffer_epoch){
+   bits_left_in_bit_buffer = 0;
+   buffer_epoch = bit_buffer_epoch;
+ }
+
  /*
   * If there are enough bits left in the bit buffer, shift them out into
   * bits and return.  I like to watch this happen, so I'm instrumenting
-- 
2.43.0


From 66e94a98e748ded7ada65e800cba791f2ca7fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:09 +0000
Subject: [PATCH 20/51] fix: the fill tree tests overran their tables for other
 n-tuples and left results unset

---
 libdieharder/dab_filltree.c  | 11 +++++++++--
 libdieharder/dab_filltree2.c |  7 ++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index a377c3d..00cae67 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -37,7 +37,7 @@ static double targetData[] = {
 static inline int insert(double x, double *array, unsigned int startVal);
 
 int dab_filltree(Test **test,int irun) {
- int size = (ntuple == 0) ? 32 : ntuple;
+ int size = 32;  /* the only size there is target data for, see above */
  unsigned int target = sizeof(targetData)/sizeof(double);
  int startVal = (size / 2) - 1;
  double *array = (double *) malloc(sizeof(double) * size);
@@ -48,7 +48,9 @@ int dab_filltree(Test **test,int irun) {
  unsigned int end = 0;
  unsigned int rotAmount = 0;
  double *positionCounts;
+ unsigned int cycle = test[0]->tsamples/CYCLES;
 
+ if (cycle == 0) cycle = 1;
  counts = (double *) malloc(sizeof(double) * target);
  expected = (double *) malloc(sizeof(double) * target);
  memset(counts, 0, sizeof(double) * target);
@@ -80,6 +82,11 @@ int dab_filltree(Test **test,int irun) {
      i++;
      if (i > size * 2) {
        test[0]->pvalues[irun] = 0;
+       test[1]->pvalues[irun] = 0;
+       nullfree(positionCounts);
+       nullfree(expected);
+       nullfree(counts);
+       nullfree(array);
        return(0);
      }
      ret = insert(x, array, startVal);
@@ -87,7 +94,7 @@ int dab_filltree(Test **test,int irun) {
    positionCounts[ret/2]++;
 
    counts[i-1]++;
-   if (j % (test[0]->tsamples/CYCLES) == 0) rotAmount++;
+   if (j % cycle == 0) rotAmount++;
  }
 
  test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
diff --git a/libdieharder/dab_filltree2.c b/libdieharder/dab_filltree2.c
index bcf1df0..264bfdd 100644
--- a/libdieharder/dab_filltree2.c
+++ b/libdieharder/dab_filltree2.c
@@ -95,7 +95,7 @@ static double targetData[128] = {  // size=128, exact
 static inline int insertBit(uint x, uchar *array, uint *i, uint *d);
 
 int dab_filltree2(Test **test, int irun) {
- int size = (ntuple == 0) ? 128 : ntuple;
+ int size = 128;  /* the only size there is target data for, see above */
  uint target = sizeof(targetData)/sizeof(double);
  int startVal = (size / 2) - 1;
  uchar *array = (uchar *) malloc(sizeof(*array) * size);
@@ -139,6 +139,11 @@ int dab_filltree2(Test **test, int irun) {
      uint d = (startVal + 1) / 2;
      if (i > size * 2) {
        test[0]->pvalues[irun] = 0;
+       test[1]->pvalues[irun] = 0;
+       nullfree(positionCounts);
+       nullfree(expected);
+       nullfree(counts);
+       nullfree(array);
        return(0);
      }
      do {  /* While this path has not yet found a blank node to mark.... */
-- 
2.43.0


From 90b702beffffc9affa2800434fd0e38ace28b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:09 +0000
Subject: [PATCH 21/51] fix: the dct test died for tsamples below 4 and
 n-tuples that are no power of 2

---
 libdieharder/dab_dct.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libdieharder/dab_dct.c b/libdieharder/dab_dct.c
index 54b5508..502b177 100644
--- a/libdieharder/dab_dct.c
+++ b/libdieharder/dab_dct.c
@@ -84,6 +84,7 @@ int dab_dct(Test **test,int irun)
  unsigned int i, j;
  unsigned int len = (ntuple == 0) ? 256 : ntuple;
  int rotAmount = 0;
+ unsigned int quarter = (test[0]->tsamples < 4) ? 1 : test[0]->tsamples / 4;
  unsigned int v = 1<<(rmax_bits-1);
  double mean = (double) len * (v - 0.5);
 
@@ -132,8 +133,8 @@ int dab_dct(Test **test,int irun)
    /* Change the rotation amount after each quarter of the samples
     * have been used.
     */
-   if (j != 0 && (j % (test[0]->tsamples / 4) == 0)) {
-     rotAmount += rmax_bits/4;
+   if (j != 0 && (j % quarter == 0)) {
+     rotAmount = (rotAmount + rmax_bits/4) % rmax_bits;
    }
 
    /* Read (and rotate) the actual rng words. */
@@ -204,7 +205,7 @@ int gsl_fft_real_radix2_transform (double data[], size_t stride, size_t n);
 
 /*
  * Perform a type-II DCT using GSL's FFT function.
- * Assumes len is a power of 2
+ * Falls back to the direct method if len is not a power of 2.
  */
 void fDCT2_fft(const unsigned int input[], double output[], size_t len) {
  double *fft_data;
@@ -214,7 +215,7 @@ void fDCT2_fft(const unsigned int input[], double output[], size_t len) {
   * David, please check this -- do you mean to call fDCT2 and then return?
   * ISO C forbids a return with expression in a void function.
   */
- if (len <= 4) {
+ if (len <= 4 || (len & (len - 1)) != 0) {
    fDCT2(input, output, len);
    return;
  }
-- 
2.43.0


From 2f788b600f06833c5e4bb423886a04e49e790190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:56 +0000
Subject: [PATCH 22/51] fix: kstest printed a debugging line into the report
 for 10400 samples

---
 libdieharder/kstest.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libdieharder/kstest.c b/libdieharder/kstest.c
index aa02cc3..1b18a28 100644
--- a/libdieharder/kstest.c
+++ b/libdieharder/kstest.c
@@ -271,7 +271,6 @@ double p_ks_new(int n,double d)
    */
   s=d*d*n;
   if(ks_test != 2 && ( s>7.24 || ( s>3.76 && n>99 ))) {
-    if(n == 10400) printf("Returning the easy way\n");
     return 2.0*exp(-(2.000071+.331/sqrt(n)+1.409/n)*s);
   }
 
-- 
2.43.0


From b624f6d183f00934571272b20a45bfb49b39da0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:56 +0000
Subject: [PATCH 23/51] fix: kstest returned up to 2 for large samples that fit
 too well

---
 libdieharder/kstest.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdieharder/kstest.c b/libdieharder/kstest.c
index 1b18a28..8507465 100644
--- a/libdieharder/kstest.c
+++ b/libdieharder/kstest.c
@@ -145,6 +145,12 @@ double q_ks(double x)
  double qsum;
  double kappa;
 
+ /*
+  * The series below needs more and more terms as x goes to zero, where
+  * its sum is one to double precision.
+  */
+ if(x < 0.1) return(1.0);
+
  kappa = -2.0*x*x;
  sign = -1;
  qsum = 0.0;
-- 
2.43.0


From 203dcf20f96a716be1d38c3d34948debea6af291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:56 +0000
Subject: [PATCH 24/51] fix: kstest_kuiper returned negative values or did not
 return at all

---
 libdieharder/kstest.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libdieharder/kstest.c b/libdieharder/kstest.c
index 8507465..e1b1f07 100644
--- a/libdieharder/kstest.c
+++ b/libdieharder/kstest.c
@@ -430,6 +430,12 @@ double q_ks_kuiper(double x,int count)
  uint m,msq;
  double xsq,preturn,q,q_last,p,p_last;
 
+ /*
+  * The sums below do not converge as x goes to zero, where the result is
+  * one to double precision.
+  */
+ if(x < 0.4) return(1.0);
+
  /*
   * OK, Numerical Recipes screwed us even in terms of the algorithm.
   * This one includes BOTH terms.
@@ -463,6 +469,9 @@ double q_ks_kuiper(double x,int count)
  p = (8.0*x*p)/(3.0*sqrt(count));
 
  preturn = q - p;
+ /* the correction is only good to O(1/N): keep a probability */
+ if(preturn < 0.0) preturn = 0.0;
+ if(preturn > 1.0) preturn = 1.0;
 
  if(verbose == D_KSTEST || verbose == D_ALL){
    printf("Q_ks yields preturn = %f:  q = %f  p = %f\n",preturn,q,p);
-- 
2.43.0


From 42d72ea0f489cae891265ad28a93ddbc96a56e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:35 +0000
Subject: [PATCH 25/51] fix: sts_runs reported nan for a constant bitstream

---
 libdieharder/sts_runs.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libdieharder/sts_runs.c b/libdieharder/sts_runs.c
index 8c1a1f6..2c2c0de 100644
--- a/libdieharder/sts_runs.c
+++ b/libdieharder/sts_runs.c
@@ -110,8 +110,16 @@ int sts_runs(Test **test, int irun)
    printf(" p = %f c00 = %f c01 = %f c10 = %f c11 = %f\n",pones,c00,c01,c10,c11);
  }
 
- Xtest_eval(&ptest);
- test[0]->pvalues[irun] = ptest.pvalue;
+ /*
+  * A constant bitstring has no runs at all and leaves nothing to normalize
+  * by; it is as improbable as a bitstring can be.
+  */
+ if(ptest.sigma > 0.0){
+   Xtest_eval(&ptest);
+   test[0]->pvalues[irun] = ptest.pvalue;
+ } else {
+   test[0]->pvalues[irun] = 0.0;
+ }
 
  MYDEBUG(D_STS_RUNS) {
    printf("# sts_runs(): test[0]->pvalues[%u] = %10.5f\n",irun,test[0]->pvalues[irun]);
-- 
2.43.0


From 2f797afeb08d79ba61c88ef3498a70954346e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:15 +0000
Subject: [PATCH 26/51] fix: rgb_bitdist aborted on generators with fewer bits
 than the ntuple

---
 libdieharder/rgb_bitdist.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libdieharder/rgb_bitdist.c b/libdieharder/rgb_bitdist.c
index d3427fe..68a9ad8 100644
--- a/libdieharder/rgb_bitdist.c
+++ b/libdieharder/rgb_bitdist.c
@@ -283,7 +283,15 @@ int rgb_bitdist(Test **test,int irun)
    printf("# rgb_bitdist():            vtest table\n");
    printf("# rgb_bitdist(): Outcome   bit          x           y       sigma\n");
  }
- ri = gsl_rng_uniform_int(rng,value_max);
+ /*
+  * gsl_rng_uniform_int() cannot select from more values than the generator
+  * returns, so draw the selection from the bitstream if it is too narrow.
+  */
+ if(value_max <= gsl_rng_max(rng) - gsl_rng_min(rng)){
+   ri = gsl_rng_uniform_int(rng,value_max);
+ } else {
+   ri = get_rand_bits_uint (nb, mask, rng);
+ }
  for(i=0;i<value_max;i++){
    for(b=0;b<=bsamples;b++){
      MYDEBUG(D_RGB_BITDIST){
-- 
2.43.0


From 2926883b131dcee9f1089e8edd1dd742b1927f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:03 +0000
Subject: [PATCH 27/51] fix: sts_serial aborted when rounding made a statistic
 negative

---
 libdieharder/sts_serial.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libdieharder/sts_serial.c b/libdieharder/sts_serial.c
index f9c4acf..fdc6bea 100644
--- a/libdieharder/sts_serial.c
+++ b/libdieharder/sts_serial.c
@@ -303,6 +303,9 @@ int sts_serial(Test **test,int irun)
  for(m=2;m<nb1;m++){
    delpsi2[m] = psi2[m] - psi2[m-1];
    del2psi2[m] = psi2[m] - 2.0*psi2[m-1] + psi2[m-2];
+   /* Neither can be negative, except for rounding error around zero. */
+   if(delpsi2[m] < 0.0) delpsi2[m] = 0.0;
+   if(del2psi2[m] < 0.0) del2psi2[m] = 0.0;
    pvalue = gsl_sf_gamma_inc_Q(pow(2,m-2),delpsi2[m]/2.0);
    if(irun == 0){
      test[j]->ntuple = m;
-- 
2.43.0


From abbbbc10722978721a257670e9bf06e140e738a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:59 +0000
Subject: [PATCH 28/51] fix: dab_monobit2 counted all-one blocks as all-zero
 blocks of the next size

---
 libdieharder/dab_monobit2.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libdieharder/dab_monobit2.c b/libdieharder/dab_monobit2.c
index e69fde9..64a1c97 100644
--- a/libdieharder/dab_monobit2.c
+++ b/libdieharder/dab_monobit2.c
@@ -50,8 +50,9 @@ int dab_monobit2(Test **test, int irun)
 
  test[0]->ntuple = ntup;
 
- counts = (double *) malloc(sizeof(*counts) * blens * (2<<ntup));  // 1 << (ntup+1)
- memset(counts, 0, sizeof(*counts) * blens * (2<<ntup));
+ /* Block size j has blens * (2<<j) + 1 possible counts. */
+ counts = (double *) malloc(sizeof(*counts) * (blens * (2<<ntup) + ntup));
+ memset(counts, 0, sizeof(*counts) * (blens * (2<<ntup) + ntup));
 
  tempCount = (uint *) malloc(sizeof(*tempCount) * ntup);
  memset(tempCount, 0, sizeof(*tempCount) * ntup);
@@ -77,7 +78,7 @@ int dab_monobit2(Test **test, int irun)
     tempCount[j] += n;  // Update block count
 
     if ((t & i) && !(t & (i-1))) {  // If this is the start of a new block
-      counts[blens * ((2<<j)-1) + tempCount[j]]++;  // Save the count
+      counts[blens * ((2<<j)-1) + j + tempCount[j]]++;  // Save the count
       tempCount[j] = 0;  // Reset the counter
     }
     t <<=1;
@@ -86,7 +87,7 @@ int dab_monobit2(Test **test, int irun)
 
  /* Calculate the p-value for each block size. */
  for (j = 0; j < ntup; j++) {
-   double p = chisq_binomial(counts + (blens * ((2<<j)-1)), 0.5, blens * (2<<j),
+   double p = chisq_binomial(counts + (blens * ((2<<j)-1) + j), 0.5, blens * (2<<j),
        test[0]->tsamples / (2<<j));
    pvalues[j] = p;
  }
-- 
2.43.0


From b94859f676a46f696e02ebaf60e5ceb4c79ead34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 29/51] fix: diehard_dna counted words seen a multiple of 256
 times as missing

---
 libdieharder/diehard_dna.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/diehard_dna.c b/libdieharder/diehard_dna.c
index 98d0db7..9293e4f 100644
--- a/libdieharder/diehard_dna.c
+++ b/libdieharder/diehard_dna.c
@@ -166,7 +166,7 @@ int diehard_dna(Test **test, int irun)
    q = get_bit_ntuple_from_uint(q0,2,mask,boffset);
    r = get_bit_ntuple_from_uint(r0,2,mask,boffset);
    /* printf("%u:   %u  %u  %u  %u  %u\n",t,i,j,k,l,boffset); */
-   w[i][j][k][l][m][n][o][p][q][r]++;
+   w[i][j][k][l][m][n][o][p][q][r] = 1;
    boffset++;
  }
 
-- 
2.43.0


From d9a90a741871a996c7fcc65a89dd19f30601a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 30/51] fix: diehard_bitstream counted words seen a multiple of
 256 times as missing

---
 libdieharder/diehard_bitstream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/diehard_bitstream.c b/libdieharder/diehard_bitstream.c
index 2038366..d007104 100644
--- a/libdieharder/diehard_bitstream.c
+++ b/libdieharder/diehard_bitstream.c
@@ -169,7 +169,7 @@ int diehard_bitstream(Test **test, int irun)
        dumpuintbits(&w20, 1);
        printf("\n");
      }
-     w[w20]++;
+     w[w20] = 1;
 
    } else {
 
@@ -235,7 +235,7 @@ int diehard_bitstream(Test **test, int irun)
          printf("\n");
        }
      }
-     w[w20]++;
+     w[w20] = 1;
 
    }
  }
-- 
2.43.0


From 26f503b4ddc11e3d3010c93ac78747161445394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:30 +0000
Subject: [PATCH 31/51] fix: diehard_bitstream read past its bits for more than
 8388640 samples

---
 libdieharder/diehard_bitstream.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libdieharder/diehard_bitstream.c b/libdieharder/diehard_bitstream.c
index d007104..a9c393f 100644
--- a/libdieharder/diehard_bitstream.c
+++ b/libdieharder/diehard_bitstream.c
@@ -50,6 +50,7 @@ int diehard_bitstream(Test **test, int irun)
  uint *bitstream,w20,wscratch,newbyte;
  unsigned char *cbitstream = 0;
  uint overlap = 1;  /* Leftovers/Cruft */
+ uint nuints;
 
  /*
   * for display only.  0 means "ignored".
@@ -80,12 +81,14 @@ int diehard_bitstream(Test **test, int irun)
  ptest.y = 141909;
  if(overlap){
    ptest.sigma = 428.0;
-   bitstream = (uint *)malloc(BS_OVERLAP*sizeof(uint));
-   for(i = 0; i < BS_OVERLAP; i++){
+   nuints = BS_OVERLAP;
+   if(nuints < test[0]->tsamples/32 + 2) nuints = test[0]->tsamples/32 + 2;
+   bitstream = (uint *)malloc(nuints*sizeof(uint));
+   for(i = 0; i < nuints; i++){
      bitstream[i] = get_rand_bits_uint(32,0xffffffff,rng);
    }
    MYDEBUG(D_DIEHARD_BITSTREAM) {
-     printf("# diehard_bitstream: Filled bitstream with %u rands for overlapping\n",BS_OVERLAP);
+     printf("# diehard_bitstream: Filled bitstream with %u rands for overlapping\n",nuints);
      printf("# diehard_bitstream: samples.  Target is mean 141909, sigma = 428.\n");
    }
  } else {
-- 
2.43.0


From a8823c6a62e838a50095dc55fd326143da23f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:59 +0000
Subject: [PATCH 32/51] fix: binary_rank eliminated the wrong words of rows
 longer than one word

---
 libdieharder/rank.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/rank.c b/libdieharder/rank.c
index d114a6a..72902ac 100644
--- a/libdieharder/rank.c
+++ b/libdieharder/rank.c
@@ -160,14 +160,14 @@ int binary_rank(uint **mtx,int mrows,int ncols)
           * we use exclusive or to eliminate the
           * rest of the column.
           */
-         n = uint_col_max - col_ind;
+         n = uint_col_max;
          if(verbose == D_BRANK || verbose == D_ALL){
            printf("eliminating against row %2d = ",i);
            dumpbits(&mtx[i][col_ind],32);
            printf("eliminating row %2d, before = ",k);
            dumpbits(&mtx[k][col_ind],32);
          }
-         while (n >= 0){
+         while (n >= col_ind){
            if(verbose == D_BRANK || verbose == D_ALL){
              printf("xoring column = %2d\n",n);
 	   }
-- 
2.43.0


From 97865e4be9f991866d71576a95f5708e44f61f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:05 +0000
Subject: [PATCH 33/51] fix: diehard_birthdays read past the end of its list of
 intervals

---
 libdieharder/diehard_birthdays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/diehard_birthdays.c b/libdieharder/diehard_birthdays.c
index 9fc8e3e..1f856ea 100644
--- a/libdieharder/diehard_birthdays.c
+++ b/libdieharder/diehard_birthdays.c
@@ -185,7 +185,7 @@ int diehard_birthdays(Test **test, int irun)
    k = 0;
    for(m=0;m<nms-1;m++){
      mnext = m+1;
-     while(intervals[m] == intervals[mnext]){
+     while(mnext < nms && intervals[m] == intervals[mnext]){
        /* There is at least one repeat of this interval */
        if(mnext == m+1){
          /* increment the count of repeated intervals */
-- 
2.43.0


From 93a425651fda9eff2e1407e5de1f051dd6437842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:05 +0000
Subject: [PATCH 34/51] fix: dab_birthdays1 read past the end of its list of
 intervals

---
 libdieharder/dab_birthdays1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/dab_birthdays1.c b/libdieharder/dab_birthdays1.c
index 3eb8b2f..aa2247d 100644
--- a/libdieharder/dab_birthdays1.c
+++ b/libdieharder/dab_birthdays1.c
@@ -170,7 +170,7 @@ int dab_birthdays1(Test **test, int irun)
    k = 0;
    for(m=0;m<nms-1;m++){
      mnext = m+1;
-     while(intervals[m] == intervals[mnext]){
+     while(mnext < nms && intervals[m] == intervals[mnext]){
        /* There is at least one repeat of this interval */
        if(mnext == m+1){
          /* increment the count of repeated intervals */
-- 
2.43.0


From 8b6c852ec252c680b49ede18e0ee4ef000cd5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:25 +0000
Subject: [PATCH 35/51] fix: chisq_poisson returned nan when an expected value
 underflowed to zero

---
 libdieharder/chisq.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libdieharder/chisq.c b/libdieharder/chisq.c
index bd73eef..f3832d7 100644
--- a/libdieharder/chisq.c
+++ b/libdieharder/chisq.c
@@ -63,6 +63,8 @@ double chisq_poisson(unsigned int *observed,double lambda,int kmax,unsigned int
   */
  chisq = 0.0;
  for(k = 0;k < kmax;k++){
+   /* For a large lambda the expected value may underflow to zero */
+   if(observed[k] == 0 && expected[k] == 0) continue;
    delchisq = ((double) observed[k] - expected[k])*
       ((double) observed[k] - expected[k])/expected[k];
    chisq += delchisq;
@@ -81,7 +83,11 @@ double chisq_poisson(unsigned int *observed,double lambda,int kmax,unsigned int
   * is what is the correct number of degrees of freedom.  We have
   * kmax bins, so it should be kmax-1.
   */
- pvalue = gsl_sf_gamma_inc_Q((double)(kmax-1)/2.0,chisq/2.0);
+ if(!isfinite(chisq)){
+   pvalue = 0.0;
+ } else {
+   pvalue = gsl_sf_gamma_inc_Q((double)(kmax-1)/2.0,chisq/2.0);
+ }
  if(verbose == D_CHISQ || verbose == D_ALL){
    printf("pvalue = %f in chisq_poisson.\n",pvalue);
  }
-- 
2.43.0


From 9a3bb74251435a29a82fef594a5d4cd1f9d97116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:31 +0000
Subject: [PATCH 36/51] fix: rgb_minimum_distance ignored distances above 1

---
 libdieharder/rgb_minimum_distance.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rgb_minimum_distance.c b/libdieharder/rgb_minimum_distance.c
index a747e49..a972be8 100644
--- a/libdieharder/rgb_minimum_distance.c
+++ b/libdieharder/rgb_minimum_distance.c
@@ -161,7 +161,7 @@ int rgb_minimum_distance(Test **test, int irun)
  /*
   * Now we do the SINGLE PASS through to determine mindist
   */
- mindist = 1.0;
+ mindist = sqrt((double)rgb_md_dim);   /* the diagonal of the unit cube */
  for(i=0;i<test[0]->tsamples;i++){
    /*
     * One thing to experiment with here (very much) is
-- 
2.43.0


From 263c45e1eaea9bec06ecc3f77f759400ab6c300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:31 +0000
Subject: [PATCH 37/51] fix: rgb_minimum_distance returned negative p-values
 for very few points

---
 libdieharder/rgb_minimum_distance.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdieharder/rgb_minimum_distance.c b/libdieharder/rgb_minimum_distance.c
index a972be8..c4380fa 100644
--- a/libdieharder/rgb_minimum_distance.c
+++ b/libdieharder/rgb_minimum_distance.c
@@ -205,6 +205,8 @@ int rgb_minimum_distance(Test **test, int irun)
  }
  /* qarg = 1.0; */
  test[0]->pvalues[irun] = 1.0 - exp(earg)*qarg;
+ /* The correction in qarg can exceed the leading term for very few points */
+ if(test[0]->pvalues[irun] < 0.0) test[0]->pvalues[irun] = 0.0;
 
  free(points);
 
-- 
2.43.0


From 32538416b2f0bfaa2ba5ddeeeda1623e5b7fff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:31 +0000
Subject: [PATCH 38/51] fix: rgb_minimum_distance wrote past its points for
 more than 5 dimensions

---
 libdieharder/rgb_minimum_distance.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdieharder/rgb_minimum_distance.c b/libdieharder/rgb_minimum_distance.c
index c4380fa..e0540ab 100644
--- a/libdieharder/rgb_minimum_distance.c
+++ b/libdieharder/rgb_minimum_distance.c
@@ -108,6 +108,10 @@ int rgb_minimum_distance(Test **test, int irun)
   */
  test[0]->ntuple = ntuple;
  rgb_md_dim = test[0]->ntuple;
+ if(rgb_md_dim > RGB_MINIMUM_DISTANCE_MAXDIM){
+   fprintf(stderr,"Error: rgb_minimum_distance supports at most %d dimensions.\n",RGB_MINIMUM_DISTANCE_MAXDIM);
+   exit(1);
+ }
 
  if(verbose == D_RGB_MINIMUM_DISTANCE || verbose == D_ALL){
      printf("Generating a list of %u points in %d dimensions\n",test[0]->tsamples,rgb_md_dim);
-- 
2.43.0


From 853222637ce70472ae59b45b7922493dc4dd1fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:17 +0000
Subject: [PATCH 39/51] fix: diehard_sums wrote past its list for a single
 sample

---
 libdieharder/diehard_sums.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdieharder/diehard_sums.c b/libdieharder/diehard_sums.c
index 7251c3b..088fc8a 100644
--- a/libdieharder/diehard_sums.c
+++ b/libdieharder/diehard_sums.c
@@ -222,12 +222,12 @@ int diehard_sums(Test **test, int irun)
    printf("# We convert it to a normal distribution of width 1.0\n");
  }
  x[0] = y[0]/sqrt(1.0*m);
- x[1] = -x[0]*(m-1)/sqrt(2.0*m - 1.0) + y[1]*sqrt(m/(2.0*m - 1.0));
+ if(m > 1) x[1] = -x[0]*(m-1)/sqrt(2.0*m - 1.0) + y[1]*sqrt(m/(2.0*m - 1.0));
  x[0] =  gsl_cdf_gaussian_P(x[0],1.0);
- x[1] =  gsl_cdf_gaussian_P(x[1],1.0);
+ if(m > 1) x[1] =  gsl_cdf_gaussian_P(x[1],1.0);
  if(verbose == D_DIEHARD_SUMS || verbose == D_ALL){
    printf("x[0] = %f\n",x[0]);
-   printf("x[1] = %f\n",x[1]);
+   if(m > 1) printf("x[1] = %f\n",x[1]);
  }
 
  for(t=2;t<m;t++){
-- 
2.43.0


From be937512d7bc406a2c455bb4d5ce1d70b4df796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:27 +0000
Subject: [PATCH 40/51] fix: dab_filltree lost zeros and then wrote past its
 counts

---
 libdieharder/dab_filltree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index 00cae67..499cb7a 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -73,7 +73,7 @@ int dab_filltree(Test **test,int irun) {
 
  for (j = 0; j < test[0]->tsamples; j++) {
    int ret;
-   memset(array, 0, sizeof(double) * size);
+   for (i = 0; i < size; i++) array[i] = -1;   /* empty; the values are in [0,1] */
    i = 0;
    do {
      unsigned int v = gsl_rng_get(rng);
@@ -116,7 +116,7 @@ static inline int insert(double x, double *array, unsigned int startVal) {
  uint d = (startVal + 1) / 2;
  uint i = startVal;
  while (d > 0) {
-   if (array[i] == 0) {
+   if (array[i] < 0) {
      array[i] = x;
      return -1;
    }
@@ -144,7 +144,7 @@ int main_filltree(int argc, char **argv) {
  else srand(i);
 
  for (j = 0; j < 10000000; j++) {
-   memset(array, 0, sizeof(double) * size);
+   for (i = 0; i < size; i++) array[i] = -1;
    i = 0;
    do {
      x = (double) rand() / RAND_MAX;
-- 
2.43.0


From 292dbd124ee05238b2857806f00f305498ddbbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:42 +0000
Subject: [PATCH 41/51] fix: dab_filltree truncated the expected position
 counts

---
 libdieharder/dab_filltree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index 499cb7a..251044c 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -99,7 +99,7 @@ int dab_filltree(Test **test,int irun) {
 
  test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
 
- for (i = 0; i < size/2; i++) expected[i] = test[0]->tsamples/(size/2);
+ for (i = 0; i < size/2; i++) expected[i] = (double) test[0]->tsamples/(size/2);
  test[1]->pvalues[irun] = chisq_pearson(positionCounts, expected, size/2);
 
 
-- 
2.43.0


From c60f5cbe09a12011b5af7593894f1aab05717696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:43 +0000
Subject: [PATCH 42/51] fix: the fill tree tests ran off their tables for very
 few samples

---
 libdieharder/dab_filltree.c  | 7 ++++++-
 libdieharder/dab_filltree2.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index 251044c..b729495 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -97,7 +97,12 @@ int dab_filltree(Test **test,int irun) {
    if (j % cycle == 0) rotAmount++;
  }
 
- test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
+ /* It takes two fill counts that are expected often enough to tell anything */
+ if (end > start + 1) {
+   test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
+ } else {
+   test[0]->pvalues[irun] = 0.5;
+ }
 
  for (i = 0; i < size/2; i++) expected[i] = (double) test[0]->tsamples/(size/2);
  test[1]->pvalues[irun] = chisq_pearson(positionCounts, expected, size/2);
diff --git a/libdieharder/dab_filltree2.c b/libdieharder/dab_filltree2.c
index 264bfdd..3f87dbc 100644
--- a/libdieharder/dab_filltree2.c
+++ b/libdieharder/dab_filltree2.c
@@ -163,7 +163,12 @@ int dab_filltree2(Test **test, int irun) {
  }
 
  /* First p-value is calculated based on the targetData array. */
- test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
+ /* It takes two fill counts that are expected often enough to tell anything */
+ if (end > start + 1) {
+   test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
+ } else {
+   test[0]->pvalues[irun] = 0.5;
+ }
 
  /* Second p-value is calculated against a uniform distribution. */
  for (i = 0; i < size/2; i++) expected[i] = test[0]->tsamples/(size/2);
-- 
2.43.0


From 66777f381a8f655a244854990ccea76a1d290c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:44 +0000
Subject: [PATCH 43/51] fix: kiss, superkiss and uvag never released their
 seeding generator

---
 libdieharder/rng_kiss.c      | 1 +
 libdieharder/rng_superkiss.c | 1 +
 libdieharder/rng_uvag.c      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/libdieharder/rng_kiss.c b/libdieharder/rng_kiss.c
index 9e761ad..af6f6e4 100644
--- a/libdieharder/rng_kiss.c
+++ b/libdieharder/rng_kiss.c
@@ -93,6 +93,7 @@ kiss_set (void *vstate, unsigned long int s)
   * Notes: offset c by 1 to avoid z=c=0; should be less than 698769069.
   */
  state->c = gsl_rng_get(seed_rng) % 698769068 + 1;
+ gsl_rng_free(seed_rng);
  /* printf("x = %10u y = %10u z = %10u c = %10u\n",
          state->x,state->y,state->z,state->c); */
  return;
diff --git a/libdieharder/rng_superkiss.c b/libdieharder/rng_superkiss.c
index 2282779..b00f18f 100644
--- a/libdieharder/rng_superkiss.c
+++ b/libdieharder/rng_superkiss.c
@@ -109,6 +109,7 @@ static void superkiss_set (void *vstate, unsigned long int s)
  for(i = 0;i < SUPERKISS_QMAX;i++){
    state->Q[i] = gsl_rng_get(seed_rng);
  }
+ gsl_rng_free(seed_rng);
  state->indx=SUPERKISS_QMAX;
  state->carry=362436;
  state->xcng=1236789;
diff --git a/libdieharder/rng_uvag.c b/libdieharder/rng_uvag.c
index 26d02aa..940ba61 100644
--- a/libdieharder/rng_uvag.c
+++ b/libdieharder/rng_uvag.c
@@ -173,6 +173,7 @@ static void uvag_set (void *vstate, unsigned long int s) {
  }
  /* printf("\n"); */
  reset_bit_buffers();
+ gsl_rng_free(seed_rng);
 
  kp = key;
  tot = 0;
-- 
2.43.0


From 7c9b12a1961e102a7fd6c2c1bfbe3147bbbd5cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:44 +0000
Subject: [PATCH 44/51] fix: reseeding a device generator left its stream open

---
 libdieharder/rng_dev_arandom.c | 5 +++++
 libdieharder/rng_dev_random.c  | 5 +++++
 libdieharder/rng_dev_urandom.c | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/libdieharder/rng_dev_arandom.c b/libdieharder/rng_dev_arandom.c
index a620f6a..9bf7e4d 100644
--- a/libdieharder/rng_dev_arandom.c
+++ b/libdieharder/rng_dev_arandom.c
@@ -44,6 +44,11 @@ dev_arandom_set (void *vstate, unsigned long int s)
 {
   dev_arandom_state_t *state = (dev_arandom_state_t *) vstate;
 
+ /* The state starts out zeroed; close the stream of an earlier seeding. */
+ if(state->fp != NULL) {
+   fclose(state->fp);
+ }
+
  if ((state->fp = fopen("/dev/arandom","r")) == NULL) {
    fprintf(stderr,"Error: Cannot open /dev/arandom, exiting.\n");
    fprintf(stderr,"/dev/arandom may only be available on BSD systems.\n");
diff --git a/libdieharder/rng_dev_random.c b/libdieharder/rng_dev_random.c
index 14b0456..8f1eddd 100644
--- a/libdieharder/rng_dev_random.c
+++ b/libdieharder/rng_dev_random.c
@@ -44,6 +44,11 @@ dev_random_set (void *vstate, unsigned long int s)
 {
   dev_random_state_t *state = (dev_random_state_t *) vstate;
 
+ /* The state starts out zeroed; close the stream of an earlier seeding. */
+ if(state->fp != NULL) {
+   fclose(state->fp);
+ }
+
  if ((state->fp = fopen("/dev/random","r")) == NULL) {
    fprintf(stderr,"Error: Cannot open /dev/random, exiting.\n");
    fprintf(stderr,"/dev/random may only be available on Linux systems.\n");
diff --git a/libdieharder/rng_dev_urandom.c b/libdieharder/rng_dev_urandom.c
index dbf2f02..862bd80 100644
--- a/libdieharder/rng_dev_urandom.c
+++ b/libdieharder/rng_dev_urandom.c
@@ -44,6 +44,11 @@ dev_urandom_set (void *vstate, unsigned long int s)
 {
   dev_urandom_state_t *state = (dev_urandom_state_t *) vstate;
 
+ /* The state starts out zeroed; close the stream of an earlier seeding. */
+ if(state->fp != NULL) {
+   fclose(state->fp);
+ }
+
  if ((state->fp = fopen("/dev/urandom","r")) == NULL) {
    fprintf(stderr,"Error: Cannot open /dev/urandom, exiting.\n");
    fprintf(stderr,"/dev/urandom may only be available on Linux systems.\n");
-- 
2.43.0


From 9a9a55c2be6f11e8f569214b04fdf3636888202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:04 +0000
Subject: [PATCH 45/51] fix: reseeding the XOR generator never released its
 components

---
 libdieharder/rng_XOR.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libdieharder/rng_XOR.c b/libdieharder/rng_XOR.c
index a44b4b4..d84c545 100644
--- a/libdieharder/rng_XOR.c
+++ b/libdieharder/rng_XOR.c
@@ -64,6 +64,11 @@ static void XOR_set (void *vstate, unsigned long int s) {
   * as per usual, and used (ONLY) to see the remaining generators.
   * The remaining generators.
   */
+ for(i=0;i<GVECMAX;i++){
+   /* The state starts out zeroed; release the rngs of an earlier seeding. */
+   if(state->grngs[i]) gsl_rng_free(state->grngs[i]);
+   state->grngs[i] = NULL;
+ }
  state->grngs[0] = gsl_rng_alloc(dh_rng_types[14]);
  seed_seed = s;
  gsl_rng_set(state->grngs[0],seed_seed);
-- 
2.43.0


From 1a2d90395cf554ca4e0fb3d5865b3c3f136a4f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:13 +0000
Subject: [PATCH 46/51] fix: more than 100 -g or -S options wrote past the
 generator tables

---
 dieharder/parsecl.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 99005b7..f69a1cf 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -151,6 +151,10 @@ void parsecl(int argc, char **argv)
       * by the choose_rng function later.
       */
      case 'g':
+       if(gvcount >= GVECMAX){
+         fprintf(stderr,"Error: at most %d generators can be selected.\n",GVECMAX);
+         exit(1);
+       }
        gen_tmp =  strtol(optarg,&endptr,10);
        /* printf("optarg = %s, dtest_tmp = %d endptr = %s\n",optarg,dtest_tmp,endptr); */
        if(endptr == optarg || *endptr != 0){
@@ -203,8 +207,10 @@ void parsecl(int argc, char **argv)
        break;
      case 'S':
        Seed = strtol(optarg,(char **) NULL,10);
-       gseeds[gscount] = gen_tmp;
-       gscount++;
+       if(gscount < GVECMAX){
+         gseeds[gscount] = gen_tmp;
+         gscount++;
+       }
        break;
      case 's':
        strategy = strtol(optarg,(char **) NULL,10);
-- 
2.43.0


From b64e774ee681dd662b0bb7096926c52486f99c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:13 +0000
Subject: [PATCH 47/51] fix: exporting numbers from a file generator truncated
 the file it was reading

---
 dieharder/choose_rng.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dieharder/choose_rng.c b/dieharder/choose_rng.c
index 8301e02..31e1fee 100644
--- a/dieharder/choose_rng.c
+++ b/dieharder/choose_rng.c
@@ -184,6 +184,10 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
      fprintf(stderr,"Error: gennum %s uses file input but no filename has been specified",dh_rng_types[gennum]->name);
      return(-1);
    }
+   if(output_file){
+     fprintf(stderr,"Error: gennum %s uses file input but -o would write over the file\n",dh_rng_types[gennum]->name);
+     return(-1);
+   }
  }
 
  /*
-- 
2.43.0


From a005159140209c849952e1d13d23400348695e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:39 +0000
Subject: [PATCH 48/51] fix: device generators returned an uninitialized word
 when the device could not be read

---
 libdieharder/rng_dev_arandom.c | 5 ++++-
 libdieharder/rng_dev_random.c  | 5 ++++-
 libdieharder/rng_dev_urandom.c | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/libdieharder/rng_dev_arandom.c b/libdieharder/rng_dev_arandom.c
index 9bf7e4d..79cb8df 100644
--- a/libdieharder/rng_dev_arandom.c
+++ b/libdieharder/rng_dev_arandom.c
@@ -24,7 +24,10 @@ dev_arandom_get (void *vstate)
   unsigned int j;
 
   if(state->fp != NULL) {
-    fread(&j,sizeof(j),1,state->fp);
+    if(fread(&j,sizeof(j),1,state->fp) != 1){
+      fprintf(stderr,"Error: Cannot read /dev/arandom.  Exiting.\n");
+      exit(1);
+    }
     return j;
   } else {
     fprintf(stderr,"Error: /dev/arandom not open.  Exiting.\n");
diff --git a/libdieharder/rng_dev_random.c b/libdieharder/rng_dev_random.c
index 8f1eddd..93cbac0 100644
--- a/libdieharder/rng_dev_random.c
+++ b/libdieharder/rng_dev_random.c
@@ -24,7 +24,10 @@ dev_random_get (void *vstate)
   unsigned int j;
 
   if(state->fp != NULL) {
-    fread(&j,sizeof(j),1,state->fp);
+    if(fread(&j,sizeof(j),1,state->fp) != 1){
+      fprintf(stderr,"Error: Cannot read /dev/random.  Exiting.\n");
+      exit(1);
+    }
     return j;
   } else {
     fprintf(stderr,"Error: /dev/random not open.  Exiting.\n");
diff --git a/libdieharder/rng_dev_urandom.c b/libdieharder/rng_dev_urandom.c
index 862bd80..553b0c3 100644
--- a/libdieharder/rng_dev_urandom.c
+++ b/libdieharder/rng_dev_urandom.c
@@ -24,7 +24,10 @@ dev_urandom_get (void *vstate)
   unsigned int j;
 
   if(state->fp != NULL) {
-    fread(&j,sizeof(j),1,state->fp);
+    if(fread(&j,sizeof(j),1,state->fp) != 1){
+      fprintf(stderr,"Error: Cannot read /dev/urandom.  Exiting.\n");
+      exit(1);
+    }
     return j;
   } else {
     fprintf(stderr,"Error: /dev/urandom not open.  Exiting.\n");
-- 
2.43.0


From 0a62bc91ac33648dfbf0a0931f72ab9bbc1bcd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:48 +0000
Subject: [PATCH 49/51] fix: a randomly chosen seed of 0 could not be entered
 again to repeat the run

---
 libdieharder/random_seed.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libdieharder/random_seed.c b/libdieharder/random_seed.c
index 332106d..d43274f 100644
--- a/libdieharder/random_seed.c
+++ b/libdieharder/random_seed.c
@@ -19,7 +19,7 @@
 unsigned long int random_seed()
 {
 
- unsigned int seed;
+ unsigned int seed = 0;
  struct timeval tv;
  FILE *devurandom;
 
@@ -47,6 +47,12 @@ unsigned long int random_seed()
    fclose(devurandom);
  }
 
+ /*
+  * A seed of 0 means "pick one at random" when it is entered with -S, so
+  * a run that was given 0 here could never be repeated.
+  */
+ if(seed == 0) seed = 1;
+
  return(seed);
 
 }
-- 
2.43.0


From a9da19dc4278c2104df57ad879800a6f65bff419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:49 +0000
Subject: [PATCH 50/51] fix: file names were cut to 128 characters, so another
 file could be read or overwritten

---
 dieharder/parsecl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index f69a1cf..f254bc8 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -137,7 +137,11 @@ void parsecl(int argc, char **argv)
        show_flags = 1;
        break;
      case 'f':
-       strncpy(filename,optarg,128);
+       if(strlen(optarg) >= K){
+         fprintf(stderr,"Error: file name %s is too long.\n",optarg);
+         exit(1);
+       }
+       strcpy(filename,optarg);
        fromfile = 1;
        break;
      /*
-- 
2.43.0


From 3fb925452bc6c2f927f8b340e992bd4cefca1709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:21 +0000
Subject: [PATCH 51/51] fix: the rest of a long comment line was read as a
 header line of a formatted file

---
 libdieharder/rng_file_input.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index bc31b00..eb08369 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -305,7 +305,10 @@ static void file_input_set (void *vstate, unsigned long int s)
     * Skip comments altogether, whereever they might be.  Also adopt code
     * to use new, improved, more portable "split()" command.
     */
-   if(inbuf[0] != '#'){
+   if(inbuf[0] == '#'){
+     /* A comment longer than the buffer goes on to the end of its line. */
+     while(strchr(inbuf,'\n') == NULL && fgets(inbuf,K,state->fp) != 0);
+   } else {
      /*
       * Just like perl, sorta.  In fact, I'm really liking using
       * perl-derived utility functions for parsing where I can.
-- 
2.43.0

