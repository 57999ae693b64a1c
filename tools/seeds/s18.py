ID="c30-rate-after-seed"; PROPERTY="C30"
NEEDS="strategy 0 with a given seed and the default report fields (which include the generator's rate)"
BREAKS="the generator's rate is measured after it was seeded, so a run tests the stream from wherever the measurement stopped, a different place every time"
EDITS=[("dieharder/choose_rng.c","""  */
 if(tflag & TRATE){
   time_rng();
 }
 
 /*
  * OK, here's the deal on seeds.  If strategy = 0, we set the seed
""","""  */
 
 /*
  * OK, here's the deal on seeds.  If strategy = 0, we set the seed
"""),("dieharder/choose_rng.c"," gsl_rng_set(rng,seed);\n\n/*\n  * Before we quit"," gsl_rng_set(rng,seed);\n if(tflag & TRATE){\n   time_rng();\n }\n\n/*\n  * Before we quit")]
DEMO='''
a=$("$DH" -d 100 -g 13 -S 7 -s 0 -p 2 | grep sts_monobit)
b=$("$DH" -d 100 -g 13 -S 7 -s 0 -p 2 -D test_name -D ntuple -D tsamples -D psamples -D pvalues -D assessment | grep sts_monobit)
[ -n "$a" ] && [ "$(echo "$a" | tr -d ' ')" = "$(echo "$b" | tr -d ' ')" ]
'''
