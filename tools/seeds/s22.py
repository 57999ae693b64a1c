ID="c14-name-prefix"; PROPERTY="C14"
NEEDS="a generator name that is the beginning of an earlier generator's name"
BREAKS="generator names are compared only over the length typed, so -g file_input selects file_input_raw and unknown abbreviations select some generator"
EDITS=[("dieharder/choose_rng.c","       if(strncmp(dh_rng_types[i]->name,gnames[0],20) == 0){\n         gennum = i;\n         break;\n       }\n     }\n   }\n   if(gennum == -1) return(-1);\n } else if(dh_rng_types[gnumbs[0]] != 0){\n   /*\n    * If we get here, then we are entering a gennum type by number.","       if(strncmp(dh_rng_types[i]->name,gnames[0],strlen(gnames[0])) == 0){\n         gennum = i;\n         break;\n       }\n     }\n   }\n   if(gennum == -1) return(-1);\n } else if(dh_rng_types[gnumbs[0]] != 0){\n   /*\n    * If we get here, then we are entering a gennum type by number.")]
DEMO='''
{ printf 'type: d\\ncount: 40\\nnumbit: 32\\n'; for i in $(seq 1000000001 1000000040); do echo $i; done; } > "$T/in"
"$DH" -d 100 -g file_input -f "$T/in" -t 30 -p 1 -D pvalues > "$T/a" 2>&1; "$DH" -d 100 -g 202 -f "$T/in" -t 30 -p 1 -D pvalues > "$T/b" 2>&1
grep -q '0\\.[0-9]' "$T/b" && grep '^ *[01]\\.' "$T/a" > "$T/a1" && grep '^ *[01]\\.' "$T/b" > "$T/b1" && cmp "$T/a1" "$T/b1"
'''
