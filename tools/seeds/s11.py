exec(open(HERE+"/gd.inc").read())
ID="c17-odd-width-byte"; PROPERTY="C17"
NEEDS="a generator with an odd number of bits (31-bit generators are common)"
BREAKS="dab_bytedistrib rounds its shift per step, so for generators of odd width the last byte it scores is not the most significant one"
EDITS=[("libdieharder/dab_bytedistrib.c","((j+1) * (rmax_bits - 8)) / (SAMP_PER_WORD - 1)","(j+1) * ((rmax_bits - 8) / (SAMP_PER_WORD - 1))")]
FILES={"demo.c":GD}
DEMO=RUN("dab_bytedistrib 31 3 3000 0 1 2","@EXP@")
