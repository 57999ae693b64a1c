exec(open(HERE+"/gd.inc").read())
ID="c24-long-lag"; PROPERTY="C24"
NEEDS="a lag of 256 or more"
BREAKS="rgb_lagged_sums keeps the lag in eight bits, so with -n 256 no number is skipped"
EDITS=[("libdieharder/rgb_lagged_sums.c"," uint t,i,lag;"," uint t,i;\n unsigned char lag;")]
FILES={"demo.c":GD}
DEMO=RUN("rgb_lagged_sum 32 3 300 257 1 2","@EXP@")
