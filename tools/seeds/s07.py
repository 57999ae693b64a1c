exec(open(HERE+"/gd.inc").read())
ID="c22-triple-spacing"; PROPERTY="C22"
NEEDS="a narrow generator or large n-tuple, so that one spacing occurs three times or more within a sample"
BREAKS="dab_birthdays1 counts a spacing that occurs three times or more once per extra occurrence instead of once"
EDITS=[("libdieharder/dab_birthdays1.c","     if(mnext != m+1) m = mnext;","     if(mnext == m+2) m = mnext;")]
FILES={"demo.c":GD}
DEMO=RUN("dab_birthdays1 16 3 400 60 1 2","@EXP@")
