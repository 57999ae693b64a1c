ID="c28-serial-wrap"; PROPERTY="C28"
NEEDS="a memory checker: the write lands one word past a heap block"
BREAKS="sts_serial allocates no room for the wrap-around copy of the first word and writes past the end of its buffer"
EDITS=[("libdieharder/sts_serial.c","uintbuf = (uint *)malloc((tsamples+1)*sizeof(uint));","uintbuf = (uint *)malloc(tsamples*sizeof(uint));")]
DEMO='valgrind -q --error-exitcode=9 "$DH" -d 102 -g 13 -S 1 -t 100 -p 1 > "$T/o" 2>&1'
