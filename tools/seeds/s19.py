ID="c05-short-read"; PROPERTY="C05"
NEEDS="a writer whose chunks are not multiples of four bytes, read before the rest arrives"
BREAKS="standard input is read with one read() per word, so a word split over two writes is taken for the end of the input"
EDITS=[("libdieharder/rng_stdin_input_raw.c","#include <string.h>\n","#include <string.h>\n#include <unistd.h>\n"),("libdieharder/rng_stdin_input_raw.c","  if (fread(&j,sizeof(j),1,stdin) != 1) {\n      if (feof(stdin)) {","  ssize_t got = read(fileno(stdin),&j,sizeof(j));\n  if (got != sizeof(j)) {\n      if (got >= 0) {")]
DEMO='''
head -c 4000 /dev/zero | tr '\\0' 'a' > "$T/in"
{ head -c 402 "$T/in"; sleep 1; tail -c +403 "$T/in"; sleep 1; } | "$DH" -g 200 -D test_name -o -O 0 -t 500 > "$T/out" 2>/dev/null
head -c 2000 "$T/in" | cmp - "$T/out"
'''
