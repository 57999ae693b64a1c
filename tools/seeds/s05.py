ID="c06-append"; PROPERTY="C06"
NEEDS="exporting twice to the same file, the second time fewer or different numbers"
BREAKS="a second export to an existing file appends to it instead of replacing it, so the file read back is the older export"
EDITS=[("dieharder/output_rnds.c",'if ((fp = fopen(filename,"w")) == NULL) {','if ((fp = fopen(filename,"a")) == NULL) {')]
DEMO='''"$DH" -o -O 0 -f "$T/a" -t 20 -S 5 -g 13; "$DH" -o -O 0 -f "$T/a" -t 8 -S 9 -g 13; "$DH" -o -O 0 -f "$T/b" -t 8 -S 9 -g 13; [ "$(stat -c %s "$T/b")" = 32 ] && cmp "$T/a" "$T/b"'''
