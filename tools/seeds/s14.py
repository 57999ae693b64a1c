ID="c13-nowhite-ntuple"; PROPERTY="C13"
NEEDS="the no_whitespace output format together with a test that reports several n-tuples (sts_serial)"
BREAKS="with -D no_whitespace every row shows the n-tuple of the first statistic"
EDITS=[("dieharder/output.c",'fprintf(stdout,"%d",test[i]->ntuple);','fprintf(stdout,"%d",test[0]->ntuple);')]
DEMO='"$DH" -d 102 -g 13 -S 1 -t 200 -p 2 -D no_whitespace -D test_name -D ntuple -D pvalues | tee "$T/o" | tail -3; grep -q "sts_serial|16|" "$T/o"'
