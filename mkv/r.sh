#!/bin/sh
# development helper: run executable contracts and print what failed.  r.sh CASES ID...
n=$1; shift
for p in "$@"; do printf "%s " $p; sh /verif/mkv/run1.sh $p --cases $n --seconds 90 | python3 -c "
import json,sys
d=json.load(sys.stdin); print(d['evaluations'],d['distinct'],'skip',d['skipped'],d['wall_s'],d['variants'])
for f in d['failures']: print('  ',f['variant'],'|',f['failure'][:600]); print('     ',str(f['case'])[:700])"; done
