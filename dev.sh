#!/bin/bash
# dev.sh feature entry params [symx args]: build + run one entry
cd /verif; export RUST_BACKTRACE=0
F=$1; E=$2; P=$3; shift 3
python3 - "$F" > /tmp/ll.txt 2>&1 <<'P' || { tail -40 /tmp/ll.txt; exit 1; }
import sys; sys.path.insert(0,'/verif/runner'); sys.argv=['x','C01']
import check, os
if os.environ.get('HALT'):
    os.system('mkdir -p /tmp/halt/.build; rm -rf /tmp/halt/harness; cp -r /verif/harness /tmp/halt/; sed -i s,/repo,%s, /tmp/halt/harness/Cargo.toml' % os.environ['HALT'])
    check.VERIF = '/tmp/halt'; check.BUILD = '/tmp/halt/.build'
a=check.build_harness(sys.argv[1] if 0 else open('/proc/self/cmdline').read().split('\0')[-2], 'release'); print(a[0])
P
LL=$(tail -1 /tmp/ll.txt); rm -rf /tmp/o
timeout 900 .build/engine/release/symx --ll $LL --entry $E --params $P --out /tmp/o --jobs ${J:-8} --time 300 "$@" 2>&1 | tail -5 | sed -E 's/"entry".*"paths"/"paths"/; s/"max_query_us.*"violations"/"violations"/'
cat /tmp/o/viol-* 2>/dev/null | grep VIOL | sort | uniq -c | head -20
