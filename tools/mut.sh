#!/bin/bash
# mut.sh PROP FILE 'python-expr old' 'new': run the property's contracts on a changed copy of /repo
# usage: mut.sh PROP module.py OLD NEW [--only X]
P=$1; F=$2; O=$3; N=$4; shift 4
rm -rf /tmp/x/m; mkdir -p /tmp/x; cp -a /repo /tmp/x/m
python3 - "$F" "$O" "$N" <<'P' || exit 2
import sys
p="/tmp/x/m/atrcopy/"+sys.argv[1]; s=open(p).read(); o=sys.argv[2].encode().decode("unicode_escape"); n=sys.argv[3].encode().decode("unicode_escape")
assert o in s, "old text not found"
open(p,"w").write(s.replace(o,n,1))
P
VERIF_REPO=/tmp/x/m python3-vt -B -m pyvc.run $P "$@"
