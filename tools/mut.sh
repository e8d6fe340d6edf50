#!/bin/bash
# dev aid: mut.sh PROP file 'sed-expr' [units...]: run a property's units on a mutated scratch copy
d=$(mktemp -d /tmp/mut_XXXX); cp -a /repo/src /repo/inc $d/
sed -i "$3" $d/$2; diff -u /repo/$2 $d/$2 | head -20
p=$1; shift 3
VF_REPO=$d python3 /verif/vf/vf.py unit $p "$@"
find "$d" -delete
