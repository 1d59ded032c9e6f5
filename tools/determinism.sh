#!/bin/bash
# Runs the same seeds in processes with different histories and compares the event logs.
# usage: determinism.sh BINARY PROP SEED0 COUNT
d=$(mktemp -d)
exe=$1; p=$2; s=$3; n=$4
$exe run $p $s 1 $n 0 $d/s1 >/dev/null &
for k in 0 1 2; do $exe run $p $((s+k)) 3 $((n/3)) 0 $d/t$k >/dev/null & done
for k in 0 1 2 3 4 5 6; do $exe run $p $((s+k)) 7 $((n/7)) 0 $d/u$k >/dev/null & done
wait
python3 - $d <<'P'
import struct,sys,glob
d=sys.argv[1]
ref=dict(struct.iter_unpack("<QQ",open(d+"/s1.trace","rb").read()))
same=diff=0
for f in glob.glob(d+"/[tu]*.trace"):
    for k,v in struct.iter_unpack("<QQ",open(f,"rb").read()):
        if k in ref:
            if ref[k]==v: same+=1
            else:
                diff+=1
                if diff<4: print("differs",k,f)
print("same",same,"different",diff)
P
rm -r "$d"
