#!/bin/bash
# run.sh BASE_TREE FIXED_TREE : shows each case failing on the first and passing on the second
W=$(mktemp -d); D=$(dirname "$(realpath "$0")")
for t in base:$1: fixed:$2:-DFIXED; do IFS=: read n p d <<<"$t"
 g++ -std=c++17 -g -w -fsanitize=address,undefined -fno-sanitize=vptr -include cstdint $d -I$p/include -I$p/src -DDATA_DIR='""' "$D/demo.cpp" $p/src/Layers/*.cpp -o $W/$n -lpthread || exit 1; done
for c in dim view dot mean alias print rot2 stride stridegrad nonsquare kernelstrideio small actgrad actio poolio connload softmaxslot batch badlabel expect empty savefail abs model; do
 (cd $W; ./base $c $W/f >/dev/null 2>&1); a=$?; (cd $W; ./fixed $c $W/f >$W/log 2>&1); b=$?; echo "$c base=$a fixed=$b"; [ $b = 0 ] || tail -5 $W/log; done
rm -r "$W"
