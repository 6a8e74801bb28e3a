#!/bin/bash
# run checks, show slow cases and problems only
cd /verif
for p in "$@"; do
timeout ${TMO:-600} python3 check.py $p -v $ARGS | awk -v s=${SLOW:-4} '/VIOL/{v++; if(v<8)print substr($0,1,'${W:-250}');next} /ERR/{e++; if(e<6)print substr($0,1,1200);next} /^  replay/{next} /violated:/{next} /^  /{if($2+0>s)print substr($0,1,150);next} {print}'
done
