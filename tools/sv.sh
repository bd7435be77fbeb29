#!/bin/bash
# sv.sh CHECK SEED...: survey + reduce; the reduced specs go to /tmp/CHECK.SEED.N.json
cd /verif
for s in "${@:2}"; do
tools/survey.sh $1 $s --scale ${SCALE:-1} 2>&1 | grep -v "^ "| cut -c1-260
grep -E '^ +\{' /tmp/$1.out > /tmp/$1.sp; [ -s /tmp/$1.sp ] && timeout 600 python3 tools/reduce.py $1 < /tmp/$1.sp > /tmp/$1.red 2>&1; [ -s /tmp/$1.sp ] && cut -c1-1200 /tmp/$1.red
n=0; [ -s /tmp/$1.sp ] && grep -E '^ +\{' /tmp/$1.red | while read -r l; do echo "$l" > /tmp/$1.$s.$n.json; n=$((n+1)); done
done
