#!/bin/bash
# survey.sh CHECK [seed] [extra args]: groups all failures; summary on stdout, details in /tmp/CHECK.out
c=$1; s=${2:-1}; shift 2
VERIF_SURVEY=1 python3 /verif/checks/$c.py --seed $s --no-evidence --keep-going --workers ${WORKERS:-3} "$@" 2>/tmp/$c.err >/tmp/$c.out
tail -1 /tmp/$c.out; grep -A1 SURVEY /tmp/$c.out | grep -v ^-- | cut -c1-${W:-240}; tail -3 /tmp/$c.err
