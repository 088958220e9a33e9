#!/bin/bash
# soak.sh SEEDFROM SEEDTO PROP... : runs quick checks with other seeds, prints only violations
a=$1; b=$2; shift 2
for s in $(seq $a $b); do for p in "$@"; do VERIF_SEED=$s "$(dirname "$0")"/../.build/bin/harness check $p >/tmp/soak.$p.$s 2>&1 || { echo "seed $s $p exit $?"; grep -a VIOLATION /tmp/soak.$p.$s | cut -c1-300; }; done; done
