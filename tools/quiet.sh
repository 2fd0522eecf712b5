#!/bin/bash
L=$1; shift
for d in "$@"; do echo "== $(basename $d)"; CMH_SHARDS=4 /verif/tools/lab.sh /tmp/lab/$L $d ${IDS:-$(seq -f C%02g 1 32)}; done
