#!/bin/bash
# tools/r.sh ID RUN : replay run number verbosely (no rebuild)
printf 'property %s\nseed %s\nrun %s\nthorough 0\n' $1 ${SEED:-1} $2 > /tmp/r_$1_$2.replay
/verif/.build/$1/sim --dldir /verif/.build/$1 --replay /tmp/r_$1_$2.replay --verbose 2>&1
