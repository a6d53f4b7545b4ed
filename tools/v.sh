#!/bin/bash
# tools/v.sh ID FILE : replay verbosely (no rebuild)
/verif/.build/$1/sim --dldir /verif/.build/$1 --replay $2 --verbose 2>&1
