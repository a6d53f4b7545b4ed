#!/usr/bin/env python3
"""mkdemo.py ID PROPERTY NEEDS BREAKS < script body: writes seeded/ID/{demo.sh,meta.json}; a body whose first line is C++ gets demo.cpp."""
import sys, os, json
i, p, n, b = sys.argv[1:5]
body = sys.stdin.read()
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
sh, _, cpp = body.partition('=== demo.cpp\n')
if not cpp and sh.lstrip().startswith('#include'):
    sh, cpp = 'prog\n', sh
H = '''#!/bin/bash
# %s
HERE=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export ALTA_PLUGIN_PATH=$R/_build/plugins OMP_WAIT_POLICY=passive
S=$R/_build/softs
build() { g++ -fopenmp -O1 -g -w -std=gnu++11 -I"$R/external/build" -I"$R/sources" -I/usr/include/eigen3 -I"$R/external" -isystem /opt/vp/include "$HERE/${1:-demo.cpp}" "$R/_build/lib/libcore.a" -o "$W/${2:-demo}" -ldl -lz -llz4 -rdynamic -pthread || { echo "the demonstration does not build"; exit 3; }; }
'''
if cpp:
    open(d + '/demo.cpp', 'w').write(cpp)
sh = sh.replace('prog\n', 'build; cd "$W"; timeout 250 ./demo >out 2>&1; r=$?; tail -2 out; exit $r\n') if sh == 'prog\n' else sh
open(d + '/demo.sh', 'w').write(H % b + sh)
json.dump({'property': p, 'needs': n, 'what_it_breaks': b}, open(d + '/meta.json', 'w'), indent=1)
