import sys, os, json, shutil
sys.path.insert(0, '/verif/tools')
import plant
P='include/ode_num_int/'
DEMO_SH='''#!/bin/bash
# Compiles the demonstration against the headers of the tree in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++14 -O0 -w %s -I "$d" -Iinclude -o "$t/demo" "$d/demo.cpp" %s || exit 3
cd "$t" && timeout 120 ./demo
'''
def bug(bid, prop, needs, breaks, edits, demo, srcs='', helper=True, flags='-D_DEBUG'):
    d=os.path.join(plant.SEEDED,bid); os.makedirs(d,exist_ok=True)
    plant.new(bid,[(P+f if not f.startswith('src/') else f,o,n) for f,o,n in edits])
    open(d+'/demo.cpp','w').write(demo)
    if helper: shutil.copy('/verif/tools/demo.h', d+'/demo.h')
    if not srcs: srcs='src/PerTypeStorage.cpp src/OpaqueTickCounter.cpp src/TimerCalibrator.cpp' 
    open(d+'/demo.sh','w').write(DEMO_SH%(flags,srcs))
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    print('made',bid)
