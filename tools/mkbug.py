#!/usr/bin/env python3
"""Development helper: bug definitions -> seeded/<id>/patch.diff + meta.json.
A definition file is python with calls  bug(id, prop, needs, breaks, [(file, old, new), ...], demo=..., cpp=...)."""
import json, os, subprocess, sys
V, R = '/verif', '/repo'
def bug(i, prop, needs, breaks, edits, cpp=None, sources='src/concurrent/*.cpp src/system/time_util.cpp src/system/syscall.cpp', sh=None, flags='', secs=60):
    d = '%s/seeded/%s' % (V, i); os.makedirs(d, exist_ok=True)
    assert subprocess.run('git -C %s status --porcelain' % R, shell=True, stdout=subprocess.PIPE, encoding='utf-8', errors='replace').stdout.strip() == ''
    try:
        for f, old, new in edits:
            p = os.path.join(R, f); s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run('git -C %s diff' % R, shell=True, stdout=subprocess.PIPE, encoding='utf-8', errors='replace').stdout
    finally: subprocess.run('git -C %s checkout -- .' % R, shell=True, stderr=subprocess.DEVNULL)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if cpp: open(d + '/demo.cpp', 'w').write(cpp)
    if sh is None:
        sh = '''#!/bin/bash
# exit 0: behaves as specified; nonzero: broken.  Run with cwd = the repository, after its build.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
srcs=$(ls %s | grep -v _test.cpp)
mkdir -p "$t/x/y"; cp build/src/pfi-config.h "$t"
CPLUS_INCLUDE_PATH=/usr/include/postgresql g++ -std=c++11 -O1 -g -w %s -Isrc -I"$t/x/y" -o "$t/demo" "$here/demo.cpp" $srcs -lpthread || exit 2
timeout -k 5 %d "$t/demo"
''' % (sources, flags, secs)
    open(d + '/demo.sh', 'w').write(sh)
for f in sys.argv[1:]: exec(open(f).read())
