#!/usr/bin/env python3
"""Development helper: make and confirm planted bugs.
  plant.py new ID PROP FILE 'needs' 'breaks' < python script editing text `s`   (writes seeded/ID/patch.diff, meta.json)
  plant.py confirm ID...   clean demo 0; patched: builds, stable tests pass, demo nonzero
  plant.py catch ID...     run the property's quick check against the patched tree
"""
import json, os, subprocess, sys
V = '/verif'; R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace', **k)
def clean(): sh('git -C %s checkout -- .' % R)
def demo(i):
    p = sh('rm -rf /tmp/demo_dir; cp -r %s/seeded/%s /tmp/demo_dir; rm -f /tmp/demo_dir/*.diff /tmp/demo_dir/meta.json; cd %s && timeout 300 bash /tmp/demo_dir/demo.sh' % (V, i, R)); return p
def base(): return json.load(open('/opt/vp/BASELINE.json'))
def main():
    a = sys.argv[1:]
    assert sh('git -C %s status --porcelain' % R).stdout.strip() == '', 'repo dirty'
    if a[0] == 'confirm':
        for i in a[1:]:
            ok = True
            d = demo(i)
            if d.returncode: print(i, 'demo fails on clean tree', d.stdout[-800:]); ok = False
            p = sh('git -C %s apply %s/seeded/%s/patch.diff' % (R, V, i))
            if p.returncode: print(i, 'apply', p.stdout); continue
            try:
                b = sh('bash /opt/vp/build.sh')
                if b.returncode: print(i, 'build', b.stdout[-1500:]); ok = False
                t = sh('bash /opt/vp/test.sh /tmp/t.json'); res = json.load(open('/tmp/t.json'))
                want = set(base()['stable'] if 'stable' in base() else base()['passed'])
                got = set(res.get('passed', []))
                if want - got: print(i, 'tests broken', list(want - got)[:5]); ok = False
                n = [demo(i).returncode for _ in range(3)]
                if 0 in n: print(i, 'demo passes with the patch', n); ok = False
            finally:
                clean(); sh('bash /opt/vp/build.sh')
            print(i, 'CONFIRMED' if ok else 'BAD', flush=True)
    if a[0] == 'catch':
        for i in a[1:]:
            m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
            p = sh('git -C %s apply %s/seeded/%s/patch.diff' % (R, V, i))
            if p.returncode: print(i, 'apply', p.stdout); continue
            try: c = sh('cd %s && VERIF_TIER=quick VERIF_SEED=1 python3 verif.py check %s' % (V, m['property']))
            finally: clean()
            print(i, m['property'], 'CAUGHT' if c.returncode == 1 else 'MISSED rc=%d' % c.returncode, c.stdout[:300].replace('\n', ' | '), flush=True)
main()
