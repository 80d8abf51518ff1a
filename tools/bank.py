#!/usr/bin/env python3
"""Development helper: a bank of hand-written breakages, hunted by the harnesses.
  bank.py OUT SLOTS SECS BANKFILE... [only=regex]
Bank format:   ## name C01,C02      (checks to try, in this order; hit when one reports a violation)
               @@ path
               <<<  old text  ===  new text  >>>   (each marker on a line of its own; several blocks allowed)
"""
import os, re, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('BANK_REPO', '/repo')
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace')
def load(files):
    out = []
    for f in files:
        cur = None; path = None; mode = None
        for l in open(f):
            if mode is None and l.startswith('## '): n, p = l[3:].split(); cur = (n, p.split(','), []); out.append(cur)
            elif mode is None and l.startswith('@@ '): path = l[3:].strip()
            elif l.rstrip() == '<<<': mode = 'o'; o = []; n = []
            elif l.rstrip() == '===' and mode == 'o': mode = 'n'
            elif l.rstrip() == '>>>' and mode == 'n': cur[2].append((path, ''.join(o), ''.join(n))); mode = None
            elif mode == 'o': o.append(l)
            elif mode == 'n': n.append(l)
    return out
def main():
    outp, slots, secs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]); only = None; files = []
    for a in sys.argv[4:]:
        if a.startswith('only='): only = a[5:]
        else: files.append(a)
    q = queue.Queue(); head = sh('git -C %s rev-parse HEAD' % R).stdout.strip()
    for b in load(files):
        if only and not re.search(only, b[0]): continue
        ok = True
        for p, o, n in b[2]:
            c = open(os.path.join(R, p)).read().count(o)
            if c != 1: print('BAD PATTERN', b[0], p, c); ok = False
        if ok: q.put(b)
    print(q.qsize(), 'entries', flush=True); lock = threading.Lock(); log = open(outp, 'a'); stat = {'hit': 0, 'quiet': 0, 'nocompile': 0}
    def slot(k):
        w = '/tmp/w/mut%d' % (k + int(os.environ.get('BANK_SLOT0', 0)))
        if not os.path.exists(w): sh('git -C %s worktree add --detach %s HEAD' % (R, w))
        sh('git -C %s checkout -q -- .; git -C %s checkout -q --detach %s' % (w, w, head))
        nw = int(os.environ.get("BANK_NW", 0)) or max(1, 8 // slots); env = dict(os.environ, VERIF_REPO=w, VERIF_BUILD='/tmp/w/mutbld%d' % (k + int(os.environ.get('BANK_SLOT0', 0))), VERIF_NW=str(nw), VERIF_CPU0=str(k * nw))
        while True:
            try: name, ps, edits = q.get_nowait()
            except queue.Empty: return
            res = []
            for p, o, n in edits:
                t = open(os.path.join(w, p)).read(); open(os.path.join(w, p), 'w').write(t.replace(o, n, 1))
            try:
                for pr in ps:
                    try: r = subprocess.run(['python3', V + '/verif.py', 'hunt', pr, str(secs)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace', timeout=900)
                    except subprocess.TimeoutExpired: res.append('timeout'); continue
                    o = r.stdout
                    if r.returncode == 1: res.append('hit ' + pr + ' ' + o.strip()[-200:]); break
                    if 'ompilation' in o or 'linking' in o: res.append('nocompile ' + o[-600:]); break
                    res.append('quiet ' + pr + ' ' + o.strip()[-100:])
            finally: sh('git -C %s checkout -q -- .' % w)
            last = res[-1] if res else ''; kind = 'hit' if last.startswith('hit') else 'nocompile' if last.startswith('nocompile') else 'quiet'
            with lock: stat[kind] += 1; log.write('%s %s | %s\n' % (kind.upper(), name, '; '.join(res))); log.flush(); print(stat, q.qsize(), flush=True)
    th = [threading.Thread(target=slot, args=(k,)) for k in range(slots)]
    [t.start() for t in th]; [t.join() for t in th]; print('done', stat)
main()
