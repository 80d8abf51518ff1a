#!/usr/bin/env python3
"""Development helper: automatic mutants of /repo's sources against the checks.
  mutate.py OUT SLOTS SECS file=C01,C02 file=C05 ...
Each mutant is built in a scratch worktree and hunted by each property's harness until one reports a violation.
Survivors are written to OUT for inspection (most are equivalent or outside the properties).
"""
import os, re, subprocess, sys, threading, queue, random, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('MUT_REPO', '/repo')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace', **k)
OPS = [(r'<=', ['<']), (r'>=', ['>']), (r'(?<![<>=!\-:])<(?![<=])', ['<=']), (r'(?<![<>\-:=])>(?![>=])', ['>=']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\bnotify_all\b', ['notify']), (r'\bwhile\b', ['if']), (r'\+\+', ['--']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r' \+ | \+|\+ ', [' - ']), (r'-1\b', ['0']), (r'(?<=[\w\)])-(?=[\w\(])', ['+']), (r'(?<=[\w\)])\+(?=[\w\(\d])', ['-']), (r'\bif ?\(!', ['if(']), (r'\bif ?\((?!!)', ['if(!']), (r'\*1000\b', ['*1001']), (r'\bbreak;', ['']), (r'\bcontinue;', [''])]
def mutants(f):
    L = open(os.path.join(R, f)).read().split('\n'); out = []; com = False
    for i, l in enumerate(L):
        s = l.strip()
        if i < 31 or not s or s.startswith(('//', '#', 'using ', 'namespace', 'template', 'typedef', 'class ', 'struct ', 'public', 'private', 'protected', 'friend', '*', '/*', '}', 'static const')): continue
        def add(new, what): 
            if new != l: out.append((f, i, l, new, what))
        if s.endswith(';') and not re.match(r'(return|[\w:<>,&\* ]+ \w+;|virtual|explicit|const |static |extern)', s): add(re.sub(r'\S.*', ';', l), 'delete')
        code = l.split('//')[0]
        if '"' in code and 'std::' in code and '<' in code: continue
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if re.search(r'(template|include|cast<|vector<|map<|pair<|ptr<|function<|set<|list<|operator|iterator|Allocator)', code) and pat[-1] in '<>=)' and ('<' in m.group(0) or '>' in m.group(0)): continue
                for r in reps: add(code[:m.start()] + r + code[m.end():], '%s->%s' % (m.group(0), r))
    return out
def main():
    outp, slots, secs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]); q = queue.Queue(); todo = []
    for a in sys.argv[4:]:
        f, ps = a.split('='); ms = mutants(f); cap = None
        if ':' in ps: ps, cap = ps.split(':')
        random.Random(7).shuffle(ms)
        if cap: ms = ms[:int(cap)]
        todo += [(m, ps.split(',')) for m in ms]
    for t in todo: q.put(t)
    print(len(todo), 'mutants', flush=True); lock = threading.Lock(); stat = {'hit': 0, 'quiet': 0, 'nocompile': 0}; log = open(outp, 'a')
    def slot(k):
        k += int(os.environ.get("MUT_SLOT0", 0))
        w = '/tmp/w/mut%d' % k
        if not os.path.exists(w): sh('git -C %s worktree add --detach %s HEAD' % (R, w))
        sh('git -C %s checkout -q --detach %s; git -C %s checkout -q -- .' % (w, sh('git -C %s rev-parse HEAD' % R).stdout.strip(), w))
        nw = int(os.environ.get("MUT_NW", max(1, 8 // slots))); env = dict(os.environ, VERIF_REPO=w, VERIF_BUILD='/tmp/w/mutbld%d' % k, VERIF_NW=str(nw), VERIF_CPU0=str(k * nw))
        while True:
            try: (f, i, old, new, what), ps = q.get_nowait()
            except queue.Empty: return
            p = os.path.join(w, f); txt = open(p).read(); L = txt.split('\n'); assert L[i] == old; L[i] = new; open(p, 'w').write('\n'.join(L)); res = []
            try:
                for pr in ps:
                    try: r = subprocess.run(['python3', V + '/verif.py', 'hunt', pr, str(secs)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace', timeout=400)
                    except subprocess.TimeoutExpired: res.append('timeout'); continue
                    o = r.stdout
                    if r.returncode == 1: res.append('hit ' + pr + ' ' + o.strip()[-160:]); break
                    if 'ompilation' in o or 'linking' in o or 'undefined reference' in o: res.append('nocompile'); break
                    res.append('quiet ' + pr + ' ' + o.strip()[-100:])
            finally: open(p, 'w').write(txt)
            last = res[-1]; kind = 'hit' if last.startswith('hit') else 'nocompile' if last == 'nocompile' else 'quiet'
            with lock:
                stat[kind] += 1; log.write('%s %s:%d [%s] %s  =>  %s | %s\n' % (kind.upper(), f, i + 1, what, old.strip(), new.strip(), last if kind != 'quiet' else '; '.join(res))); log.flush(); print(stat, q.qsize(), flush=True)
    th = [threading.Thread(target=slot, args=(k,)) for k in range(slots)]
    [t.start() for t in th]; [t.join() for t in th]; print('done', stat)
main()
