#!/usr/bin/env python3
"""mutate.py FILE PROP[,PROP...] [-n N] [-j J] [-budget S]: plants one-token changes in a scratch
copy of /repo and reports which of them the checks miss. An aid for finding blind spots; no check uses it."""
import argparse, random, re, shutil, subprocess, os, sys, concurrent.futures as cf

ap = argparse.ArgumentParser()
ap.add_argument('file'); ap.add_argument('props'); ap.add_argument('-n', type=int, default=40)
ap.add_argument('-j', type=int, default=4); ap.add_argument('-budget', type=int, default=120)
ap.add_argument('-from', dest='lo', type=int, default=0); ap.add_argument('-to', dest='hi', type=int, default=10**9)
a = ap.parse_args()
SW = [(r'<=', ['<']), (r'>=', ['>']), (r'(?<![<\-=])<(?![=\-<])', ['<=', '>']), (r'(?<![>=\-])>(?![=>])', ['>=', '<']),
      (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']), (r' \+ ', [' - ']), (r' - ', [' + ']),
      (r' \* ', [' / ']), (r' / ', [' * ']), (r'\+= ', ['-= ']), (r'-= ', ['+= ']), (r'\b\d+(\.\d+)?\b', ['N']), (r'math\.Max', ['math.Min']),
      (r'math\.Min', ['math.Max']), (r'ta\.Max', ['ta.Min']), (r'ta\.Min', ['ta.Max']), (r'\bSma\(', ['Ema(']), (r'\bEma\(', ['Sma(']),
      (r'utils\.Buy', ['utils.Sell']), (r'\bcontinue\b', ['']), (r'\bbreak\b', ['']), (r'(?<=[a-z]\[)i(?=\])', ['i-1'])]
src = open(os.path.join('/repo', a.file)).read().split('\n')
muts = []
for i, l in enumerate(src):
    if not a.lo <= i + 1 <= a.hi: continue
    s = l.strip()
    if s.startswith('//') or s.startswith('import') or '"' in l or not s or s.startswith('package') or s.startswith('type'): continue
    code = l.split('//')[0]
    for pat, reps in SW:
        for m in re.finditer(pat, code):
            for r in reps:
                if r == 'N':
                    t = m.group(0)
                    r = str(int(t) + 1) if '.' not in t else str(float(t) + 0.25)
                muts.append((i, code[:m.start()] + r + code[m.end():]))
random.seed(1)
random.shuffle(muts)
muts = sorted(muts[:a.n])

def work(args):
    k, (i, new) = args
    d = '/tmp/mw/w%d_%d' % (os.getpid(), k)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/verif')
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    for x in ('engine', 'harness', 'known_findings.json'):
        subprocess.run(['cp', '-a', '/verif/' + x, d + '/verif/'], check=True)
    t = list(src); t[i] = new
    open(d + '/repo/' + a.file, 'w').write('\n'.join(t))
    env = dict(os.environ, GOFLAGS='-mod=readonly -buildvcs=false', PATH='/usr/lib/go-1.22/bin:' + os.environ['PATH'])
    res = None
    p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; cd %s/repo && go build ./...' % d], capture_output=True, text=True)
    if p.returncode: res = 'nobuild'
    else:
        for pr in a.props.split(','):
            q = subprocess.run([d + '/verif/engine/symgo', '-property', pr, '-repo', d + '/repo', '-verif', d + '/verif', '-workers', '2', '-budget', str(a.budget)], capture_output=True, text=True)
            if q.returncode == 1 and 'VIOLATION property=' in q.stdout: res = 'killed ' + pr; break
            tail = (q.stdout.strip().split('\n') or [''])[-1][:160] if q.returncode in (0, 1) else (q.stderr + q.stdout)[-200:]
        else: res = 'SURVIVED rc=%d %s' % (q.returncode, tail)
    shutil.rmtree(d, ignore_errors=True)
    return k, res
n = {}
with cf.ThreadPoolExecutor(a.j) as ex:
    for k, res in ex.map(work, enumerate(muts)):
        w = res.split()[0]; n[w] = n.get(w, 0) + 1
        if w == 'SURVIVED':
            i, new = muts[k]
            print('%s:%d\n  - %s\n  + %s\n  %s' % (a.file, i + 1, src[i].strip(), new.strip(), res), flush=True)
print(a.file, n)
