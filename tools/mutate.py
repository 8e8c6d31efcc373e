#!/usr/bin/env python3
"""tools/mutate.py HEADER STEP [OFFSET] [LO-HI] -- ID...   mechanical mutants of one header (operators, constants, deleted statements),
every STEP-th one, each judged by the quick checks ID... until one reports it. Development aid: lists the mutants nobody reports.
Scratch copies live under /tmp/mut and are removed."""
import os, re, subprocess, sys, shutil, threading, queue
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
a = sys.argv[1:]; i = a.index('--'); head, ids = a[:i], a[i + 1:]
hdr, step = head[0], int(head[1]); off = int(head[2]) if len(head) > 2 else 0
lo, hi = map(int, head[3].split('-')) if len(head) > 3 else (1, 10 ** 9)
PAR = int(os.environ.get('MUT_PAR', 3)); VJ = os.environ.get('VX_JOBS', '3')
src = open('/repo/include/gtl/' + hdr).read().split('\n')
base = set(subprocess.run(['git', '-C', '/repo', 'show', 'd3a7fb9:include/gtl/' + hdr], capture_output=True, text=True).stdout.split('\n'))
R = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
     (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<=\()!(?=\w)', ''), (r'\+\+', '--'), (r'(?<!-)--', '++'),
     (r'UniqueLock', 'SharedLock'), (r'\+=', '-='), (r'-=', '+='), (r' >> ', ' << '), (r' << ', ' >> '), (r' & ', ' | '), (r' \| ', ' & '), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\.begin\(\)', '.end()'), (r'std::min\b', 'std::max'), (r'std::max\b', 'std::min')]
muts = []; infn = False
for n, l in enumerate(src, 1):
    if not lo <= n <= hi: continue
    s = l.strip(); code = l.split('//')[0]
    if not s or s.startswith(('//', '#', '*', '/*', 'template', 'static_assert', 'assert', 'using', 'typename', 'friend', 'typedef')) or l not in base or 'requires' in s or 'constexpr bool' in s or 'enable_if' in s: continue
    for p, r in R:
        for m in re.finditer(p, code):
            x = code[:m.start()] + r + code[m.end():]
            muts.append((n, x, l))
    if re.match(r'^[\w:>.\-()*&\[\]+ ,<]+(\(.*\)|=.*|\+\+|--);$', s) and not s.startswith(('return', 'using', 'auto', 'const', 'size_t', 'static', 'explicit', 'virtual', 'inline')) and '= default' not in s and '= delete' not in s and not re.match(r'^[\w:<>]+ [\w]+[ ;({=]', s):
        muts.append((n, '', l))
sel = muts[off::step]; print('%d mutants, %d selected' % (len(muts), len(sel))); sys.stdout.flush()
q = queue.Queue(); [q.put(m) for m in enumerate(sel)]; lock = threading.Lock(); cnt = {}
def w(t):
    while True:
        try: k, (n, x, l) = q.get_nowait()
        except queue.Empty: return
        d = '/tmp/mut/%d-%d' % (os.getpid(), t); shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo/include', d + '/include')
        z = list(src); z[n - 1] = x; open(d + '/include/gtl/' + hdr, 'w').write('\n'.join(z))
        res = 'SURVIVED'
        for c in ids:
            r = subprocess.run(['python3', H + '/run.py', c, 'quick'], env=dict(os.environ, GTL_REPO=d, VX_JOBS=VJ, VX_STALL='5', VX_EVID=d + '/ev'), capture_output=True, text=True)
            if r.returncode == 1: res = 'compile' if 'error:' in r.stdout and ' generated.' in r.stdout else 'killed ' + c; break
            if r.returncode == 2: res = 'compile' if 'do not compile' in r.stdout else 'NOANSWER ' + c + ' ' + r.stdout[-300:].replace('\n', ' | '); break
        with lock:
            cnt[res.split()[0]] = cnt.get(res.split()[0], 0) + 1
            if res.split()[0] in ('SURVIVED', 'NOANSWER'): print('%s %s:%d\n   - %s\n   + %s' % (res, hdr, n, l.strip(), x.strip()))
            if k % 20 == 0: print('...', k, cnt)
            sys.stdout.flush()
        shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=w, args=(t,)) for t in range(PAR)]; [t.start() for t in ts]; [t.join() for t in ts]
print('done', cnt)
