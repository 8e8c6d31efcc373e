#!/usr/bin/env python3
"""tools/cover.py OUT [ID...]: which lines of /repo/include the (sequential) harnesses execute. Each unit runs
for a few seconds only. Writes OUT/<header>.txt with a count per line; used to find API the checks do not reach."""
import os, subprocess, sys, glob, threading, queue, time
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')); sys.path.insert(0, H)
import checks
out = os.path.abspath(sys.argv[1]); os.makedirs(out, exist_ok=True); ids = sys.argv[2:] or sorted(checks.CHECKS)
jobs = {}
for i in ids:
    for j in checks.CHECKS[i]['jobs']:
        if j.get('kind', 'asan') in ('mc', 'mcnd') or 'quick' not in j.get('tiers', ('quick',)): continue
        k = (j['src'], tuple(f for f in j['flags'] if f != '-O0')); jobs.setdefault(k, set()).update(j.get('only', ['']))
q = queue.Queue(); [q.put((n, k, v)) for n, (k, v) in enumerate(sorted(jobs.items()))]
def w():
    while True:
        try: n, (src, flags), only = q.get_nowait()
        except queue.Empty: return
        b = '%s/b%d' % (out, n)
        subprocess.run(['clang++', '-std=c++20', '-w', '-O0', '-g1', '-pthread', '-fprofile-instr-generate', '-fcoverage-mapping', '-I/repo/include', '-I' + H + '/lib', '-I' + H + '/harness', *flags, H + '/harness/' + src, '-o', b], check=True)
        for l in subprocess.check_output([b, 'list', 'quick'], text=True).splitlines():
            u, s = l.split()
            if not any(u.startswith(o) for o in only): continue
            for sh in {0, int(s) // 2, int(s) - 1}:
                subprocess.run(['timeout', '60', b, 'run', 'quick', u, str(sh), b + '.o'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, VX_DEADLINE=str(time.time() + 4), LLVM_PROFILE_FILE='%s.%s.%d.profraw' % (b, u, sh)))
ts = [threading.Thread(target=w) for _ in range(8)]; [t.start() for t in ts]; [t.join() for t in ts]
raw = glob.glob(out + '/*.profraw')
open(out + '/raw.txt', 'w').write('\n'.join(raw))
subprocess.check_call(['llvm-profdata-18', 'merge', '-sparse', '-f', out + '/raw.txt', '-o', out + '/all.prof'])
for r in raw: os.unlink(r)
bins = sorted(glob.glob(out + '/b*[0-9]'))
tot = {}
for b in bins: # per binary: keep the largest count of each line
    t = subprocess.run(['llvm-cov-18', 'export', '-format=lcov', '-instr-profile', out + '/all.prof', b], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
    f = None
    for l in t.splitlines():
        if l.startswith('SF:'): f = l[3:]
        elif l.startswith('DA:') and f and '/repo/include/' in f:
            a, c = l[3:].split(',')[:2]; d = tot.setdefault(f, {}); d[int(a)] = max(d.get(int(a), 0), int(c))
for f, d in tot.items():
    with open(out + '/' + os.path.basename(f) + '.txt', 'w') as o:
        for n, l in enumerate(open(f), 1):
            c = d.get(n); o.write('%5d %-7s| %s' % (n, '' if c is None else ('####' if c == 0 else 'x'), l))
