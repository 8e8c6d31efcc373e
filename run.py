#!/usr/bin/env python3
"""run.py ID [quick|thorough]   decides one property on /repo's working tree.

Compiles the harnesses of the property against /repo/include, runs all shards of all their units
on all cores, confirms every reported violation by replaying its choice list alone, writes
evidence/ID.json.  Exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the check itself could not run."""
import sys, os, json, time, subprocess, shutil, threading, queue, array, signal, struct, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
REPO = os.environ.get('GTL_REPO', '/repo')
EVID = os.environ.get('VX_EVID', os.path.join(HERE, 'evidence'))  # tools/mutate.py keeps its runs apart
NCPU = int(os.environ.get('VX_JOBS', os.cpu_count() or 8))
STALL_CPU = float(os.environ.get('VX_STALL', 20))
TICK = os.sysconf('SC_CLK_TCK')

ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1:alloc_dealloc_mismatch=1:strict_init_order=0:quarantine_size_mb=8:malloc_context_size=8'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
ENV['LC_ALL'] = 'C'

def die(msg):
    print('ERROR: ' + msg); sys.stdout.flush(); sys.exit(2)

def cpu_of(pid):
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / TICK
    except OSError:
        return None

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

class Build:
    def __init__(self, pid, tier):
        self.dir = os.path.join(EVID if 'VX_EVID' in os.environ else HERE, 'build', '%s-%s-%d' % (pid, tier, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
    def cmd(self, job):
        return checks.compile_cmds(job, HERE, REPO, self.dir)
    def build(self, jobs):
        q = queue.Queue(); errs = []
        for j in jobs: q.put(j)
        def w():
            while True:
                try: j = q.get_nowait()
                except queue.Empty: return
                for c in self.cmd(j):
                    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
                    if r.returncode:
                        errs.append((j, c, r.stdout)); break
        ts = [threading.Thread(target=w) for _ in range(NCPU)]
        [t.start() for t in ts]; [t.join() for t in ts]
        return errs

class Proc:
    """runs one shard, watching progress"""
    def __init__(self, argv, trace, stall, out, wall=None):
        self.argv, self.trace, self.stall, self.out, self.wall = argv, trace, stall, out, wall
        self.rc = None; self.hang = False
    def run(self, stop):
        with open(self.out, 'wb') as f:
            p = subprocess.Popen(self.argv, stdout=f, stderr=subprocess.STDOUT, env=ENV, preexec_fn=limits)
        last, last_cpu, last_t = None, 0.0, time.time()
        delay = 0.01
        while True:
            try:
                self.rc = p.wait(timeout=delay); return
            except subprocess.TimeoutExpired: pass
            delay = min(delay * 2, 0.5)
            if stop.is_set():
                p.kill(); p.wait(); self.rc = None; return
            prog = None
            if self.trace:
                try:
                    with open(self.trace, 'rb') as t: prog = t.read(16)
                except OSError: pass
            cpu = cpu_of(p.pid)
            if cpu is None: continue
            if prog != last:
                last, last_cpu, last_t = prog, cpu, time.time()
            elif cpu - last_cpu > self.stall or time.time() - last_t > 6 * self.stall + 60:
                self.hang = True
                p.kill(); p.wait(); self.rc = -9; return

def read_trace(path):
    try: b = open(path, 'rb').read()
    except OSError: return None
    steps, execs, ln, _ = struct.unpack('<QQII', b[:24])
    ch = array.array('H'); ch.frombytes(b[24:24 + 2 * ln])
    return ','.join(map(str, ch))

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    spec = checks.CHECKS[pid]
    ENV['VX_DEADLINE'] = str(t0 + float(os.environ.get('VX_BUDGET', 600 if tier == 'quick' else 6 * 3600)))
    b = Build(pid, tier)
    try:
        rc = go(pid, tier, spec, b, t0)
    finally:
        shutil.rmtree(b.dir, ignore_errors=True)
        try: os.rmdir(os.path.join(HERE, 'build'))
        except OSError: pass
    sys.exit(rc)

def go(pid, tier, spec, b, t0):
    jobs = [j for j in spec['jobs'] if tier in j.get('tiers', ('quick', 'thorough'))]
    for i, j in enumerate(jobs): j['bin'] = os.path.join(b.dir, 'h%d' % i)
    errs = b.build(jobs)
    rdir = os.path.join(EVID, 'replay'); os.makedirs(rdir, exist_ok=True)
    if errs:
        j, c, o = errs[0]
        # is it the library's headers that do not even parse, or a missing tool: no answer
        hdrs = ['phmap.hpp', 'btree.hpp', 'vector.hpp', 'bit_vector.hpp', 'lru_cache.hpp', 'memoize.hpp', 'intrusive.hpp', 'soa.hpp']
        src = ''.join('#include <gtl/%s>\n' % h for h in hdrs)
        r = subprocess.run(['clang++', '-std=c++20', '-fsyntax-only', '-w', '-I' + REPO + '/include', '-xc++', '-'], input=src, text=True, capture_output=True)
        print(o[-4000:])
        if r.returncode: die('headers of the repository do not compile')
        rp = os.path.join(rdir, pid + '.txt')
        open(rp, 'w').write('A use of the public interface no longer compiles.\n%s\n\n%s\n' % (' '.join(c), o))
        evidence(pid, tier, spec, t0, jobs, [], set(), 1, ['compile error'], False)
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    t_build = time.time() - t0
    # enumerate shards
    work = []
    for j in jobs:
        r = subprocess.run([j['bin'], 'list', tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        if r.returncode: print(r.stdout); die('cannot list units of ' + j['src'])
        for l in r.stdout.split('\n'):
            if l.strip():
                n, s = l.split()
                if 'only' in j and not any(n.startswith(x) for x in j['only']): continue
                for k in range(int(s)): work.append((j, n, k))
    # interleave: long units (many shards) first
    q = queue.Queue()
    cnt = {}
    for j, n, k in work: cnt[(j['bin'], n)] = cnt.get((j['bin'], n), 0) + 1
    for i, w in enumerate(sorted(work, key=lambda w: -cnt[(w[0]['bin'], w[1])])): q.put((i, w))
    stop = threading.Event(); results = []; bad = []; lock = threading.Lock()
    def worker():
        while not stop.is_set():
            try: i, (j, n, k) = q.get_nowait()
            except queue.Empty: return
            out = os.path.join(b.dir, 'r%d' % i)
            p = Proc([j['bin'], 'run', tier, n, str(k), out], out + '.trace', STALL_CPU, out + '.log')
            p.run(stop)
            if p.rc is None: return
            with lock:
                if p.rc == 0 and not p.hang:
                    try:
                        results.append((j, n, k, json.load(open(out)), out)); continue
                    except Exception: pass
                bad.append((j, n, k, p, out)); stop.set()
    ts = [threading.Thread(target=worker) for _ in range(NCPU)]
    [t.start() for t in ts]; [t.join() for t in ts]
    st = set(); known = load_known(pid); viol = []
    for r in results:
        try:
            a = array.array('Q'); a.frombytes(open(r[4] + '.states', 'rb').read())
            if len(st) < 6000000: st.update(a)
        except OSError: pass
    if bad:
        bad.sort(key=lambda x: x[3].rc != 1)
        for j, n, k, p, out in bad:
            log = open(out + '.log', errors='replace').read()
            if p.rc == 3: print(log[-3000:]); die('harness error in unit %s' % n)
            choices = None
            if os.path.exists(out + '.viol'):
                l = open(out + '.viol').read().split('\n'); choices = l[1]; msg = l[0]
            else:
                choices = read_trace(out + '.trace')
                msg = 'no progress (hang)' if p.hang else 'crash or sanitizer report (exit %s)' % p.rc
            if choices is None: print(log[-3000:]); die('shard died without a trace: rc=%s' % p.rc)
            # confirm alone
            ro = os.path.join(b.dir, 'replay.log')
            rp = Proc([j['bin'], 'replay', tier, n, choices], None, 3 * STALL_CPU, ro)
            rp.run(threading.Event())
            rlog = open(ro, errors='replace').read()
            confirmed = rp.hang or rp.rc not in (0, 3)
            how = 'replayed alone'
            if not confirmed:
                # state accumulated over the shard may be needed: run the whole shard again
                p2 = Proc([j['bin'], 'run', tier, n, str(k), out + 'x'], out + 'x.trace', 2 * STALL_CPU, out + 'x.log')
                p2.run(threading.Event())
                confirmed = p2.hang or p2.rc not in (0, 3)
                how = 'whole shard re-run'
            if not confirmed:
                print(log[-3000:]); print(rlog[-2000:]); die('a reported violation did not reproduce')
            path = os.path.join(rdir, pid + '.txt')
            with open(path, 'w') as f:
                f.write('property %s\nunit %s (harness/%s %s)\nviolation: %s (%s)\nchoices: %s\n' % (pid, n, j['src'], ' '.join(j.get('flags', [])), msg, how, choices))
                f.write('replay: python3 %s/replay.py %s\n\n--- replay log ---\n%s\n--- original log ---\n%s\n' % (HERE, path, rlog[-20000:], log[-20000:]))
                f.write('\n' + json.dumps(dict(job={x: j[x] for x in j if x != 'bin'}, tier=tier, unit=n, choices=choices)) + '\n')
            print('%s: unit %s: %s' % (pid, n, msg)); print(rlog[-1500:])
            viol.append(n)
            evidence(pid, tier, spec, t0, jobs, results, st, len(viol), viol, False)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    samples = []
    byunit = {}
    for r in results: byunit.setdefault((r[0]['bin'], r[1]), r)
    keys = sorted(byunit)
    for key in ([keys[0], keys[len(keys) // 2], keys[-1]] if len(keys) > 2 else keys):
        r = byunit[key]
        ro = os.path.join(b.dir, 'sample.log')
        p = Proc([r[0]['bin'], 'replay', tier, r[1], r[3]['sample']], None, 30, ro); p.run(threading.Event())
        txt = open(ro, errors='replace').read().split('\n')
        samples.append({'unit': r[1], 'choices': r[3]['sample'][:400], 'execution': [l for l in txt if l][:40]})
    ex = all(r[3]['exhaustive'] for r in results)
    evidence(pid, tier, spec, t0, jobs, results, st, 0, [], ex, samples, t_build)
    n = sum(r[3]['execs'] for r in results)
    print('%s %s: %d executions, %d steps, %d distinct states, %d units%s, build %.1fs, total %.1fs' % (
        pid, tier, n, sum(r[3]['steps'] for r in results), len(st), len(byunit), '' if ex else ' (time cap hit)', t_build, time.time() - t0))
    return 0

def load_known(pid):
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % pid): out.append(l.split(' ', 2)[2].strip())
    return out

def evidence(pid, tier, spec, t0, jobs, results, st, nviol, viol, ex, samples=None, t_build=0):
    per = {}
    for j, n, k, r, _ in results:
        d = per.setdefault(n, dict(executions=0, transitions=0, shards=0, exhaustive=True))
        d['executions'] += r['execs']; d['transitions'] += r['steps']; d['shards'] += 1
        d['exhaustive'] = d['exhaustive'] and r['exhaustive']
    cov = dict(states=len(st), transitions=sum(r[3]['steps'] for r in results),
               traces_validated_against_impl=sum(r[3]['execs'] for r in results),
               samples=samples or [{'violations': viol}], exhaustive=bool(ex), bounds=spec.get('bounds', ''), units=per,
               longest_choice_sequence=max([r[3]['maxlen'] for r in results] or [0]),
               note='every execution is an execution of the real code, compared step by step with the reference; states = distinct hashes of observed container states')
    e = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', 1)), level='model_checking', coverage=cov,
             assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f: json.dump(e, f, indent=1)

if __name__ == '__main__':
    main()
