#!/usr/bin/env python3
"""replay.py PATH   rebuilds the harness named at the end of a replay file and runs its choice list alone, verbosely."""
import sys, os, json, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import checks, run
d = json.loads([l for l in open(sys.argv[1]).read().split('\n') if l.strip()][-1])
with tempfile.TemporaryDirectory() as t:
    j = dict(d['job']); j['bin'] = os.path.join(t, 'h')
    for c in checks.compile_cmds(j, HERE, run.REPO, t): subprocess.check_call(c)
    sys.exit(subprocess.call([j['bin'], 'replay', d['tier'], d['unit'], d['choices']], env=run.ENV))
