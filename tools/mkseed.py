"""seed(id, prop, edits, demo, needs, breaks): writes seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json).
edits: list of (file, old text, new text); demo: C++ source, exit code 0 on the unchanged tree."""
import os, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seed(sid, prop, edits, demo, needs, breaks, flags='', demo_sh=None):
    d = os.path.join(HERE, 'seeded', sid); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mks', dir='/tmp')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL)
        subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', t + '/r'])
        for f, a, b in edits:
            p = os.path.join(t, 'r', 'include/gtl', f); s = open(p).read()
            assert s.count(a) == 1, '%s: %s occurs %d times in %s' % (sid, a[:60], s.count(a), f)
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True)
    finally: shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(demo_sh or '''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
clang++ -std=c++20 -w -O1 -g -pthread %s -I include "$here/demo.cpp" -o "$t/demo" && timeout 250 "$t/demo"
rc=$?
rm -f "$t/demo"; rmdir "$t"
exit $rc
''' % flags)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
