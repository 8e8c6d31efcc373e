#!/usr/bin/env python3
"""setup_cmd: the toolchain is there and the explorer enumerates what it should."""
import os, subprocess, sys, tempfile, shutil
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
d = tempfile.mkdtemp()
try:
    src = os.path.join(d, 't.cpp')
    open(src, 'w').write('#include "vx.hpp"\nvoid reg(){ vx::add("u",1,1,[](vx::Ctx&c){ int s=0; for(int i=0;i<4;++i){ s=s*3+c.choose(3); c.step(); } c.state(s+1000); }); }\nVX_MAIN(reg)\n')
    subprocess.check_call(['clang++', '-std=c++20', '-O1', '-w', '-fsanitize=address,undefined', '-I' + os.path.join(H, 'lib'), src, '-o', os.path.join(d, 't')])
    subprocess.check_call([os.path.join(d, 't'), 'run', 'quick', 'u', '0', os.path.join(d, 'o')])
    import json
    r = json.load(open(os.path.join(d, 'o')))
    assert r['execs'] == 81 and r['states'] == 81 and r['steps'] == 324 and r['exhaustive'], r
    # the controlled scheduler passes its good programs and reports every bad one
    sys.path.insert(0, H); import checks
    b = os.path.join(d, 'm')
    for c in checks.compile_cmds(dict(src='mc_self.cpp', kind='mc', bin=b), H, '/repo', d): subprocess.check_call(c)
    units = [l.split()[0] for l in subprocess.check_output([b, 'list', 'quick'], text=True).splitlines()]
    for u in units:
        r = subprocess.run([b, 'run', 'quick', u, '0', b + '.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        good = r.returncode == 0 if u.startswith('ok-') else r.returncode == 1 and 'FAIL' in r.stdout
        assert good, (u, r.returncode, r.stdout)
    print('selftest ok,', len(units), 'scheduler programs')
finally:
    shutil.rmtree(d)
