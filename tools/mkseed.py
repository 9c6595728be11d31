"""mkseed.py NAME: turn tools/seedkit/NAME.py into seeded/NAME (patch, demo, meta), confirming it in a scratch copy.
A seed file defines: prop, needs, breaks, edits = [(file, old, new)], demo (C++ text)."""
import sys, os, subprocess, shutil, json, runpy, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VER = os.path.dirname(HERE)
def sh(cmd, cwd=None, **k):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode(errors='replace')
def main(name, full=True):
    m = runpy.run_path(os.path.join(HERE, 'seedkit', name + '.py'))
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        r = os.path.join(tmp, 'repo')
        sh('git -C /repo worktree list; cp -a /repo %s' % r)
        for f, old, new in m['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) < 1:
                print(name, 'EDIT DOES NOT APPLY', f); return 1
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        rc, diff = sh('git diff', r)
        out = os.path.join(VER, 'seeded', name)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.cpp'), 'w').write(m['demo'])
        if '"demo.h"' in m['demo']:
            shutil.copy(os.path.join(HERE, 'seedkit', 'demo.h'), out)
        shutil.copy(os.path.join(HERE, 'seedkit', 'demo.sh'), out)
        json.dump(dict(property=m['prop'], needs=m['needs'], what_it_breaks=m['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        rc1, o1 = sh('bash %s/demo.sh' % out, r)
        rc0, o0 = sh('bash %s/demo.sh' % out, '/repo')
        print(name, 'demo unchanged rc', rc0, 'patched rc', rc1)
        if rc0 != 0: print(o0[-1500:])
        if rc1 == 0 or rc1 == 2: print(o1[-1500:])
        print(o1.strip().split('\n')[-1])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
for n in sys.argv[1:]:
    main(n)
