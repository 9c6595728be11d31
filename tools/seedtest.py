"""seedtest.py [--tests] [--prop P] SEED...: apply seeds in scratch copies of /repo and run the checks of their property there."""
import sys, os, subprocess, shutil, json, tempfile, time
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors='replace')
args = sys.argv[1:]
tests = '--tests' in args
props = None
if '--prop' in args:
    i = args.index('--prop'); props = args[i + 1].split(','); del args[i:i + 2]
args = [a for a in args if a != '--tests']
for s in args or sorted(os.listdir(VER + '/seeded')):
    tmp = tempfile.mkdtemp(prefix='seedt-', dir='/tmp')
    try:
        r = tmp + '/repo'
        sh('cp -a /repo ' + r)
        rc, o = sh('git apply %s/seeded/%s/patch.diff' % (VER, s), r)
        if rc:
            print(s, 'PATCH DOES NOT APPLY', o); continue
        meta = json.load(open('%s/seeded/%s/meta.json' % (VER, s)))
        for p in props or [meta['property']]:
            t = time.time()
            env = dict(os.environ, VERIF_REPO=r, VERIF_EVID=tmp + '/ev')
            rc, o = sh('python3-vt %s/check.py %s' % (VER, p), VER, env)
            last = [l for l in o.strip().split('\n') if l.startswith('VIOLATION')]
            print(s, p, 'rc', rc, (last or ['quiet'])[0].replace(tmp, ''), '%.0fs' % (time.time() - t), flush=True)
            for l in o.strip().split('\n'):
                if l.startswith('  ') : print('   ', l[:220])
            if rc not in (0, 1): print(o[-2000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
