"""Which replay harness looks for failing inputs of which property, and how much."""
import os, subprocess, time

# property -> [(harness, mode)]
PLAN = {p: [('hist', p)] for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C16', 'C19', 'C20')}
PLAN.update({'C18': [('notif', 'C18')], 'C17': [('conf', 'C17')], 'C14': [('sock', 'C14')], 'C15': [('sock', 'C15')]})

TRUSTED = ['clang 18 front end (AST of the code that is compiled)', 'the VC generator vc/*.py and its models of the C++ standard library (vc/stl.py)',
           'z3 %s' % '4.x/5.x (python3-vt)', 'mathematical integers for counters below 2^60; containers hold fewer than 2^60 elements; memory allocation succeeds',
           'std::shared_ptr ownership: objects reachable from the broker are not freed while in use; no data races (the handler runs in one thread)']

AMOUNT = {'quick': (1, 1500, 15), 'thorough': (8, 20000, 150), 'search': (8, 6000, 60)}

def run(prop, plan, tmp, seed, effort, blog):
    """-> (rerun command or None, output, statistics)"""
    stat = []
    for h, mode in plan:
        exe = os.path.join(tmp, h)
        if not os.path.exists(exe):
            stat.append(dict(harness=h, status='could not be built', log=blog[-400:]))
            continue
        k, count, lim = AMOUNT[effort]
        if effort == 'search':
            k = min(k, os.cpu_count() or 8)
        procs = []
        for i in range(k):
            s = seed + i * 1000
            out = open(os.path.join(tmp, '%s.%d.out' % (h, i)), 'w+')
            procs.append((s, out, subprocess.Popen([exe, mode, str(s), str(count), str(lim)], stdout=out, stderr=subprocess.DEVNULL, cwd=tmp)))
        ev = 0
        hit = None
        for s, out, p in procs:
            try:
                rc = p.wait(timeout=lim * 3 + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -9
            out.seek(0)
            txt = out.read()
            out.close()
            if rc == 1 and 'FAILING' in txt and not hit:
                hit = ('rt/build.py %s DIR %s && DIR/%s %s %d %d %d' % ('/repo', h, h, mode, s, count, lim), txt)
            elif rc not in (0, 1):
                stat.append(dict(harness=h, status='ended with %d' % rc))
            for w in txt.split():
                if w.startswith('steps=') or w.startswith('cases='):
                    ev += int(w.split('=')[1])
        stat.append(dict(harness=h, mode=mode, processes=k, evaluations=ev, found=bool(hit)))
        if hit:
            return hit[0], hit[1][:20000], stat
    return None, '', stat
