"""Runs verification units in parallel processes and discharges their obligations."""
import os, sys, time, json, pickle, traceback, signal, select
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

CFGS = ('noext', 'ematch', 'rel0', 'default')

def _discharge(e, obls, rlimit, deadline):
    import engine
    out = []
    for i, o in obls:
        t = time.time()
        st, by, detail = 'unknown', None, []
        if o.status in ('trivial', 'unsat'):
            st, by = 'unsat', 'simplifier' if o.status == 'trivial' else 'z3'
        elif time.time() > deadline:
            st, detail = 'unknown', ['time budget of the run exhausted']
        else:
            for cfg in (CFGS if o.kind != 'vacuity' else CFGS[:2]):
                r = engine.solve(e.axioms, o.pc, o.goal, cfg, rlimit)
                if r[0] == 'unsat':
                    st, by, detail = 'unsat', 'z3/' + cfg, []
                    break
                if r[0] == 'sat':
                    st = 'sat'
                detail.append('z3/%s: %s %s' % (cfg, r[0], r[1]))
                if r[0] == 'sat' and o.kind != 'vacuity':
                    break
        out.append((i, dict(name=o.name, tags=list(o.tags), loc=o.loc, fn=o.fn, kind=o.kind, status=st, by=by, detail='; '.join(detail), time=round(time.time() - t, 3))))
    return out

def _child(fn):
    """Run fn in a forked process; returns (pid, fd)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            res = fn()
        except BaseException as ex:
            res = ('error', '%s: %s' % (type(ex).__name__, ex), traceback.format_exc()[-3000:])
        try:
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r

def _gather(procs, deadline):
    """procs: {fd: (key, pid)} -> {key: result}; kills what is left at the deadline."""
    out, bufs = {}, {fd: b'' for fd in procs}
    while procs:
        left = deadline - time.time()
        if left <= 0:
            for fd, (k, pid) in procs.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                out[k] = ('timeout',)
            return out
        rs, _, _ = select.select(list(procs), [], [], min(left, 5))
        for fd in rs:
            d = os.read(fd, 1 << 20)
            if d:
                bufs[fd] += d
                continue
            k, pid = procs.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                out[k] = pickle.loads(bufs[fd])
            except Exception:
                out[k] = ('error', 'the process ended without a result', '')
    return out

_HINTS = None
def hints_of(name):
    """Committed hints: for every loop of the unit the names of the invariants that proved useful on the pinned tree.
    They only narrow what is tried; every invariant used is proved again.  When a unit fails with hints it is redone without."""
    global _HINTS
    if _HINTS is None:
        try:
            d = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hints.json')))
            _HINTS = {u: {l: set(v) for l, v in x.items()} for u, x in d.items()}
        except (OSError, ValueError):
            _HINTS = {}
        if os.environ.get('VC_HINTS') == '0':
            _HINTS = {}
    return _HINTS.get(name)

def failed(res):
    return res['status'] != 'ok' or any(o['status'] != 'unsat' for o in res['obligations'] if o['kind'] != 'vacuity')

def run_unit(u, prog, deadline, rlimit):
    import engine
    h = hints_of(u.name)
    if h:
        engine.Engine.HINTS = h
        res = run_unit1(u, prog, deadline, rlimit)
        engine.Engine.HINTS = None
        if not failed(res) or time.time() > deadline:
            return res
        if res['status'] == 'unsupported' and 'time budget' not in res.get('reason', '') and 'stabilise' not in res.get('reason', ''):
            return res
        t = res['gen_s'] + res['solve_s']
        res = run_unit1(u, prog, deadline, rlimit)
        res['hinted_s'] = t
        return res
    return run_unit1(u, prog, deadline, rlimit)

def run_unit1(u, prog, deadline, rlimit):
    import core, engine
    t0 = time.time()
    res = dict(unit=u.name, status='ok', obligations=[], assumptions=[], functions=[], loops=[], gen_s=0, solve_s=0)
    try:
        sys.setrecursionlimit(20000)
        engine.Engine.DEADLINE = deadline
        e = u.fn(prog)
    except core.Unsupported as ex:
        res['status'], res['reason'] = 'unsupported', str(ex)[:600]
        res['gen_s'] = time.time() - t0
        return res
    except RecursionError:
        res['status'], res['reason'] = 'unsupported', 'recursion too deep'
        return res
    except Exception as ex:
        res['status'], res['reason'] = 'unsupported', 'verifier: %s: %s' % (type(ex).__name__, ex)
        res['trace'] = traceback.format_exc()[-3000:]
        res['gen_s'] = time.time() - t0
        return res
    res['gen_s'] = time.time() - t0
    t1 = time.time()
    todo = [(i, o) for i, o in enumerate(e.obligations) if o.status not in ('trivial', 'unsat')]
    done = [(i, o) for i, o in enumerate(e.obligations) if o.status in ('trivial', 'unsat')]
    outs = _discharge(e, done, rlimit, deadline)
    k = min(8, (len(todo) + 19) // 20) if u.cost >= 5 else 1
    if k <= 1:
        outs += _discharge(e, todo, rlimit, deadline)
    else:
        procs = {}
        for c in range(k):
            part = todo[c::k]
            pid, fd = _child(lambda part=part: _discharge(e, part, rlimit, deadline))
            procs[fd] = (c, pid)
        got = _gather(procs, deadline + 60)
        for c in range(k):
            r = got.get(c)
            if isinstance(r, list):
                outs += r
            else:
                outs += [(i, dict(name=o.name, tags=list(o.tags), loc=o.loc, fn=o.fn, kind=o.kind, status='unknown', by=None, detail='time budget of the run exhausted' if r and r[0] == 'timeout' else str(r)[:300], time=0)) for i, o in todo[c::k]]
    outs.sort(key=lambda x: x[0])
    res['obligations'] = [o for _, o in outs]
    res['solve_s'] = time.time() - t1
    res['houdini_s'] = round(e.stats.get('houdini_time', 0), 2)
    res['assumptions'] = sorted(e.assumptions)
    res['functions'] = sorted(e.functions)
    res['loops'] = [str(l)[:400] for l in e.loopinfo]
    res['stats'] = dict(e.stats)
    return res

def run(units, deadline, rlimit=4000000, jobs=8):
    """Run all units; returns the list of their results."""
    import extract, units as U
    results = []
    groups = sorted({u.group for u in units})
    progs = {}
    for g in groups:
        try:
            files, extra = U.GROUPS[g]
            progs[g] = extract.load(files, extra)
        except Exception as ex:
            for u in units:
                if u.group == g:
                    results.append(dict(unit=u.name, status='unsupported', reason='extraction: %s' % str(ex)[:500], obligations=[], assumptions=[], functions=[], loops=[], gen_s=0, solve_s=0))
    todo = sorted([u for u in units if u.group in progs], key=lambda u: -u.cost)
    procs, bufs = {}, {}
    while todo or procs:
        while todo and len(procs) < jobs:
            u = todo.pop(0)
            pid, fd = _child(lambda u=u: run_unit(u, progs[u.group], deadline, rlimit))
            procs[fd] = (u, pid)
            bufs[fd] = b''
        rs, _, _ = select.select(list(procs), [], [], 5)
        if time.time() > deadline + 90:
            for fd, (u, pid) in list(procs.items()):
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                results.append(dict(unit=u.name, status='unsupported', reason='time budget exhausted', obligations=[], assumptions=[], functions=[], loops=[], gen_s=0, solve_s=0))
            procs.clear()
            for u in todo:
                results.append(dict(unit=u.name, status='unsupported', reason='time budget exhausted', obligations=[], assumptions=[], functions=[], loops=[], gen_s=0, solve_s=0))
            break
        for fd in rs:
            d = os.read(fd, 1 << 20)
            if d:
                bufs[fd] += d
                continue
            u, pid = procs.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                r = pickle.loads(bufs[fd])
            except Exception:
                r = None
            if not isinstance(r, dict):
                r = dict(unit=u.name, status='unsupported', reason='verifier process failed: %s' % (r,), obligations=[], assumptions=[], functions=[], loops=[], gen_s=0, solve_s=0)
            results.append(r)
    return results
