#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]

Decides one property on /repo's current working tree:
  1. extracts the functions the property depends on from clang's AST of the current sources, generates their proof
     obligations against the contracts in vc/spec_*.py and discharges them (z3),
  2. replays concrete inputs against the real code (rt/*.cpp): when an obligation fails, to find a failing input; and in
     any case as a safety net for what the contracts assume.
Exit 0: held.  Exit 1 and a VIOLATION line: broken.
"""
import os, sys, time, json, subprocess, tempfile, shutil, signal, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVID', os.path.join(HERE, 'evidence'))
import replay_plan

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    limit = 540 if tier == 'quick' else 2400
    tmp = tempfile.mkdtemp(prefix='brv-')
    try:
        return check(prop, tier, seed, t0, t0 + limit, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(prop, tier, seed, t0, deadline, tmp):
    import prover, units
    plan = replay_plan.PLAN.get(prop, [])
    builder = None
    if plan:
        builder = subprocess.Popen([sys.executable, os.path.join(HERE, 'rt', 'build.py'), REPO, tmp] + sorted({h for h, _ in plan}),
                                   stdout=open(os.path.join(tmp, 'build.log'), 'w'), stderr=subprocess.STDOUT)
    us = [u for u in units.UNITS if prop in u.props]
    results = prover.run(us, deadline, rlimit=4000000 if tier == 'quick' else 20000000)
    own, sup, unsup, vac, late = [], [], [], [], {}
    n = d = 0
    back, fns, assume, loops = {}, set(), set(), 0
    for r in results:
        assume |= set(r['assumptions'])
        fns |= set(r['functions'])
        loops += len(r['loops'])
        if r['status'] != 'ok':
            unsup.append((r['unit'], r.get('reason', '')))
        for o in r['obligations']:
            if o['kind'] == 'vacuity':
                if o['status'] == 'unsat':
                    vac.append((r['unit'], o))
                continue
            mine = prop in o['tags']
            n += mine
            if o['status'] == 'unsat':
                d += mine
                if mine:
                    back[o['by']] = back.get(o['by'], 0) + 1
            elif o['detail'] == 'time budget of the run exhausted':
                late[r['unit']] = late.get(r['unit'], 0) + 1
            elif mine:
                own.append((r['unit'], o))
            else:
                sup.append((r['unit'], o))
    for u, k in late.items():
        unsup.append((u, '%d obligations not tried: the time budget of the run was exhausted' % k))
    for u, o in vac:
        unsup.append((u, 'the precondition of the contract became unsatisfiable'))
    t_proof = time.time() - t0
    # ---------------------------------------------------------------- replay on the real code
    found, rep_out, rep_stat = None, '', []
    if plan:
        builder.wait()
        blog = open(os.path.join(tmp, 'build.log')).read()
        effort = 'search' if (own or sup or unsup) else tier
        found, rep_out, rep_stat = replay_plan.run(prop, plan, tmp, seed, effort, blog)
    vdir = os.path.join(EVID, 'replay')
    os.makedirs(vdir, exist_ok=True)
    rpath = os.path.join(vdir, prop + '.txt')
    verdict, line = 0, None
    def obl_text():
        s = ''
        for u, o in own + sup:
            s += 'FAILED OBLIGATION [%s] %s\n    in %s at %s; properties %s; kind %s\n    solver: %s (%s)\n' % (u, o['name'], o['fn'], o['loc'], ','.join(o['tags']), o['kind'], o['status'], o['detail'])
        for u, why in unsup:
            s += 'NOT VERIFIED [%s] %s\n' % (u, why)
        return s
    if found:
        verdict = 1
        open(rpath, 'w').write('property %s is broken on the current tree of %s\n\n%s\nrerun: %s\n\n%s' % (prop, REPO, obl_text(), found, rep_out))
        line = 'VIOLATION property=%s replay=%s' % (prop, rpath)
    elif own:
        verdict = 1
        open(rpath, 'w').write('property %s: obligations not discharged on the current tree of %s; no failing input was found by the replay\n\n%s\nreplay search:\n%s\n' % (prop, REPO, obl_text(), '\n'.join(map(str, rep_stat))))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath)
    else:
        open(rpath, 'w').write('property %s held\n%s\n%s\n' % (prop, obl_text(), '\n'.join(map(str, rep_stat))))
    complete = not own and not sup and not unsup and n > 0
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if n else 'exploration',
              coverage=dict(obligations=n, discharged=d, checker_cmd='python3-vt check.py %s %s' % (prop, tier),
                            functions_under_contract=sorted(fns), loops_with_inferred_invariants=loops,
                            discharged_by=back, units=[dict(unit=r['unit'], status=r['status'], reason=r.get('reason', ''), obligations=len(r['obligations']), generation_s=round(r['gen_s'], 2), solver_s=round(r['solve_s'], 2)) for r in results],
                            supporting_obligations_not_discharged=[o['name'] for _, o in sup], not_verified=[list(x) for x in unsup],
                            failed_obligations=[o['name'] for _, o in own],
                            proof_complete=complete,
                            trusted_base=sorted(assume) + replay_plan.TRUSTED,
                            bounded_replay=rep_stat,
                            evaluations=sum(x.get('evaluations', 0) for x in rep_stat if isinstance(x, dict)),
                            bounded_note='the replay part is bounded (counts above) and is not counted as proved'),
              wall_s=round(time.time() - t0, 2), proof_s=round(t_proof, 2))
    if not n:
        ev['coverage'].update(distinct_nontrivial=ev['coverage']['evaluations'], rule='every generated case is distinct by seed', samples=[str(x) for x in rep_stat][:3])
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations of the property discharged (%d units, %.0f s); supporting not discharged: %d; not verified: %d; replay: %s' % (
        prop, d, n, len(results), t_proof, len(sup), len(unsup), rep_stat))
    for u, o in (own + sup)[:12]:
        print('  failed obligation [%s] %s (%s) %s' % (u, o['name'], o['loc'], ','.join(o['tags'])))
    for u, why in unsup[:12]:
        print('  not verified [%s] %s' % (u, why))
    if line:
        print(line)
    return verdict

if __name__ == '__main__':
    sys.exit(main())
