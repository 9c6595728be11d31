#!/usr/bin/env python3-vt
"""tools/mkhints.py [unit substrings]: records, for every loop of the units, which candidate invariants hold on /repo's
current tree into vc/hints.json (see prover.hints_of).  Run by hand on the unchanged tree only."""
import sys, os, json, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'vc'))
sys.setrecursionlimit(20000)
import units, extract, engine
P = os.path.join(HERE, 'vc', 'hints.json')
d = json.load(open(P)) if os.path.exists(P) else {}
sel = [u for u in units.UNITS if not sys.argv[1:] or any(a in u.name for a in sys.argv[1:])]
for u in sel:
    prog = extract.load(*units.GROUPS[u.group])
    engine.Engine.HINTS, engine.Engine.REC = None, {}
    t = time.time()
    u.fn(prog)
    t = time.time() - t
    r = engine.Engine.REC
    d.pop(u.name, None)
    if r and t > 3:
        d[u.name] = {k: sorted(v) for k, v in sorted(r.items())}
    print(u.name, '%.1f s' % t, len(r), sum(map(len, r.values())), flush=True)
    json.dump(d, open(P, 'w'), indent=0, sort_keys=True)
