"""Contract of broker_handler::remove_workers: workers leave, their jobs are given to others or reported FAILED.

Ghost state (sets of requests, updated by the contracts of the queue manager and by the monitor of `respond`):
  limbo  taken from the queue manager with a lost worker and neither offered again nor reported yet
  gone   taken from the queue manager with a lost worker     lostc  was the current job of a lost worker
  V, I   list and position in which a request of `gone` was returned     term  workers that were removed
"""
import z3
from core import *
import core
from engine import Val, LV, St, Obligation, Closure, IterV, simp
import spec_qm, spec_handler, loops
from spec_handler import rsel, Handler, qabs, absinv, BA, IA, KEYT, KEYC, MC, WK, RQ, CH

VT = ('vec', ('ptr', RQ))
NAME = 'remove_workers'

def find_method(prog):
    ds = [d for d in prog.find('broker_handler::' + NAME) if prog.body(d) is not None]
    if len(ds) != 1:
        raise Unsupported('broker_handler::%s not found' % NAME)
    ps = [p for p in ds[0].inner if p.kind == 'ParmVarDecl']
    if len(ps) != 2:
        raise Unsupported('parameters of broker_handler::%s' % NAME)
    return ds[0], ps

def post_forms(h, st0, s, a, b, tr, reg0, reg1, G, hyp):
    """[(name, tags, formula)]: what remove_workers guarantees.  hyp: written as hypotheses (with patterns) for callers."""
    e = h.e
    w, r, i, j = z3.Int('w!p'), z3.Int('r!p'), z3.Int('i!p'), z3.Int('j!p')
    inr = lambda i, v: z3.And(0 <= i, i < v['len'])
    ta, ra0, ra1 = tr['arr'], reg0['arr'], reg1['arr']
    h0, h1, rep, mF, mA, gone, lostc = [G[k] for k in ('h0', 'h1', 'rep', 'mF', 'mA', 'gone', 'lostc')]
    out = []
    def c(name, tags, f):
        out.append((name, tags, f))
    P = lambda *ps: dict(patterns=list(ps))
    c('only registered workers remain', ('C09', 'C19'), z3.ForAll([w], z3.Implies(b.W(w), a.W(w)), **P(b.W(w))))
    c('the given workers are removed', ('C09', 'C19'), z3.ForAll([j], z3.Implies(inr(j, tr), z3.Not(b.W(ta[j]))), **P(ta[j])))
    c('no other workers are removed', ('C09', 'C19'), z3.ForAll([w], z3.Implies(z3.And(a.W(w), z3.Not(b.W(w))), z3.Exists([j], z3.And(inr(j, tr), ta[j] == w))), **P(a.W(w))))
    c('the jobs of the remaining workers stay', ('C01', 'C02', 'C09'), z3.ForAll([w], z3.Implies(z3.And(b.W(w), a.cur(w) != 0), b.cur(w) == a.cur(w)), **P(b.cur(w), a.cur(w))))
    c('jobs that were not taken from the queue with a lost worker go on waiting', ('C01', 'C09'), z3.ForAll([r], z3.Implies(z3.And(a.Q(r), z3.Not(gone[r])), b.Q(r)), **P(a.Q(r))))
    c('no job is lost: it is held or its final status was reported', ('C01', 'C09'), z3.ForAll([r], z3.Implies(h0[r], z3.Or(h1[r], rep[r])), **P(h0[r])))
    c('a job whose final status was reported is not held', ('C07', 'C01'), z3.ForAll([r], z3.Implies(rep[r], z3.And(h0[r], z3.Not(h1[r]))), **P(rep[r])))
    c('no job is created', ('C02',), z3.ForAll([r], z3.Implies(h1[r], h0[r]), **P(h1[r])))
    c('only lost jobs are reported', ('C07', 'C09'), z3.ForAll([r], z3.Implies(rep[r], gone[r]), **P(rep[r])))
    c('the monitor is told ABORTED exactly about lost jobs that are offered to the workers again', ('C20',), z3.ForAll([r], z3.Implies(h0[r], mA[r] == z3.And(gone[r], h1[r])), **P(h0[r])))
    c('the monitor is told FAILED exactly about lost jobs that are given up', ('C20', 'C08'), z3.ForAll([r], z3.Implies(h0[r], mF[r] == z3.And(gone[r], rep[r])), **P(h0[r])))
    fc0, fc1 = h.fc(st0, r), h.fc(s, r)
    c('the loss of its worker counts as one failed attempt of the job and of no other job', ('C08',), z3.ForAll([r], z3.Implies(h0[r], fc1 == fc0 + z3.If(lostc[r], 1, 0)), **P(h0[r])))
    c('the current job of a removed worker is lost', ('C08', 'C09'), z3.ForAll([w], z3.Implies(z3.And(a.W(w), z3.Not(b.W(w)), a.cur(w) != 0), z3.And(lostc[a.cur(w)], gone[a.cur(w)])), **P(a.cur(w))))
    c('only current jobs of removed workers are charged', ('C08',), z3.ForAll([r], z3.Implies(lostc[r], z3.And(a.W(a.H(r)), z3.Not(b.W(a.H(r))), a.cur(a.H(r)) == r)), **P(lostc[r])))
    comp = h.complete(st0, r)
    c('a lost job of unknown content is reported FAILED', ('C08',), z3.ForAll([r], z3.Implies(z3.And(gone[r], h0[r], z3.Not(comp)), rep[r]), **P(gone[r])))
    c('a lost job that failed too often is reported FAILED', ('C08',), z3.ForAll([r], z3.Implies(z3.And(gone[r], h0[r], fc1 >= h.max_fail), rep[r]), **P(gone[r])))
    c('a lost job is given up only if its content is unknown, it failed too often or no remaining worker can run it', ('C08', 'C03', 'C01'), z3.ForAll([r, w], z3.Implies(z3.And(rep[r], comp, fc1 < h.max_fail, b.W(w)), z3.Not(CH(e, s, w, r))), patterns=[z3.MultiPattern(rep[r], b.W(w))]))
    c('exactly the removed workers leave the registry', ('C19', 'C09'), z3.ForAll([i], z3.Implies(inr(i, reg1), b.W(ra1[i])), **P(ra1[i])))
    return out

def inv_hyp(self, s):
    """The invariant of the handler without liveness, in a form fit for hypotheses and goals."""
    e = self.e
    a, reg = qabs(e, s), self.reg(s)
    w, i = z3.Int('w!i'), z3.Int('i!i')
    wa = reg['arr']
    out = []
    for nm, tags, f in self.inv(s, True):
        if 'liveness' in nm:
            continue
        if nm == 'every worker of the queue manager is in the registry':
            f = z3.ForAll([w], z3.Implies(a.W(w), z3.Exists([i], z3.And(0 <= i, i < reg['len'], wa[i] == w), patterns=[wa[i]])), patterns=[a.W(w)])
        if nm == 'no two registered workers have the same identity':
            k = z3.Int('k!i')
            f = z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < reg['len'], 0 <= k, k < reg['len'], self.ident(s, wa[i]) == self.ident(s, wa[k])), i == k), patterns=[z3.MultiPattern(wa[i], wa[k])])
        out.append((nm, tags, f))
    return out


KEEP = (('nOK', 'no success is reported', ('C07',)), ('nCl', 'no client is sent anything', ('C05',)), ('nErr', 'no error is reported', ('C07',)), ('pend', 'every assigned job has been sent', ('C01', 'C02', 'C10')))

class Remove(Handler):
    track = True
    def __init__(self, prog, name):
        super().__init__(prog, name)
        for g in ('limbo', 'gone', 'lostc', 'term', 'isv'):
            self.st.vars['g:' + g] = z3.K(Int, z3.BoolVal(False))
        for g in ('V', 'I'):
            self.st.vars['g:' + g] = z3.Const(g + '0', IA)

    # ------------------------------------------------------------ ghost updates
    def setdef(self, st, k, body, pats=()):
        """The ghost set k becomes {r | body(old, r)}."""
        e = self.e
        old = e.gget(st, k)
        new = fresh_const(old.sort(), k)
        r = z3.Int('r!g')
        ps = [new[r]] + ([old[r]] if z3.is_const(old) and old.decl().kind() == z3.Z3_OP_UNINTERPRETED else [])
        st.pc.append(z3.ForAll([r], new[r] == body(lambda q: simp(old[q]), r), patterns=ps))
        e.gset(st, k, new)
        return new

    def after_qm(self, st, op, a, b, x, n):
        super().after_qm(st, op, a, b, x, n)
        e = self.e
        g = lambda k: e.gget(st, k)
        if op == 'enqueue_request':
            R, ok = x['r'], x['enqueued']
            e.oblige(st, z3.And(g('limbo')[R], self.fc(st, R) < self.max_fail, self.complete(st, R)), 'only lost jobs of known content that did not fail too often are offered to the workers again', ('C08', 'C02'), n, 'monitor')
            self.setdef(st, 'limbo', lambda o, r: z3.And(o(r), z3.Not(z3.And(r == R, ok))))
        if op == 'worker_terminated':
            W, vp, v = x['w'], x['vecp'], x['vec']
            cur = a.cur(W)
            lost = fresh_const(BA, 'lostnow')
            r, k = z3.Int('r!g'), z3.Int('k!g')
            st.pc.append(z3.ForAll([r], lost[r] == z3.Or(z3.And(r == cur, r != 0), z3.And(a.Q(r), z3.Not(b.Q(r)))), patterns=[lost[r]]))
            pos = fresh_const(IA, 'posnow')
            st.pc.append(z3.ForAll([r], z3.Implies(lost[r], z3.And(0 <= pos[r], pos[r] < v['len'], v['arr'][pos[r]] == r)), patterns=[lost[r]]))
            st.pc.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v['len']), z3.And(lost[v['arr'][k]], pos[v['arr'][k]] == k)), patterns=[v['arr'][k]]))
            self.setdef(st, 'limbo', lambda o, r: z3.Or(o(r), lost[r]))
            self.setdef(st, 'gone', lambda o, r: z3.Or(o(r), lost[r]))
            self.setdef(st, 'lostc', lambda o, r: z3.Or(o(r), z3.And(r == cur, r != 0)))
            self.setdef(st, 'V', lambda o, r: z3.If(lost[r], vp, o(r)))
            self.setdef(st, 'I', lambda o, r: z3.If(lost[r], pos[r], o(r)))
            e.gset(st, 'term', z3.Store(g('term'), W, True))
            e.gset(st, 'isv', z3.Store(g('isv'), vp, True))

    def after_term(self, st, term, idt, n):
        h0 = self.held0
        self.setdef(st, 'limbo', lambda o, r: z3.And(o(r), z3.Not(z3.And(term, h0[r], self.jid(self.st0, r) == idt))))

    # ------------------------------------------------------------ invariants offered to the loops
    def hv(self, s):
        return self.e.heap_of(s, self.e.tkey(VT))

    def common(self):
        """[(name, formula of a state)] true at the head of every loop of the function."""
        e, st0 = self.e, self.st0
        a0, h0 = self.a, self.held0
        w, r, k, i = z3.Int('w!c'), z3.Int('r!c'), z3.Int('k!c'), z3.Int('i!c')
        out = []
        def c(name, f):
            out.append((name, f))
        G = lambda s, k: e.gget(s, k)
        q = lambda s: qabs(e, s)
        A = lambda vs, f, *p: z3.ForAll(vs, f, patterns=list(p))
        I = z3.Implies
        for ix in range(5):
            c('queue manager %d' % ix, lambda s, ix=ix: absinv(e, s, q(s))[ix])
        c('nothing pending', lambda s: G(s, 'pend') == 0)
        for k_, _, _ in KEEP[:3]:
            c('%s unchanged' % k_, lambda s, k_=k_: G(s, k_) == e.gget(st0, k_))
        held = lambda s, r: q(s).held(r)
        c('held by', lambda s: A([w], I(z3.And(q(s).W(w), q(s).cur(w) != 0), q(s).H(q(s).cur(w)) == w), q(s).cur(w)))
        c('workers', lambda s: A([w], q(s).W(w) == z3.And(a0.W(w), z3.Not(G(s, 'term')[w])), q(s).W(w), a0.W(w)))
        c('jobs of remaining workers', lambda s: A([w], I(z3.And(q(s).W(w), a0.cur(w) != 0), q(s).cur(w) == a0.cur(w)), q(s).cur(w), a0.cur(w)))
        c('no new jobs of workers', lambda s: A([w], I(q(s).W(w), q(s).cur(w) == a0.cur(w)), q(s).cur(w), a0.cur(w)))
        c('waiting jobs stay', lambda s: A([r], I(z3.And(a0.Q(r), z3.Not(G(s, 'gone')[r])), q(s).Q(r)), a0.Q(r)))
        c('waiting jobs are old', lambda s: A([r], I(q(s).Q(r), h0[r]), q(s).Q(r)))
        c('waiting jobs are old ones', lambda s: A([r], I(q(s).Q(r), a0.Q(r)), q(s).Q(r)))
        c('assigned jobs are old', lambda s: A([w], I(z3.And(q(s).W(w), q(s).cur(w) != 0), h0[q(s).cur(w)]), q(s).cur(w)))
        c('where jobs are', lambda s: A([r], I(h0[r], z3.Or(held(s, r), G(s, 'rep')[r], G(s, 'limbo')[r])), h0[r]))
        c('limbo 1', lambda s: A([r], I(G(s, 'limbo')[r], z3.And(h0[r], G(s, 'gone')[r])), G(s, 'limbo')[r]))
        c('limbo 2', lambda s: A([r], I(G(s, 'limbo')[r], z3.And(z3.Not(q(s).Q(r)), z3.Not(G(s, 'rep')[r]), z3.Not(G(s, 'mA')[r]))), G(s, 'limbo')[r]))
        c('limbo 3', lambda s: A([w], I(z3.And(q(s).W(w), q(s).cur(w) != 0), z3.And(z3.Not(G(s, 'limbo')[q(s).cur(w)]), z3.Not(G(s, 'rep')[q(s).cur(w)]))), q(s).cur(w)))
        c('reported 1', lambda s: A([r], I(G(s, 'rep')[r], z3.And(h0[r], G(s, 'gone')[r], G(s, 'mF')[r], z3.Not(q(s).Q(r)), z3.Not(G(s, 'mA')[r]))), G(s, 'rep')[r]))
        c('gone', lambda s: A([r], I(z3.And(G(s, 'gone')[r], z3.Not(G(s, 'limbo')[r]), z3.Not(G(s, 'rep')[r])), z3.And(held(s, r), G(s, 'mA')[r])), G(s, 'gone')[r]))
        c('gone jobs are old', lambda s: A([r], I(G(s, 'gone')[r], h0[r]), G(s, 'gone')[r]))
        c('aborted', lambda s: A([r], I(G(s, 'mA')[r], z3.And(G(s, 'gone')[r], held(s, r), z3.Not(G(s, 'limbo')[r]), z3.Not(G(s, 'rep')[r]), z3.Not(G(s, 'mF')[r]))), G(s, 'mA')[r]))
        c('aborted 2', lambda s: A([r], I(G(s, 'mA')[r], z3.And(self.complete(st0, r), self.fc(s, r) < self.max_fail)), G(s, 'mA')[r]))
        c('failed', lambda s: A([r], I(G(s, 'mF')[r], z3.And(G(s, 'gone')[r], z3.Or(G(s, 'rep')[r], G(s, 'limbo')[r]))), G(s, 'mF')[r]))
        c('given up for lack of workers', lambda s: A([r, w], I(z3.And(G(s, 'mF')[r], self.complete(st0, r), self.fc(s, r) < self.max_fail, q(s).W(w)), z3.Not(CH(e, s, w, r))), z3.MultiPattern(G(s, 'mF')[r], q(s).W(w))))
        c('waiting for workers 1', lambda s: A([w], I(q(s).W(w), a0.W(w)), q(s).W(w)))
        c('attempts', lambda s: A([r], I(h0[r], self.fc(s, r) == self.fc(st0, r) + z3.If(G(s, 'lostc')[r], 1, 0)), h0[r]))
        c('charged 1', lambda s: A([w], I(z3.And(G(s, 'term')[w], a0.cur(w) != 0), z3.And(G(s, 'lostc')[a0.cur(w)], G(s, 'gone')[a0.cur(w)])), a0.cur(w)))
        c('charged 2', lambda s: A([r], I(G(s, 'lostc')[r], z3.And(a0.W(a0.H(r)), G(s, 'term')[a0.H(r)], a0.cur(a0.H(r)) == r, r != 0)), G(s, 'lostc')[r]))
        c('lists 1', lambda s: A([r], I(G(s, 'gone')[r], z3.And(G(s, 'isv')[G(s, 'V')[r]], 0 <= G(s, 'I')[r], G(s, 'I')[r] < self.hv(s)['len'][G(s, 'V')[r]], self.hv(s)['arr'][G(s, 'V')[r]][G(s, 'I')[r]] == r)), G(s, 'gone')[r]))
        c('lists 2', lambda s: A([r, k], I(z3.And(G(s, 'isv')[r], 0 <= k, k < self.hv(s)['len'][r]), z3.And(G(s, 'gone')[self.hv(s)['arr'][r][k]], G(s, 'V')[self.hv(s)['arr'][r][k]] == r, G(s, 'I')[self.hv(s)['arr'][r][k]] == k)), self.hv(s)['arr'][r][k]))
        c('lists 3', lambda s: A([r], I(G(s, 'isv')[r], z3.And(r > 0, r <= G(s, 'alloc'))), G(s, 'isv')[r]))
        for ix, (nm, _, _) in enumerate(self.loopinv(st0)):
            c('inv: ' + nm, lambda s, ix=ix: self.loopinv(s)[ix][2])
        return out

    def loopinv(self, s):
        return inv_hyp(self, s)

    # containers that may hold what is still to be done
    def containers(self, s):
        """Local containers in scope: [(var key, 'req' | 'list' | 'wk', accessor of a state)]"""
        e = self.e
        out, seen = [], set()
        for did, lv in s.env.items():
            if not isinstance(lv, LV) or lv.root[0] != 'var' or lv.path or lv.root[1] in seen or lv.root[1] not in s.vars:
                continue
            seen.add(lv.root[1])
            t = lv.t
            if t[0] != 'vec':
                continue
            k = lv.root[1]
            el = t[1]
            if el == ('ptr', RQ):
                out.append((k, 'req', lambda x: x, lv))
            elif el == ('ptr', WK):
                out.append((k, 'wk', lambda x: x, lv))
            elif el == ('ptr', VT):
                out.append((k, 'list', lambda x: x, lv))
            elif el[0] in ('struct', 'pair') or el[0] == 'cls':
                try:
                    sh = e.T.shape(el)
                except Exception:
                    continue
                fs = self.fields(el)
                for f, ft in fs:
                    if ft == ('ptr', VT):
                        out.append((k, 'list', lambda x, f=f: x[f], lv))
                    elif ft == ('ptr', RQ):
                        out.append((k, 'req', lambda x, f=f: x[f], lv))
                    elif ft == ('ptr', WK):
                        out.append((k, 'wkf', lambda x, f=f: x[f], lv))
        return out

    def fields(self, t):
        if t[0] == 'pair':
            return [('first', t[1]), ('second', t[2])]
        if t[0] == 'cls':
            return [(k, ty) for k, ty, _ in self.e.T.own_fields(t[1])]
        return list(t[1])

    def spec(self, e, n, entry, h, cursors, W, backs, cands):
        out = []
        for nm, f in self.common():
            out.append(loops.Cand(nm, f))
        g = lambda s, k: e.gget(s, k)
        cont = self.containers(entry)
        if hasattr(self, 'trv'):
            cont = [c for c in cont if c[0] != self.trv] + [(self.trv, 'wk', lambda x: x, LV(('var', self.trv), (), ('vec', ('ptr', WK))))]
        r, j, k, w = z3.Int('r!w'), z3.Int('j!w'), z3.Int('k!w'), z3.Int('w!w')
        stack = self.cursor_stack(e)
        # where each container has been read up to: by enclosing loops (their current element is being treated) and by this one
        def pos(s, key, lvk):
            for c in cursors:
                if c.is_iter and c.lv.root == ('var', key) and not c.lv.path:
                    return c.cur(s)
            for c, st_ in stack:
                if c.is_iter and c.lv.root == ('var', key) and not c.lv.path:
                    p = s.vars.get(c.key)
                    if p is not None:
                        return c.cur(s) + 1
            return num(0)
        atoms, acc_ = [], {}
        for key, kind, acc, lv in cont:
            if kind == 'wkf':
                out.append(loops.Cand('%s: workers' % key, lambda s, key=key, acc=acc: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.vars[key]['len']), acc(s.vars[key]['arr'])[j] != 0), patterns=[acc(s.vars[key]['arr'])[j]])))
            if kind[0] == 'w':
                continue
            def rng(s, j, key=key):
                return z3.And(pos(s, key, None) <= j, j < s.vars[key]['len'])
            if kind == 'req':
                at = lambda s, r, j, key=key, acc=acc: acc(s.vars[key]['arr'])[j] == r
            else:
                at = lambda s, r, j, key=key, acc=acc: acc(s.vars[key]['arr'])[j] == g(s, 'V')[r]
            pt = lambda s, j, key=key, acc=acc: acc(s.vars[key]['arr'])[j]
            acc_[key] = acc
            atoms.append((key, kind, rng, at, pt))
        hatoms = []
        for c, own in [(c, True) for c in cursors] + [(c, False) for c, _ in stack]:
            if c.is_iter and c.lv.root[0] == 'heap' and c.lv.root[1] == e.tkey(VT) and not c.lv.path:
                hatoms.append((c, own))
        def cover(s):
            ors = []
            for key, kind, rng, at, pt in atoms:
                x, p = rsel(acc_[key](s.vars[key]['arr']), j)
                ors.append(z3.Exists([j], z3.And(rng(s, j), x == (r if kind == 'req' else g(s, 'V')[r])), patterns=[p]))
                last = s.vars[key]['len'] - 1       # (redundant: gives the solver the element that was just added)
                ors.append(simp(z3.And(rng(s, last), at(s, r, last))))
            for c, own in hatoms:
                if c.key in s.vars:
                    ors.append(z3.And(g(s, 'V')[r] == c.lv.root[2], g(s, 'I')[r] >= c.cur(s) + (0 if own else 1)))
            return z3.ForAll([r], z3.Implies(g(s, 'limbo')[r], z3.Or(*ors) if ors else z3.BoolVal(False)), patterns=[g(s, 'limbo')[r]])
        out.append(loops.Cand('work that is left', cover))
        for key, kind, rng, at, pt in atoms:
            def mk(con, key=key, rng=rng, at=at, pt=pt, kind=kind):
                if kind == 'req':
                    return lambda s: z3.ForAll([j], z3.Implies(rng(s, j), con(s, pt(s, j))), patterns=[pt(s, j)])
                return lambda s: z3.ForAll([r, j], z3.Implies(z3.And(rng(s, j), at(s, r, j), g(s, 'gone')[r]), con(s, r)), patterns=[z3.MultiPattern(g(s, 'gone')[r], pt(s, j))])
            out.append(loops.Cand('left in %s: limbo' % key, mk(lambda s, x: g(s, 'limbo')[x])))
            out.append(loops.Cand('left in %s: not failed' % key, mk(lambda s, x: z3.Not(g(s, 'mF')[x]))))
            if kind == 'req':
                out.append(loops.Cand('left in %s: failed' % key, mk(lambda s, x: g(s, 'mF')[x])))
            if kind == 'req':
                out.append(loops.Cand('left in %s: old jobs' % key, mk(lambda s, x: z3.And(self.held0[x], x > 0))))
                for c, own in hatoms:
                    out.append(loops.Cand('left in %s: of this list' % key, mk(lambda s, x, c=c: z3.And(g(s, 'V')[x] == c.lv.root[2], g(s, 'I')[x] < c.cur(s) + (0 if own else 1)))))
            if kind == 'list':
                out.append(loops.Cand('%s: lists' % key, lambda s, rng=rng, pt=pt, key=key: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.vars[key]['len']), g(s, 'isv')[pt(s, j)]), patterns=[pt(s, j)])))
            out.append(loops.Cand('%s: distinct' % key, lambda s, pt=pt, key=key: z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < s.vars[key]['len']), pt(s, j) != pt(s, k)), patterns=[z3.MultiPattern(pt(s, j), pt(s, k))])))
        for c, own in hatoms:
            if own:
                rest = lambda s, c=c: z3.And(g(s, 'gone')[r], g(s, 'V')[r] == c.lv.root[2], g(s, 'I')[r] >= c.cur(s))
                out.append(loops.Cand('rest of the list: limbo', lambda s, rest=rest: z3.ForAll([r], z3.Implies(rest(s), z3.And(g(s, 'limbo')[r], z3.Not(g(s, 'mF')[r]))), patterns=[g(s, 'gone')[r]])))
                out.append(loops.Cand('the list', lambda s, c=c: g(s, 'isv')[c.lv.root[2]]))
        # workers that have been removed
        for key, kind, acc, lv in cont:
            if kind != 'wk' or not any(c.is_iter and c.lv.root == ('var', key) for c in cursors):
                continue
            def arr(s, key=key):
                return s.vars[key]
            out.append(loops.Cand('removed %s 1' % key, lambda s, key=key: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < pos(s, key, None)), g(s, 'term')[arr(s, key)['arr'][j]]), patterns=[arr(s, key)['arr'][j]])))
            out.append(loops.Cand('removed %s 2' % key, lambda s, key=key: z3.ForAll([w], z3.Implies(g(s, 'term')[w], z3.Exists([j], z3.And(0 <= j, j < pos(s, key, None), arr(s, key)['arr'][j] == w), patterns=[arr(s, key)['arr'][j]])), patterns=[g(s, 'term')[w]])))
        return out

    def cursor_stack(self, e):
        return [(c, None) for cs in e.cursor_stack[:-1] for c in cs]

    # ------------------------------------------------------------ the unit
    def run(self):
        e, st = self.e, self.st
        d, ps = find_method(self.prog)
        self.entry = d
        self.start(KEYT, 'remove')
        st = self.st
        tr = {'len': z3.Int('to_remove.len'), 'arr': z3.Const('to_remove.arr', IA)}
        j, k = z3.Int('j!p'), z3.Int('k!p')
        inr = lambda i: z3.And(0 <= i, i < tr['len'])
        e.assume(st, z3.And(tr['len'] >= 0, tr['len'] < 2 ** 60))
        for f in pre_forms(self, st, tr):
            e.assume(st, f)
        self.tr = tr
        self.st0 = st.copy()
        e.loop_specs.append(self.spec)
        tv = e.newvar(st, ('vec', ('ptr', WK)), tr, 'to_remove')
        self.trv = tv.root[1]
        cb = Val(spec_handler.FUN, Closure(py=self.respond, name='respond'))
        cbv = e.newvar(st, spec_handler.FUN, e.closure_id(cb.p), 'respond')
        res = e.call_vals(st, d, self.this, [tv, cbv], None)
        n = 0
        for s, v in res:
            if s.flow is not None:
                e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves remove_workers' % (s.flow[1],), ('C13',), None, 'safety')
                continue
            n += 1
            self.post_remove(s)
        if n == 0:
            e.oblige(self.st0, z3.BoolVal(False), 'the function returns', ('C13',), None, 'post')
        return e

    def inv(self, st, post):
        out = super().inv(st, post)
        return [x for x in out if 'liveness' not in x[0]]

    def post_remove(self, s):
        e, st0, a = self.e, self.st0, self.a
        self.reg0 = self.reg(st0)
        b = qabs(e, s)
        w, r = z3.Int('w!p'), z3.Int('r!p')
        h1 = fresh_const(BA, 'held1')
        s.pc.append(z3.ForAll([r], h1[r] == b.held(r), patterns=[h1[r]]))
        s.pc.append(z3.ForAll([r], z3.Implies(b.Q(r), h1[r]), patterns=[b.Q(r)]))
        s.pc.append(z3.ForAll([w], z3.Implies(z3.And(b.W(w), b.cur(w) != 0), h1[b.cur(w)]), patterns=[b.cur(w)]))
        self.h1 = h1
        G = {k: e.gget(s, k) for k in ('rep', 'mF', 'mA', 'gone', 'lostc')}
        G['h0'], G['h1'] = self.held0, h1
        for nm, tags, f in post_forms(self, st0, s, a, b, self.tr, self.reg0, self.reg(s), G, False):
            self.ob(s, 'removing workers: ' + nm, tags, f)
        for k, nm, tags in KEEP:
            self.ob(s, 'removing workers: ' + nm, tags, e.gget(s, k) == e.gget(st0, k))
        for nm, tags, f in self.inv(s, True):
            self.ob(s, 'after removing workers: ' + nm, tags, f)
        for k, t in self.fixed + self.mut:
            x0, x1 = self.fld(st0, (k, t)), self.fld(s, (k, t))
            if not same(x0, x1):
                self.ob(s, 'removing workers does not change %s' % k, ('C16', 'C06', 'C09', 'C13'), z3.And(*[p == q for (_, p), (_, q) in zip(leaves(x0), leaves(x1))]))
        for tk, skip in ((RQ, ('failure_count',)), (WK, ())):
            x0, x1 = e.heap_of(st0, e.tkey(tk)), e.heap_of(s, e.tkey(tk))
            for k in x0:
                if k in skip or same(x0[k], x1[k]):
                    continue
                al = e.gget(st0, 'alloc')
                self.ob(s, 'removing workers does not change %s.%s' % (tk[1], k), ('C12', 'C19', 'C09', 'C03', 'C08'), z3.ForAll([r], z3.Implies(z3.And(r > 0, r <= al), z3.And(*[p[r] == q[r] for (_, p), (_, q) in zip(leaves(x0[k]), leaves(x1[k]))]))))

def verify(prog):
    return Remove(prog, 'broker_handler.remove_workers').run()

# ====================================================================== callers
def contract(h):
    """remove_workers as its callers (units of the timer and of registrations) see it."""
    e = h.e
    find_method(h.prog)
    def call(e_, st, this, vals, n):
        a, st0 = qabs(e, st), h.st0
        if any(not a.g[k].eq(h.a.g[k]) for k in a.g) or any(not e.gget(st, k).eq(e.gget(st0, k)) for k in ('rep', 'mF', 'mA', 'pend')) \
                or not same(h.reg(st), h.reg(st0)) or not same(e.heap_of(st, e.tkey(RQ)), e.heap_of(st0, e.tkey(RQ))):
            raise Unsupported('remove_workers called after other changes', n)
        tr = e.load(st, vals[0]).p
        for f, nm in zip(pre_forms(h, st, tr), ('only registered workers are removed', 'no worker is removed twice')):
            e.oblige(st, f, 'remove_workers: ' + nm, ('C09', 'C13', 'C19'), n, 'pre')
        pre = st.copy()
        tr = named(tr, None, 'tr', names := [])
        for f in names:
            e.assume(st, f)
        spec_handler.fresh_q(e, st)
        b = qabs(e, st)
        rt = ('cls', 'worker_registry')
        rf = [(k, ty) for k, ty, _ in e.T.own_fields('worker_registry') if ty == ('vec', ('ptr', WK))][0]
        reg1 = fresh(e.T.shape(rf[1]), 'reg1')
        e.assume(st, z3.And(reg1['len'] >= 0, reg1['len'] < 2 ** 60))
        e.store(st, LV(('heap', e.tkey(rt), h.reg_ref), (), rt).f(*rf), reg1)
        hp = e.heap_of(st, e.tkey(RQ))
        st.heap = dict(st.heap)
        st.heap[e.tkey(RQ)] = dict(hp, failure_count=fresh_const(hp['failure_count'].sort(), 'fc'))
        if e.wset is not None:
            e.wset.add(('heap', e.tkey(RQ), ('failure_count',)))
        al = fresh_const(Int, 'alloc')
        e.assume(st, al >= e.gget(st, 'alloc'))
        e.gset(st, 'alloc', al)
        for k in ('rep', 'mF', 'mA', 'nFail', 'nMon', 'nWk', 'lastid', 'lastmsg', 'lastmon', 'enq', 'enqok', 'nEnq'):
            e.gset(st, k, fresh_const(e.gget(st, k).sort(), k))
        e.gset(st, 'out', fresh(shape_of(e.gget(st, 'out')), 'out'))
        e.assume(st, e.gget(st, 'out')['len'] >= 0)
        w, r = z3.Int('w!p'), z3.Int('r!p')
        h1 = fresh_const(BA, 'heldr')
        for f in held_def(h1, b):
            e.assume(st, f)
        G = {k: e.gget(st, k) for k in ('rep', 'mF', 'mA')}
        G.update(h0=h.held0, h1=h1, gone=fresh_const(BA, 'gone'), lostc=fresh_const(BA, 'lostc'))
        h.removed = (tr, G)
        for nm, tags, f in post_forms(h, pre, st, a, b, tr, h.reg(pre), reg1, G, True):
            e.assume(st, f)
        for f in absinv(e, st, b):
            e.assume(st, f)
        for nm, tags, f in inv_hyp(h, st):
            e.assume(st, f)
        return [(st, Val(VOID, num(0)))]
    e.contracts['broker_handler::' + NAME] = call

def shape_of(p):
    return {k: shape_of(v) for k, v in p.items()} if isinstance(p, dict) else p.sort()

def held_def(h1, b):
    w, r = z3.Int('w!p'), z3.Int('r!p')
    return [z3.ForAll([r], h1[r] == b.held(r), patterns=[h1[r]]), z3.ForAll([r], z3.Implies(b.Q(r), h1[r]), patterns=[b.Q(r)]),
            z3.ForAll([w], z3.Implies(z3.And(b.W(w), b.cur(w) != 0), h1[b.cur(w)]), patterns=[b.cur(w)])]

def pre_forms(h, st, tr):
    a = qabs(h.e, st)
    j, k = z3.Int('j!p'), z3.Int('k!p')
    inr = lambda i: z3.And(0 <= i, i < tr['len'])
    return [z3.ForAll([j], z3.Implies(inr(j), z3.And(tr['arr'][j] != 0, a.W(tr['arr'][j]))), patterns=[tr['arr'][j]]),
            z3.ForAll([j, k], z3.Implies(z3.And(inr(j), inr(k), tr['arr'][j] == tr['arr'][k]), j == k), patterns=[z3.MultiPattern(tr['arr'][j], tr['arr'][k])])]

# ---------------------------------------------------------------------- the timer
CNT = z3.Function('idle_count', IA, IA, Int, Int)
LOOKC = z3.Function('lookc', IA, IA, Int, Bool)

def cnt_axioms():
    A, C, i = z3.Const('A', IA), z3.Const('C', IA), z3.Int('i')
    return [z3.ForAll([A, C], CNT(A, C, 0) == 0, patterns=[CNT(A, C, 0)]),
            z3.ForAll([A, C, i], z3.And(LOOKC(A, C, i), z3.Implies(i >= 0, z3.And(0 <= CNT(A, C, i), CNT(A, C, i) <= i, CNT(A, C, i + 1) == CNT(A, C, i) + z3.If(C[A[i]] == 0, 1, 0)))), patterns=[LOOKC(A, C, i)])]

class Timer(Handler):
    """on_request with a timer message: workers that stayed silent are removed, the others' counters move, statistics are taken."""
    track = True
    def setup(self):
        e, st = self.e, self.st
        self.start(KEYT, 'timer')
        st = self.st
        e.assume(st, self.dn['len'] >= 1)
        t = self.f(0)
        # (the text of the number is accepted by each of the library's conversions with room for it)
        for k in (2, 3):
            e.assume(st, z3.And(stoi_ok(t, num(k)) == 0, stoi_val(t, num(k)) == stoi_val(t, num(2))))
        self.time = stoi_val(t, num(2))
        e.assume(st, z3.And(self.time >= 0, self.time < 2 ** 60))
        w = z3.Int('w!s')
        m = self.fld(st, self.timers_f)
        e.assume(st, z3.ForAll([w], z3.Implies(m['dom'][w], z3.And(m['val'][w] >= 0, m['val'][w] < 2 ** 60)), patterns=[m['val'][w]]))
        e.assumptions.add('the timer message of the reactor carries the elapsed time as a non-negative number')
        e.assumptions.add('no timer reaches 2^60 milliseconds')
        self.st0 = st.copy()
        e.axioms += cnt_axioms()
        contract(self)
        e.loop_specs.append(self.spec)

    def tm0(self, w):
        return self.timer(self.st0, w) + self.time
    def over(self, w):
        return self.tm0(w) > self.interval
    def live1(self, w):
        l0 = self.wfield(self.st0, 'liveness', w)
        return z3.If(self.over(w), z3.If(l0 > 0, l0 - 1, l0), l0)
    def timer1(self, w):
        return z3.If(self.over(w), num(0), self.tm0(w))
    def expired(self, w):
        return z3.And(self.over(w), self.live1(w) <= 0)

    def spec(self, e, n, entry, h, cursors, W, backs, cands):
        out = []
        i, j, k, w = z3.Int('i!w'), z3.Int('j!w'), z3.Int('k!w'), z3.Int('w!w')
        reg0 = self.reg(self.st0)
        wa = reg0['arr']
        if not same(self.reg(entry), reg0) or not qabs(e, entry).g['W'].eq(self.a.g['W']):
            # after the removal: counting idle workers
            for c in cursors:
                def cnt(s, c=c):
                    A, C = self.reg(s)['arr'], qabs(e, s).g['cur']
                    return z3.And(LOOKC(A, C, c.cur(s)), self.stat(s, 'idle-worker-count') == CNT(A, C, c.cur(s)))
                out.append(loops.Cand('idle workers counted', cnt))
                for q in ('queued-jobs', 'worker-count', 'evaluated-jobs', 'failed-jobs'):
                    out.append(loops.Cand('statistic %s stays' % q, lambda s, q=q: self.stat(s, q) == self.stat(entry, q)))
                for r, kk, fs in W:
                    if r == 'var' and not fs and isinstance(entry.vars.get(kk), z3.ExprRef) and entry.vars[kk].sort() == Int and not str(kk).startswith('g:') and kk != c.key:
                        out.append(loops.Cand('idle workers counted in %s' % kk, lambda s, kk=kk, c=c: z3.And(LOOKC(self.reg(s)['arr'], qabs(e, s).g['cur'], c.cur(s)), s.vars[kk] == CNT(self.reg(s)['arr'], qabs(e, s).g['cur'], c.cur(s)))))
                        out.append(loops.Cand('busy workers counted in %s' % kk, lambda s, kk=kk, c=c: z3.And(LOOKC(self.reg(s)['arr'], qabs(e, s).g['cur'], c.cur(s)), s.vars[kk] == c.cur(s) - CNT(self.reg(s)['arr'], qabs(e, s).g['cur'], c.cur(s)))))
            return out
        inr = lambda i: z3.And(0 <= i, i < reg0['len'])
        for c in cursors:
            lv = lambda s, x: self.wfield(s, 'liveness', x)
            out.append(loops.Cand('liveness of earlier workers', lambda s, c=c: z3.ForAll([i], z3.Implies(z3.And(inr(i), i < c.cur(s)), lv(s, wa[i]) == self.live1(wa[i])), patterns=[wa[i]])))
            out.append(loops.Cand('timers of earlier workers', lambda s, c=c: z3.ForAll([i], z3.Implies(z3.And(inr(i), i < c.cur(s)), self.timer(s, wa[i]) == self.timer1(wa[i])), patterns=[wa[i]])))
            out.append(loops.Cand('liveness of later workers', lambda s, c=c: z3.ForAll([i], z3.Implies(z3.And(inr(i), i >= c.cur(s)), lv(s, wa[i]) == self.wfield(self.st0, 'liveness', wa[i])), patterns=[wa[i]])))
            out.append(loops.Cand('timers of later workers', lambda s, c=c: z3.ForAll([i], z3.Implies(z3.And(inr(i), i >= c.cur(s)), self.timer(s, wa[i]) == self.timer(self.st0, wa[i])), patterns=[wa[i]])))
            out.append(loops.Cand('timers exist', lambda s: z3.ForAll([w], z3.Implies(self.fld(s, self.timers_f)['dom'][w], z3.And(w > 0, w <= e.gget(self.st0, 'alloc'))), patterns=[self.fld(s, self.timers_f)['dom'][w]])))
            for key, lvx in self.lists(entry):
                X = lambda s, key=key: s.vars[key]
                def el(s, j, key=key):
                    return rsel(s.vars[key]['arr'], j)
                rg = lambda s, j, X=X: z3.And(0 <= j, j < X(s)['len'])
                out.append(loops.Cand('%s: expired' % key, lambda s, el=el, rg=rg, c=c: z3.ForAll([j], z3.Implies(rg(s, j), z3.And(self.a.W(el(s, j)[0]), self.expired(el(s, j)[0]))), patterns=[el(s, j)[1]])))
                out.append(loops.Cand('%s: seen' % key, lambda s, el=el, rg=rg, c=c: z3.ForAll([j], z3.Implies(rg(s, j), z3.Exists([i], z3.And(inr(i), i < c.cur(s), wa[i] == el(s, j)[0]), patterns=[wa[i]])), patterns=[el(s, j)[1]])))
                def allexp(s, el=el, rg=rg, c=c, X=X):
                    last = X(s)['len'] - 1
                    return z3.ForAll([i], z3.Implies(z3.And(inr(i), i < c.cur(s), self.expired(wa[i])), z3.Or(simp(z3.And(rg(s, last), X(s)['arr'][last] == wa[i])), z3.Exists([j], z3.And(rg(s, j), el(s, j)[0] == wa[i]), patterns=[el(s, j)[1]]))), patterns=[wa[i]])
                out.append(loops.Cand('%s: all expired' % key, allexp))
                out.append(loops.Cand('%s: distinct workers' % key, lambda s, el=el, rg=rg: z3.ForAll([j, k], z3.Implies(z3.And(rg(s, j), rg(s, k), el(s, j)[0] == el(s, k)[0]), j == k), patterns=[z3.MultiPattern(el(s, j)[1], el(s, k)[1])])))
        return out

    def lists(self, s):
        out, seen = [], set()
        for did, lv in s.env.items():
            if isinstance(lv, LV) and lv.root[0] == 'var' and not lv.path and lv.t == ('vec', ('ptr', WK)) and lv.root[1] in s.vars and lv.root[1] not in seen:
                seen.add(lv.root[1])
                out.append((lv.root[1], lv))
        return out

    def run(self):
        e = self.e
        self.setup()
        n = 0
        for s, v in self.call():
            if s.flow is not None:
                e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves the message handler' % (s.flow[1],), ('C13',), None, 'safety')
                continue
            n += 1
            self.post(s, KEYT, None)
        if n == 0:
            e.oblige(self.st0, z3.BoolVal(False), 'the handler returns', ('C13',), None, 'post')
        return e

    def post_t_other(self, s, ob, g, a, b, st0):
        w, r = z3.Int('w!p'), z3.Int('r!p')
        tr, G = getattr(self, 'removed', (None, None))
        if tr is None:
            raise Unsupported('the timer does not use remove_workers')
        ob('exactly the workers that were silent for the maximal number of overrun intervals are removed', ('C09',), z3.ForAll([w], z3.Implies(a.W(w), b.W(w) == z3.Not(self.expired(w)))))
        ob('the timer registers no worker', ('C09', 'C19'), z3.ForAll([w], z3.Implies(b.W(w), a.W(w))))
        ob('each overrun interval of a worker takes one from its count and restarts its timer', ('C09',), z3.ForAll([w], z3.Implies(b.W(w), z3.And(self.wfield(s, 'liveness', w) == self.live1(w), self.timer(s, w) == self.timer1(w)))))
        ob('the timer reports no success', ('C07',), g('nOK') == 0)
        fc0, fc1 = self.fc(st0, r), self.fc(s, r)
        ob('a job is charged with a failed attempt exactly if its worker is removed', ('C08',), z3.ForAll([r], z3.Implies(self.held0[r], fc1 == fc0 + z3.If(z3.And(a.W(a.H(r)), a.cur(a.H(r)) == r, self.expired(a.H(r))), 1, 0))))
        reg = self.reg(s)
        ob('statistics: number of queued jobs', ('C16',), self.stat(s, 'queued-jobs') == b.g['n'])
        ob('statistics: number of workers', ('C16',), self.stat(s, 'worker-count') == reg['len'])
        ob('statistics: number of idle workers', ('C16',), self.stat(s, 'idle-worker-count') == CNT(reg['arr'], b.g['cur'], reg['len']))
        ob('statistics: jobs in progress', ('C16',), self.stat(s, 'jobs-in-progress') == reg['len'] - CNT(reg['arr'], b.g['cur'], reg['len']))

def verify_timer(prog):
    return Timer(prog, 'broker_handler.timer').run()

# ---------------------------------------------------------------------- registrations
class Init(Handler):
    """on_request with an init message of a worker."""
    track = True
    def setup(self):
        e, st = self.e, self.st
        for g in ('heN', 'addN', 'addw', 'addc'):
            st.vars['g:' + g] = num(0)
        st.vars['g:heR'] = z3.BoolVal(False)
        self.start(spec_handler.KEYW, 'init')
        contract(self)
        e.contracts['worker::headers_equal'] = self.c_equal
        e.loop_specs.append(self.spec)

    def c_equal(self, e, st, this, vals, n):
        """Contract of worker::headers_equal (verified in spec_worker): compares what the worker declared with the argument."""
        hd = e.load(st, vals[0]).p
        e.oblige(st, this.root[2] == self.snd, 'the headers of the registered worker with this identity are compared', ('C19',), n, 'monitor')
        f1, f2 = self.hdr_forms(hd, self.kd)
        e.oblige(st, f1, 'all headers of the new registration are compared', ('C19',), n, 'monitor')
        e.oblige(st, f2, 'only headers of the new registration are compared', ('C19',), n, 'monitor')
        r = fresh_const(Bool, 'headers_equal')
        e.gset(st, 'heN', e.gget(st, 'heN') + 1)
        e.gset(st, 'heR', r)
        return [(st, Val(BOOL, r))]

    def after_qm(self, st, op, a, b, x, n):
        super().after_qm(st, op, a, b, x, n)
        if op == 'add_worker':
            e = self.e
            e.gset(st, 'addN', e.gget(st, 'addN') + 1)
            e.gset(st, 'addw', x['w'])
            e.gset(st, 'addc', x['c'])

    # what follows the headers: name=value, the last one of a name counts
    def key(self, j):
        return z3.If(self.has_eq(j), self.hname(j), self.f(j))
    def last(self, name, hi, j):
        """Frame j is the last one before hi that gives `name`."""
        k = z3.Int('k!n')
        return z3.And(self.kd <= j, j < hi, self.key(j) == lit(name), z3.ForAll([k], z3.Implies(z3.And(j < k, k < hi), self.key(k) != lit(name)), patterns=[self.f(k)]))
    def none(self, name, hi):
        k = z3.Int('k!n')
        return z3.ForAll([k], z3.Implies(z3.And(self.kd <= k, k < hi), self.key(k) != lit(name)), patterns=[self.f(k)])
    def given(self, name, hi, absent, present):
        """absent if no frame before hi gives the name, present(value) for the value of the last one that does."""
        j = z3.Int('j!n')
        return z3.Or(z3.And(self.none(name, hi), absent),
                     z3.Exists([j], z3.And(self.last(name, hi, j), z3.Implies(self.has_eq(j), present(self.hvalue(j)))), patterns=[self.f(j)]))
    def job_given(self, s, c):
        e = self.e
        return dict(absent=c == 0, present=None)
    def f_desc(self, s, w, hi):
        d = self.wfield(s, 'description', w)
        return self.given('description', hi, d == lit(''), lambda v: d == v)
    def f_job(self, s, c, hi):
        al0 = self.e.gget(self.st0, 'alloc')
        j = z3.Int('j!n')
        new = z3.And(c > al0, c <= self.e.gget(s, 'alloc'), z3.Not(self.complete(s, c)), self.fc(s, c) == 0)
        return z3.And(z3.Or(c == 0, new), z3.Or(z3.And(self.none('current_job', hi), c == 0),
                      z3.Exists([j], z3.And(self.last('current_job', hi, j), new, z3.Implies(self.has_eq(j), self.jid(s, c) == self.hvalue(j))), patterns=[self.f(j)])))

    def spec(self, e, n, entry, h, cursors, W, backs, cands):
        out = []
        al0 = e.gget(self.st0, 'alloc')
        for c in cursors:
            refs = {}
            for did, lv in entry.env.items():
                if isinstance(lv, LV) and lv.root[0] == 'var' and not lv.path and lv.root[1] in entry.vars:
                    if lv.t == ('ptr', RQ):
                        out.append(loops.Cand('declared job in %s' % lv.root[1], lambda s, k=lv.root[1], c=c: self.f_job(s, s.vars[k], c.cur(s))))
                    elif lv.t == ('ptr', WK) and ('heap', e.tkey(WK), ('description',)) in W:
                        out.append(loops.Cand('declared description of %s' % lv.root[1], lambda s, k=lv.root[1], c=c: self.f_desc(s, s.vars[k], c.cur(s))))
                    elif lv.t == STR and any(r == 'var' and k == lv.root[1] for r, k, fs in W):
                        for nm in ('description', 'current_job'):
                            out.append(loops.Cand('declared %s in %s' % (nm, lv.root[1]), lambda s, k=lv.root[1], c=c, nm=nm: self.given(nm, c.cur(s), s.vars[k] == lit(''), lambda v: s.vars[k] == v)))
        return out

    def run(self):
        e = self.e
        self.setup()
        n = 0
        for s, v in self.call():
            if s.flow is not None:
                e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves the message handler' % (s.flow[1],), ('C13',), None, 'safety')
                continue
            n += 1
            self.post(s, spec_handler.KEYW, 'init')
        if n == 0:
            e.oblige(self.st0, z3.BoolVal(False), 'the handler returns', ('C13',), None, 'post')
        return e

    def post_w_init(self, s, ob, g, a, b, st0):
        e, snd, dn = self.e, self.snd, self.dn
        w, r = z3.Int('w!p'), z3.Int('r!p')
        short = dn['len'] < 2
        N, c = g('addw'), g('addc')
        grp = self.wfield(st0, 'hwgroup', snd) == self.f(1)
        al0 = e.gget(st0, 'alloc')
        same_ = z3.And(snd != 0, grp, g('heN') >= 1, g('heR'))
        self.quiet(s, ob, g, ('C19', 'C13'), 'a registration without a hardware group is ignored', [short])
        ob('a registration without a hardware group registers nothing', ('C19', 'C13'), z3.And(g('addN') == 0, z3.ForAll([w], b.W(w) == a.W(w))), [short])
        full = z3.Not(short)
        ob('the headers of a known worker of the same group are compared', ('C19',), g('heN') >= 1, [full, snd != 0, grp])
        self.quiet(s, ob, g, ('C19', 'C01', 'C02'), 'a repeated registration changes nothing', [full, same_])
        ob('a repeated registration registers nothing', ('C19',), z3.And(g('addN') == 0, z3.ForAll([w], b.W(w) == a.W(w))), [full, same_])
        eff = [full, z3.Not(same_)]
        ob('another registration registers one worker', ('C19',), z3.And(g('addN') == 1, b.W(N), N > al0, z3.Not(a.W(N))), eff)
        ob('an older registration of the same identity is replaced', ('C19',), z3.Implies(snd != 0, z3.Not(b.W(snd))), eff)
        ob('other workers stay registered', ('C19', 'C09'), z3.ForAll([w], z3.Implies(z3.And(a.W(w), w != snd), b.W(w))), eff)
        ob('no other worker is registered', ('C19',), z3.ForAll([w], z3.Implies(b.W(w), z3.Or(a.W(w), w == N))), eff)
        ob('the new worker has the identity of the sender', ('C19',), self.ident(s, N) == self.m['identity'], eff)
        ob('the new worker has the declared hardware group', ('C19',), self.wfield(s, 'hwgroup', N) == self.f(1), eff)
        ob('the new worker has the declared description', ('C19',), self.f_desc(s, N, dn['len']), eff)
        ob('a registration restarts the count of the worker', ('C09',), z3.And(self.wfield(s, 'liveness', N) == self.max_live, self.timer(s, N) == 0), eff)
        for k, t, _ in e.T.own_fields('worker'):
            if t == ('mmap', STR, STR):
                self.hdr_ok(sel(e.heap_of(s, e.tkey(WK))[k], N), ob, ('C19', 'C03'), eff)
                break
        ob('the declared current job is recorded', ('C19', 'C02', 'C01'), self.f_job(s, c, dn['len']), eff)
        ob('the declared current job is the current job of the new worker', ('C19', 'C02'), z3.Implies(c != 0, b.cur(N) == c), eff)
        ob('a registration reports no success', ('C07',), g('nOK') == 0)
        ob('a registration says nothing to the monitor unless a worker is replaced', ('C20',), g('nMon') == 0, [z3.Or(short, snd == 0, same_)])
        ob('a registration charges no job unless a worker is replaced', ('C08',), self.same_fc(s), [z3.Or(short, snd == 0, same_)])

def verify_init(prog):
    return Init(prog, 'broker_handler.init').run()
