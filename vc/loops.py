"""Loops: inductive invariants found by Houdini over templates read off the loop body, plus the
invariants the specifications contribute.  Every invariant that is used has been proved initially
true and preserved by an arbitrary iteration of the real body."""
import hashlib
import time
import z3
from core import *
import core
from engine import Val, LV, IterV, Closure, simp, has_quant, consts_newer

class Cand:
    __slots__ = ('name', 'fn', 'pri', 'unless')
    def __init__(self, name, fn, pri=0, unless=()):
        # unless: names of stronger candidates; this one is only tried if one of them is not inductive
        self.name, self.fn, self.pri, self.unless = name, fn, pri, unless

class Cursor:
    __slots__ = ('key', 'i', 'i0', 'is_iter', 'lv', 'step', 'fs')
    def __init__(self, key, i, i0, is_iter, lv, fs=()):
        self.key, self.i, self.i0, self.is_iter, self.lv, self.fs = key, i, i0, is_iter, lv, fs
    def val(self, s):
        return getf(s.vars[self.key], self.fs)
    def cur(self, s):
        p = self.val(s)
        return p.idx if isinstance(p, IterV) else p

def run(e, st, n, loopvar, vc, inc, body, post=False):
    var, c = vc
    def cond_fn(s):
        ss = [s]
        if var is not None:
            ss = e.ex(s, var)
        out = []
        for x in ss:
            if x.flow is not None:
                out.append((x, None))
            elif c is None:
                out.append((x, True))
            else:
                out.extend(e.cond(x, c))
        return out
    def body_fn(s):
        env = s.env
        ss = [s]
        if loopvar is not None:
            ss = e.seq(ss, [loopvar])
        ss = e.seq(ss, [body])
        for x in ss:
            if x.flow is None or x.flow[0] in ('cont', 'brk'):
                x.env = env if x.env is not env else x.env
        return ss
    def inc_fn(s):
        if inc is None:
            return [s]
        return [x for x, _ in e.ev(s, inc)]
    def lit_cond(s):
        """True/False if the condition is decided by constants alone, else None."""
        if c is None or var is not None:
            return None
        e.silent += 1
        try:
            r = e.rv(s.copy(), c)
        finally:
            e.silent -= 1
        if len(r) != 1 or r[0][0].flow is not None:
            return None
        b = z3.simplify(e.conv(r[0][0], r[0][1], BOOL).p)
        if c.kind == 'CXXBoolLiteralExpr':
            return None
        return True if z3.is_true(b) else False if z3.is_false(b) else None
    return loop(e, st, n, cond_fn, body_fn, inc_fn, post, lit_cond)

def loop(e, st, n, cond_fn, body_fn, inc_fn, post=False, lit_cond=None):
    out = []
    active = [st]
    if not post and lit_cond is not None:
        for it in range(24):
            nxt = []
            moved = False
            for s in active:
                lc = lit_cond(s)
                if lc is None:
                    nxt.append((s, False))
                    continue
                moved = True
                for s1, b in cond_fn(s):
                    if s1.flow is not None or not b:
                        out.append(s1)
                        continue
                    for s2 in body_fn(s1):
                        if s2.flow is None or s2.flow[0] == 'cont':
                            s2.flow = None
                            nxt.extend((x, True) for x in inc_fn(s2))
                        elif s2.flow[0] == 'brk':
                            s2.flow = None
                            out.append(s2)
                        else:
                            out.append(s2)
            active = [s for s, _ in nxt]
            if not moved or not active:
                break
    for s in active:
        out.extend(sym(e, s, n, cond_fn, body_fn, inc_fn, post))
    return out

# ------------------------------------------------------------------ one iteration
def iterate(e, h, cond_fn, body_fn, inc_fn, post):
    backs, exits = [], []
    def do_body(s):
        res = []
        for s2 in body_fn(s):
            if s2.flow is None or s2.flow[0] == 'cont':
                s2.flow = None
                for s3 in inc_fn(s2):
                    (res if s3.flow is None else exits).append(s3)
            elif s2.flow[0] == 'brk':
                s2.flow = None
                exits.append(s2)
            else:
                exits.append(s2)
        return res
    if post:
        for s in do_body(h):
            for s1, b in cond_fn(s):
                if s1.flow is not None or not b:
                    exits.append(s1)
                else:
                    backs.append(s1)
        return backs, exits
    for s1, b in cond_fn(h):
        if s1.flow is not None or not b:
            exits.append(s1)
        else:
            backs.extend(do_body(s1))
    return backs, exits

# ------------------------------------------------------------------ modification sets
def covers(W, w):
    r, k, fs = w
    for i in range(len(fs) + 1):
        if (r, k, fs[:i]) in W:
            return True
    return False

def norm(W):
    return {w for w in W if not any((w[0], w[1], w[2][:i]) in W for i in range(len(w[2])))}

def getf(p, fs):
    for f in fs:
        p = p[f]
    return p

def setf(p, fs, v):
    if not fs:
        return v
    q = dict(p)
    q[fs[0]] = setf(p[fs[0]], fs[1:], v)
    return q

def refresh(p, name):
    if isinstance(p, dict):
        return {k: refresh(v, name + '.' + k) for k, v in p.items()}
    if isinstance(p, IterV):
        if p.kind == 'map' and p.enum is None:
            return IterV('map', p.lv, None, key=fresh_const(p.key.sort(), 'mk') if p.key is not None else None, end=fresh_const(Bool, 'mend'))
        return p.with_idx(fresh_const(Int, name))
    if isinstance(p, z3.ExprRef):
        return fresh_const(p.sort(), name)
    if isinstance(p, tuple):
        raise Unsupported('loop changes a %r' % (p[0],))
    raise Unsupported('loop changes a callable')

def havoc(e, st, W):
    h = st.copy()
    for r, k, fs in sorted(W, key=str):
        if r == 'var':
            name = str(k).split('#')[0] + ''.join('.' + f for f in fs)
            p = getf(h.vars[k], fs)
            np = refresh(p, name)
            h.vars[k] = setf(h.vars[k], fs, np)
        else:
            name = 'H.%s%s' % (k[1] if k[0] == 'cls' else k[0], ''.join('.' + f for f in fs))
            e.heap_of(h, k)
            np = refresh(getf(h.heap[k], fs), name)
            h.heap[k] = setf(h.heap[k], fs, np)
        for path, x in leaves(np) if not isinstance(np, IterV) else []:
            if path and path[-1] == 'len' and x.sort() == Int:
                h.pc.append(z3.And(x >= 0, x < 2 ** 60))
    return h

def modset(e, st, cond_fn, body_fn, inc_fn, post):
    W = set()
    for _ in range(8):
        h = havoc(e, st, W)
        saved = e.wset
        e.wset = set()
        e.silent += 1
        e.quick += 1
        try:
            iterate(e, h.copy(), cond_fn, body_fn, inc_fn, post)
            new = {w for w in e.wset if (w[0] == 'heap' or w[1] in st.vars)}
        finally:
            ws = e.wset
            e.wset = saved
            e.silent -= 1
            e.quick -= 1
        if all(covers(W, w) for w in new):
            break
        W = norm(W | new)
    else:
        raise Unsupported('modification set of a loop')
    if e.wset is not None:
        e.wset |= W
    return W

# ------------------------------------------------------------------ symbolic loops
def sym(e, st, n, cond_fn, body_fn, inc_fn, post):
    env0 = st.env
    if e.deadline and time.time() > e.deadline:
        raise Unsupported('time budget exhausted')
    wsaved = e.wset
    W = modset(e, st, cond_fn, body_fn, inc_fn, post)
    wsaved2 = e.wset
    e.wset = None
    def restore():
        e.wset = wsaved2
    try:
        if st.log is not None:
            st.log.append(('loop', None))
        if e.quick:
            h = havoc(e, st, W)
            hh = h
            hh.log = None if st.log is None else list(st.log)
            backs, exits = iterate(e, h, cond_fn, body_fn, inc_fn, post)
            for x in exits:
                x.log = None if st.log is None else list(st.log)
            return exits
        return sym2(e, st, n, cond_fn, body_fn, inc_fn, post, W)
    finally:
        restore()

def sym2(e, st, n, cond_fn, body_fn, inc_fn, post, W):
    t0 = time.time()
    e.stats['loops'] += 1
    entry = st
    log0 = st.log
    # --- cursors
    base = st.copy()
    base.log = []
    h = havoc(e, base, W)
    e.silent += 1
    e.quick += 1
    try:
        mark = fresh_mark()
        backs, exits = iterate(e, h.copy(), cond_fn, body_fn, inc_fn, post)
    finally:
        e.silent -= 1
        e.quick -= 1
    cursors = find_cursors(e, entry, h, backs, W)
    e.cursor_stack.append(cursors)
    try:
        return sym3(e, st, n, cond_fn, body_fn, inc_fn, post, W, t0, entry, log0, base, h, backs, cursors)
    finally:
        e.cursor_stack.pop()

def sym3(e, st, n, cond_fn, body_fn, inc_fn, post, W, t0, entry, log0, base, h, backs, cursors):
    cands = bounds(e, entry, h, cursors, W, backs)
    cands += unchanged(e, entry, h, W)
    memo = Memo(e, n)
    cands = memo.filt(cands)
    e.silent += 1
    try:
        # a first Houdini round with the cheap candidates, then templates from the probed body
        cands = filt_entry(e, entry, cands)
        cands, h, backs, exits = houdini(e, base, W, cands, cond_fn, body_fn, inc_fn, post, quick=True)
        if cursors:
            if any(x[0] == 'loop' for b in backs for x in (b.log or [])):
                # inner loops: read the templates off a body executed with their invariants
                h = havoc(e, base, W)
                early = []
                for sp in e.loop_specs:
                    early += sp(e, n, entry, h, cursors, W, backs, list(cands))
                for c in cands + filt_entry(e, entry, memo.filt(early)):
                    e.assume(h, c.fn(h))
                e.probing += 1
                try:
                    backs, exits = iterate(e, h.copy(), cond_fn, body_fn, inc_fn, post)
                finally:
                    e.probing -= 1
            cands += templates(e, entry, h, backs, cursors, W)
        else:
            cands += drains(e, entry, h, backs, W)
        for sp in e.loop_specs:
            cands += sp(e, n, entry, h, cursors, W, backs, cands)
        cands = filt_entry(e, entry, memo.filt(cands))
        names = {c.name for c in cands}
        weak = [c for c in cands if c.unless and all(u in names for u in c.unless)]
        cands = [c for c in cands if c not in weak]
        cands, h, backs, exits = houdini(e, base, W, cands, cond_fn, body_fn, inc_fn, post)
        names = {c.name for c in cands}
        weak = [c for c in weak if not all(u in names for u in c.unless)]
        if weak:
            cands, h, backs, exits = houdini(e, base, W, cands + weak, cond_fn, body_fn, inc_fn, post)
    finally:
        e.silent -= 1
    memo.record(cands)
    if not e.silent:
        e.loopinfo.append(('%s:%s' % (n.file, n.line), [c.name for c in cands]))
        h = havoc(e, base, W)
        for c in cands:
            e.assume(h, c.fn(h))
        e.hctx.append([e.hlast, {}])
        try:
            backs, exits = iterate(e, h, cond_fn, body_fn, inc_fn, post)
        finally:
            e.hctx.pop()
        # preservation was proved by Houdini; it is recorded as discharged obligations
        for c in cands:
            from engine import Obligation
            o = Obligation('loop invariant %s holds initially and is preserved' % c.name, ('INV',), [], z3.BoolVal(True),
                           '%s:%s' % (n.file, n.line), e.fnstack[-1] if e.fnstack else e.name, 'invariant')
            o.status = 'unsat'
            e.obligations.append(o)
    for x in exits:
        x.log = None if log0 is None else list(log0) + [('loop', None)]
        if x.flow is None:
            x.env = entry.env
    e.stats['houdini_time'] += time.time() - t0
    return [x for x in exits if e.feasible(x)]

def filt_entry(e, entry, cands):
    out, todo = [], []
    for c in cands:
        try:
            f = simp(c.fn(entry))
        except (KeyError, z3.Z3Exception):
            continue
        out.append(c)
        if not z3.is_true(f):
            todo.append((c, f))
    bad = {id(c) for (c, f), ok in zip(todo, e.prove_many([(entry.pc, f) for _, f in todo], **e.filt_kw)) if not ok}
    return [c for c in out if id(c) not in bad]

class Memo:
    """Invariants of an inner loop that failed in the previous round of the enclosing loop are not tried again:
    from round to round the enclosing loop only loses invariants.  (Any choice of candidates is sound.)"""
    def __init__(self, e, n):
        self.e = e
        self.key = (n.id, tuple(e.fnstack))
        # a name of the loop that survives from run to run, for the committed hints
        fn = re.sub(r':\d+>', '>', e.fnstack[-1]) if e.fnstack else ''
        ids = e.loopord.setdefault(fn, [])
        if n.id not in ids:
            ids.append(n.id)
        self.name = '%s|%s|%d|%d' % (re.sub(r':\d+>', '>', ' '.join(e.fnstack[:-1])), fn, ids.index(n.id), e.probing)
    def norm(self, c):
        return re.sub(r'[#!]\d+', '', c.name)
    def hash(self, c):
        return hashlib.sha1(self.norm(c).encode()).hexdigest()[:10]
    def filt(self, cands):
        if self.e.HINTS is not None and self.name in self.e.HINTS:
            h = self.e.HINTS[self.name]
            cands = [c for c in cands if self.hash(c) in h]
        if not self.e.hctx:
            return cands
        keep = self.e.hctx[-1][0].get(self.key)
        if keep is None:
            return cands
        return [c for c in cands if self.norm(c) in keep]
    def record(self, cands):
        if self.e.REC is not None and (not self.e.silent or self.e.probing):
            self.e.REC.setdefault(self.name, set()).update(self.hash(c) for c in cands)
        if self.e.hctx and not self.e.quick:
            self.e.hctx[-1][1].setdefault(self.key, set()).update(self.norm(c) for c in cands)

def houdini(e, base, W, cands, cond_fn, body_fn, inc_fn, post, quick=False):
    if quick:
        return houdini1(e, base, W, cands, cond_fn, body_fn, inc_fn, post, quick)
    outer = e.hctx[-1] if e.hctx else None
    ctx = [dict(outer[0]) if outer else {}, {}]
    e.hctx.append(ctx)
    try:
        r = houdini1(e, base, W, cands, cond_fn, body_fn, inc_fn, post, quick)
    finally:
        e.hctx.pop()
    e.hlast = ctx[1]
    if outer:
        for k, v in ctx[1].items():
            outer[1].setdefault(k, set()).update(v)
    return r

def houdini1(e, base, W, cands, cond_fn, body_fn, inc_fn, post, quick=False):
    if quick:
        e.quick += 1
    try:
        for rnd in range(30):
            e.stats['houdini'] += 1
            if not quick and rnd:
                e.hctx[-1][0], e.hctx[-1][1] = dict(e.hctx[-1][0], **{}) | e.hctx[-1][1], {}
            h = havoc(e, base, W)
            for c in cands:
                e.assume(h, c.fn(h))
            mark = fresh_mark()
            backs, exits = iterate(e, h.copy(), cond_fn, body_fn, inc_fn, post)
            drop = set()
            for b in backs:
                live = [c for c in cands if c not in drop]
                fs = []
                for c in live:
                    f = simp(c.fn(b))
                    if not z3.is_true(f):
                        fs.append((c, f))
                if not fs:
                    continue
                kw = dict(rlimit=600000, cfgs=('noext', 'ematch')) if quick else {}
                if len(fs) > 1 and e.prove(b.pc, z3.And(*[f for _, f in fs]), rlimit=600000, cfgs=('noext',)):
                    continue
                for (c, f), ok in zip(fs, e.prove_many([(b.pc, f) for _, f in fs], **kw)):
                    if not ok:
                        drop.add(c)
            if not drop:
                return cands, h, backs, exits
            cands = [c for c in cands if c not in drop]
        raise Unsupported('loop invariants do not stabilise')
    finally:
        if quick:
            e.quick -= 1

def find_cursors(e, entry, h, backs, W):
    out = []
    for r, k, fs in sorted(W, key=str):
        if r != 'var':
            continue
        p = getf(h.vars[k], fs)
        it = isinstance(p, IterV)
        if it and p.idx is None:
            continue
        if not it and not (isinstance(p, z3.ExprRef) and p.sort() == Int):
            continue
        i = p.idx if it else p
        p0 = getf(entry.vars[k], fs)
        i0 = p0.idx if it else p0
        if k.startswith('g:') if isinstance(k, str) else False:
            continue
        ok = bool(backs)
        for b in backs:
            pb = getf(b.vars[k], fs)
            ib = pb.idx if isinstance(pb, IterV) else pb
            d = z3.simplify(ib - i)
            if not (z3.is_int_value(d) and d.as_long() == 1):
                ok = False
        if ok:
            out.append(Cursor(k, i, i0, it, p.lv if it else None, fs))
    out.sort(key=lambda c: not c.is_iter)
    return out

def other_iters(st, W):
    """Iterators that the loop does not change."""
    out = []
    def walk(k, fs, p):
        if covers(W, ('var', k, fs)):
            return
        if isinstance(p, IterV):
            if p.idx is not None and len(out) < 6:
                out.append(p)
        elif isinstance(p, dict):
            for f, v in p.items():
                walk(k, fs + (f,), v)
    for k, p in st.vars.items():
        if isinstance(p, (IterV, dict)):
            walk(k, (), p)
    return out

def bounds(e, entry, h, cursors, W, backs):
    out = []
    for r, k, fs in sorted(W, key=str):
        if r == 'var':
            p0 = getf(entry.vars[k], fs)
            if isinstance(p0, IterV):
                if p0.idx is None:
                    continue
                out.append(Cand('%s>=entry' % k, lambda s, k=k, fs=fs, i0=p0.idx: getf(s.vars[k], fs).idx >= i0))
                if p0.kind == 'vec':
                    lv = p0.lv
                    out.append(Cand('%s<=len' % k, lambda s, k=k, fs=fs, lv=lv: getf(s.vars[k], fs).idx <= e.load(s, lv).p['len']))
                    for q in other_iters(entry, W):
                        if q.kind == 'vec' and q.lv.key() == lv.key():
                            out.append(Cand('%s<=%s' % (k, q.idx), lambda s, k=k, fs=fs, q=q: getf(s.vars[k], fs).idx <= q.idx))
                elif p0.kind == 'str':
                    lv = p0.lv
                    out.append(Cand('%s<=strlen' % k, lambda s, k=k, fs=fs, lv=lv: getf(s.vars[k], fs).idx <= slen(e.load(s, lv).p)))
                elif p0.enum is not None:
                    out.append(Cand('%s<=n' % k, lambda s, k=k, fs=fs, m=p0.enum[1]: getf(s.vars[k], fs).idx <= m))
            elif isinstance(p0, z3.ExprRef) and p0.sort() == Int:
                out.append(Cand('%s>=entry' % k, lambda s, k=k, fs=fs, x=p0: getf(s.vars[k], fs) >= x))
                out.append(Cand('%s<=entry' % k, lambda s, k=k, fs=fs, x=p0: getf(s.vars[k], fs) <= x))
                if not str(k).startswith('g:'):
                    seen = 0
                    for did, lv in entry.env.items():
                        if isinstance(lv, LV) and lv.t[0] in ('vec', 'mmap', 'str') and seen < 8:
                            seen += 1
                            if lv.t[0] == 'str':
                                out.append(Cand('%s<=strlen(%s)' % (k, lv.root[1]), lambda s, k=k, fs=fs, lv=lv: getf(s.vars[k], fs) <= slen(e.load(s, lv).p)))
                                out.append(Cand('%s<=strlen(%s)+1' % (k, lv.root[1]), lambda s, k=k, fs=fs, lv=lv: getf(s.vars[k], fs) <= slen(e.load(s, lv).p) + 1))
                            else:
                                out.append(Cand('%s<=len(%s)' % (k, lv.root[1]), lambda s, k=k, fs=fs, lv=lv: getf(s.vars[k], fs) <= e.load(s, lv).p['len']))
                    for c in cursors:
                        if (c.key, c.fs) != (k, fs):
                            out.append(Cand('%s-lockstep' % k, lambda s, k=k, fs=fs, x=p0, c=c: getf(s.vars[k], fs) - x == c.cur(s) - c.i0))
        # container lengths never drop below / stay at their entry values
        p0 = None
        if r == 'var':
            p0 = getf(entry.vars[k], fs)
            if isinstance(p0, dict) and 'len' in p0 and 'arr' in p0:
                g = lambda s, k=k, fs=fs: getf(s.vars[k], fs)
                out.append(Cand('len(%s)>=entry' % k, lambda s, g=g, l=p0['len']: g(s)['len'] >= l))
                out.append(Cand('len(%s)==entry' % k, lambda s, g=g, l=p0['len']: g(s)['len'] == l))
                def keep(s, g=g, p0=p0):
                    j = z3.Const('j', Int)
                    cur = g(s)
                    fs_ = [(a, b) for (_, a), (_, b) in zip(leaves(cur['arr']), leaves(p0['arr'])) if not a.eq(b)]
                    if not fs_:
                        return z3.BoolVal(True)
                    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p0['len']), z3.And(*[a[j] == b[j] for a, b in fs_])), patterns=[a[j] for a, b in fs_])
                out.append(Cand('entry elements of %s kept' % k, keep))
    return out

def unchanged(e, entry, h, W):
    """Leaves that every completed iteration leaves alone; old heap objects untouched."""
    out = []
    for r, k, fs in sorted(W, key=str):
        if r == 'var':
            p0 = getf(entry.vars[k], fs)
            if isinstance(p0, IterV) or not isinstance(p0, (dict, z3.ExprRef)):
                continue
            for path, x0 in leaves(p0):
                if not isinstance(x0, z3.ExprRef):
                    continue
                out.append(Cand('%s%s unchanged' % (k, list(path) or ''), lambda s, k=k, fs=fs, path=path, x0=x0: getf(s.vars[k], fs + path) == x0))
        else:
            e.heap_of(entry, k)
            p0 = getf(entry.heap[k], fs)
            a0 = e.gget(entry, 'alloc')
            for path, x0 in leaves(p0):
                out.append(Cand('heap %s%s unchanged' % (k, fs + path), lambda s, k=k, fs=fs, path=path, x0=x0: getf(s.heap[k], fs + path) == x0))
                def old(s, k=k, fs=fs, path=path, x0=x0):
                    x = getf(s.heap[k], fs + path)
                    if x.eq(x0):
                        return z3.BoolVal(True)
                    q = z3.Const('r', Int)
                    return z3.ForAll([q], z3.Implies(q <= a0, x[q] == x0[q]), patterns=[x[q]])
                out.append(Cand('heap %s%s of old objects unchanged' % (k, fs + path), old))
    return out

# ------------------------------------------------------------------ templates
def subst_lv(lv, sub):
    def f(x):
        return z3.substitute(x, *sub) if isinstance(x, z3.ExprRef) and sub else x
    return LV(tuple(f(x) for x in lv.root), tuple((a, f(b)) for a, b in lv.path), lv.t)

def psub(p, sub):
    if isinstance(p, dict):
        return {k: psub(v, sub) for k, v in p.items()}
    if isinstance(p, z3.ExprRef):
        return z3.substitute(p, *sub) if sub else p
    return p

def all_consts(f):
    return consts_newer(f, -2)

def one_point(fs, fv):
    """Eliminate existential variables that are defined by an equality."""
    fs = list(fs)
    flat_ = []
    for f in fs:
        while z3.is_not(f) and z3.is_not(f.arg(0)):
            f = f.arg(0).arg(0)
        flat_ += list(f.children()) if z3.is_and(f) else [f]
    fs = flat_
    for v in fv.values():
        for f in fs:
            if z3.is_eq(f):
                a, b = f.arg(0), f.arg(1)
                d = None
                if a.eq(v) and not any(c.eq(v) for c in all_consts(b)):
                    d = b
                elif b.eq(v) and not any(c.eq(v) for c in all_consts(a)):
                    d = a
                if d is not None:
                    fs = [z3.substitute(g, (v, d)) for g in fs if not g.eq(f)]
                    break
    return [f for f in (simp(g) for g in fs) if not z3.is_true(f)]

def templates(e, entry, h, backs, cursors, W):
    """Candidates read off the effects of one arbitrary iteration (see DESIGN.md, loop templates)."""
    out = []
    c0 = cursors[0]
    i, i0 = None, c0.i0
    # cursor constant of this probe
    ph = c0.val(h)
    i = ph.idx if isinstance(ph, IterV) else ph
    j = z3.Const('j!b', Int)
    # classification of the modified leaves
    hleaf = {}     # const id -> (entry term)
    hconst = {}
    for r, k, fs in W:
        if r == 'var':
            p0, p1 = getf(entry.vars[k], fs), getf(h.vars[k], fs)
            if isinstance(p1, IterV) or not isinstance(p1, (dict, z3.ExprRef)):
                if isinstance(p1, IterV) and p1.idx is not None:
                    hconst[p1.idx.get_id()] = ('cursor', k, p1.idx, p0.idx)
                continue
        else:
            p0, p1 = getf(e.heap_of(entry, k), fs), getf(h.heap[k], fs)
        for (path, a), (_, b) in zip(leaves(p0), leaves(p1)):
            if isinstance(b, z3.ExprRef):
                hconst[b.get_id()] = ('leaf', (r, k, fs + path), b, a)
    cursor_sub = []
    for c in cursors:
        p = c.val(h)
        ci = p.idx if isinstance(p, IterV) else p
        cursor_sub.append((ci, j if c is c0 else c.i0 + (j - i0)))
    # locations only ever updated element-wise: their pre-iteration value at the current element is the entry value
    elementwise = {}
    bad = set()
    cases = []
    hn = len(h.pc)
    for b in backs:
        eff = [x for x in (b.log or [])]
        sets, pushes, inss, mputs, opaque = {}, [], [], [], False
        for x in eff:
            if x[0] == 'loop':
                opaque = True
                continue
            lv = x[1]
            if lv.root[0] == 'var' and lv.root[1] not in entry.vars:
                continue
            if lv.root[0] == 'var' and any(lv.root[1] == c.key and not c.fs for c in cursors) and not lv.path:
                continue
            if x[0] == 'push':
                pushes.append((lv, x[2]))
            elif x[0] == 'ins':
                inss.append((lv, x[2]))
            elif x[0] == 'mput':
                mputs.append((lv, x[2], x[3]))
            elif x[0] == 'set':
                sets[lv.key()] = lv
            else:
                bad.add(lv.root[1] if lv.root[0] == 'var' else lv.root[1:2])
                opaque = True
        cases.append((b, sets, pushes, inss, mputs, opaque))
    leaf_sub = [(v[2], v[3]) for v in hconst.values() if v[0] == 'leaf' and not v[2].eq(v[3])]
    tainted = set()
    def heap_leaves(lv):
        p = e.heap_of(h, lv.root[1])
        for a, x in lv.path:
            if a != 'f':
                break
            p = p[x]
        return leaves(p)
    for b, sets, pushes, inss, mputs, opaque in cases:
        for lv, _ in pushes + inss:
            for path, x in (heap_leaves(lv) if lv.root[0] == 'heap' else leaves(e.load(h, lv).p)):
                tainted.add(x.get_id())
        for lv in sets.values():
            if lv.root[0] == 'var' and not any(a == 'i' or a == 'k' for a, _ in lv.path):
                p = e.load(h, lv).p
                for path, x in leaves(p) if isinstance(p, (dict, z3.ExprRef)) else []:
                    if isinstance(x, z3.ExprRef):
                        tainted.add(x.get_id())
    forms = []
    for b, sets, pushes, inss, mputs, opaque in cases:
        conj = []
        fresh_v = {}
        new = b.pc[hn:]
        mark = max([const_no(v[2]) for v in hconst.values()] + [0])
        def clean(x):
            """substituted term, or None when it depends on something that is not a function of the element."""
            cs = all_consts(x)
            for c in cs:
                if c.get_id() in tainted:
                    return None
            y = z3.substitute(x, *(cursor_sub + leaf_sub)) if (cursor_sub or leaf_sub) else x
            for c in consts_newer(y, mark):
                if c.eq(j):
                    continue
                if c.sort() not in (Int, Bool, Str):
                    return None
                fresh_v[c.get_id()] = c
            return y
        for f in new:
            if z3.is_and(f) and f.num_args() == 2 and not has_quant(f) and z3.is_le(f.arg(1)) and z3.is_ge(f.arg(0)):
                continue  # range facts
            if has_quant(f) and len(f.sexpr()) > 3000:
                continue
            y = clean(f)
            if y is not None:
                conj.append(y)
        forms.append((b, conj, fresh_v, sets, pushes, inss, mputs, opaque, clean))

    def close_case(fs, fv):
        body = pand(one_point(fs, fv))
        vs = [v for v in fv.values() if any(v.eq(c) for c in all_consts(body))]
        return z3.Exists(vs, body) if vs else body

    def rngj(s):
        return z3.And(j >= i0, j < c0.cur(s))

    changing = {k for k in hconst} | {ci.get_id() for ci, _ in cursor_sub}
    mark0 = max([const_no(v[2]) for v in hconst.values()] + [0])
    def fixed(lv):
        """The location is the same object in every iteration."""
        if lv.root[0] == 'var':
            return True
        return not any(c.get_id() in changing or const_no(c) > mark0 for c in all_consts(lv.root[2]))
    # objects other than the fixed ones that the body writes to stay as they were
    groups = {}
    okg = set()
    for b, sets, pushes, inss, mputs, opaque in cases:
        for lv in list(sets.values()) + [x[0] for x in pushes + inss] + [x[0] for x in mputs]:
            if lv.root[0] != 'heap':
                continue
            fs = []
            for a, x in lv.path:
                if a != 'f':
                    break
                fs.append(x)
            if not fixed(lv):
                okg.add(lv.root[1])
            groups.setdefault(lv.root[1], {})[lv.root[2].get_id()] = lv.root[2]
    for tk, refs in groups.items():
        if tk in okg:
            continue
        for r_, k_, fs_ in W:
            if r_ == 'heap' and k_ == tk:
                for path, x0 in leaves(getf(e.heap_of(entry, tk), fs_)):
                    def others(s, tk=tk, fs_=fs_, path=path, x0=x0, refs=refs):
                        x = getf(e.heap_of(s, tk), fs_ + path)
                        if x.eq(x0):
                            return z3.BoolVal(True)
                        q = z3.Const('q!r', Int)
                        return z3.ForAll([q], z3.Implies(z3.And(*[q != y for y in refs.values()]), x[q] == x0[q]), patterns=[x[q]])
                    out.append(Cand('other objects unchanged (%s%s)' % (tk, fs_ + path), others))
    for b, sets, pushes, inss, mputs, opaque in cases:
        for lv, _ in pushes:
            if lv.root[0] == 'heap' and fixed(lv):
                l0 = e.load(entry.copy(), lv).p
                out.append(Cand('len of %s grows' % (lv.root[2],), lambda s, lv=lv, l0=l0: e.load(s.copy(), lv).p['len'] >= l0['len']))
                def keep(s, lv=lv, p0=l0):
                    k = z3.Const('k!b', Int)
                    cur = e.load(s.copy(), lv).p
                    fs_ = [(a, b_) for (_, a), (_, b_) in zip(leaves(cur['arr']), leaves(p0['arr'])) if not a.eq(b_)]
                    if not fs_:
                        return z3.BoolVal(True)
                    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p0['len']), z3.And(*[a[k] == b_[k] for a, b_ in fs_])), patterns=[a[k] for a, b_ in fs_])
                out.append(Cand('entry elements of %s kept' % (lv.root[2],), keep))
    pats_j = None
    # (a) what every completed iteration established about its element
    pure = [close_case(f[1], f[2]) for f in forms]
    if pure and all(not z3.is_true(x) for x in pure):
        body = por(pure)
        out.append(Cand('every earlier element took a continuing path', lambda s: z3.ForAll([j], z3.Implies(rngj(s), body))))
        if len(pure) > 1:
            # conjuncts common to all paths separately (weaker, more robust)
            for x in forms[0][1]:
                if all(any(x.eq(y) for y in f[1]) for f in forms[1:]) and not consts_outside(x, forms[0][2]):
                    out.append(Cand('common condition of earlier elements', lambda s, x=x: z3.ForAll([j], z3.Implies(rngj(s), x))))

    # (b) with effects
    pushed = {}
    for fi, (b, conj, fv, sets, pushes, inss, mputs, opaque, clean) in enumerate(forms):
        for lv, p in pushes + inss:
            pushed.setdefault(lv.key(), (lv, []))[1].append((fi, p))
    def elem_sets(fi):
        """element-wise locations written by a case, as functions of the element"""
        o = {}
        for lv in forms[fi][3].values():
            if lv.root[0] == 'heap' and not fixed(lv) or any(a in ('i', 'k') for a, _ in lv.path):
                l2 = subst_lv(lv, cursor_sub + leaf_sub)
                if forms[fi][8](lv.root[2] if lv.root[0] == 'heap' else num(0)) is None:
                    continue
                if any(const_no(c) > mark0 for a, x in l2.path if a in ('i', 'k') for c in all_consts(x)):
                    continue
                if l2.root[0] == 'heap' and any(const_no(c) > mark0 for c in all_consts(l2.root[2])):
                    continue
                o[l2.key()] = l2
        return o
    union_sets = {}
    for fi in range(len(forms)):
        union_sets.update(elem_sets(fi))
    def effect_formula(s, fi):
        b, conj, fv, sets, pushes, inss, mputs, opaque, clean = forms[fi]
        fs = list(conj)
        mine = elem_sets(fi)
        for key, l2 in union_sets.items():
            if key not in mine:
                a_, b_ = e.load(s.copy(), l2).p, e.load(entry.copy(), l2).p
                if isinstance(a_, (dict, z3.ExprRef)):
                    fs += [x == y for (_, x), (_, y) in zip(leaves(a_), leaves(b_)) if not x.eq(y)]
        for lv in sets.values():
            l2 = subst_lv(lv, cursor_sub + leaf_sub)
            fin = e.load(b.copy(), lv).p
            cur = e.load(s.copy(), l2).p
            if isinstance(fin, IterV):
                continue
            for (path, x), (_, y) in zip(leaves(fin), leaves(cur)):
                if not isinstance(x, z3.ExprRef):
                    continue
                z = clean(x)
                if z is not None:
                    fs.append(y == z)
        for lv, p in pushes + inss:
            cp = {path: clean(x) for path, x in leaves(p)}
            if any(v is None for v in cp.values()):
                continue
            cur = e.load(s.copy(), lv).p
            k = z3.Const('k!b', Int)
            l0 = e.load(entry.copy(), lv).p['len'] if (lv, p) in pushes else num(0)
            fs.append(z3.Exists([k], z3.And(k >= l0, k < cur['len'], *[a[k] == cp[path] for path, a in leaves(cur['arr'])])))
        for lv, kk, v in mputs:
            zk = clean(kk)
            if zk is None:
                continue
            cur = e.load(s.copy(), lv).p
            fs.append(cur['dom'][zk])
        return close_case(fs, fv)
    if any(f[3] or f[4] or f[5] or f[6] for f in forms):
        eff = Cand('effects of earlier iterations', lambda s: z3.ForAll([j], z3.Implies(rngj(s), por([effect_formula(s, k) for k in range(len(forms))]))))
        out.append(eff)
        if not any(f[3] or f[5] or f[6] for f in forms):
            eff.unless = tuple('elements added to %s in order' % (lv.root[1],) for key, (lv, lst) in pushed.items())

    # (c) origin of pushed elements
    for key, (lv, lst) in pushed.items():
        def origin(s, lv=lv, lst=lst):
            cur = e.load(s.copy(), lv).p
            l0 = e.load(entry.copy(), lv).p['len']
            k = z3.Const('k!b', Int)
            alts = []
            for fi, p in lst:
                b, conj, fv, sets, pushes, inss, mputs, opaque, clean = forms[fi]
                cp = {path: clean(x) for path, x in leaves(p)}
                eqs = [a[k] == cp[path] for path, a in leaves(cur['arr']) if cp[path] is not None]
                alts.append(close_case(list(conj) + eqs, fv))
            return z3.ForAll([k], z3.Implies(z3.And(k >= l0, k < cur['len']), z3.Exists([j], z3.And(rngj(s), por(alts)))), patterns=[a[k] for _, a in leaves(cur['arr'])])
        out.append(Cand('origin of elements added to %s' % (lv.root[1],), origin, unless=('elements added to %s in order' % (lv.root[1],),)))
        for path, a in leaves(e.load(entry.copy(), lv).p['arr']):
            if a.sort().range() == Int:
                def distinct(s, lv=lv, path=path):
                    cur = e.load(s.copy(), lv).p
                    l0 = e.load(entry.copy(), lv).p['len']
                    k, k2 = z3.Const('k!b', Int), z3.Const('k!c', Int)
                    a = getf(cur['arr'], path)
                    return z3.ForAll([k, k2], z3.Implies(z3.And(k >= l0, k < k2, k2 < cur['len']), a[k] != a[k2]), patterns=[z3.MultiPattern(a[k], a[k2])])
                out.append(Cand('elements added to %s are distinct' % (lv.root[1],), distinct))
        if len(lst) == len(forms) and all(len([1 for fi, _ in lst if fi == q]) == 1 for q in range(len(forms))):
            out.append(Cand('one element added to %s per iteration' % (lv.root[1],), lambda s, lv=lv: e.load(s.copy(), lv).p['len'] == e.load(entry.copy(), lv).p['len'] + (c0.cur(s) - i0)))
            def exact(s, lv=lv, lst=lst):
                cur = e.load(s.copy(), lv).p
                l0 = e.load(entry.copy(), lv).p['len']
                alts = []
                for fi, p in lst:
                    b, conj, fv, sets, pushes, inss, mputs, opaque, clean = forms[fi]
                    cp = {path: clean(x) for path, x in leaves(p)}
                    eqs = [a[l0 + (j - i0)] == cp[path] for path, a in leaves(cur['arr']) if cp[path] is not None]
                    alts.append(close_case(list(conj) + eqs, fv))
                return z3.ForAll([j], z3.Implies(rngj(s), por(alts)))
            def exactk(s, lv=lv, lst=lst):
                cur = e.load(s.copy(), lv).p
                l0 = e.load(entry.copy(), lv).p['len']
                k = z3.Const('k!b', Int)
                alts = []
                for fi, p in lst:
                    b, conj, fv, sets, pushes, inss, mputs, opaque, clean = forms[fi]
                    cp = {path: clean(x) for path, x in leaves(p)}
                    eqs = [a[k] == z3.substitute(cp[path], (j, k - l0 + i0)) for path, a in leaves(cur['arr']) if cp[path] is not None]
                    alts.append(close_case([z3.substitute(x, (j, k - l0 + i0)) for x in conj] + eqs, fv))
                return z3.ForAll([k], z3.Implies(z3.And(k >= l0, k < cur['len']), por(alts)), patterns=[a[k] for _, a in leaves(cur['arr'])])
            if any(lv.key() == l.key() for f in forms for l, _ in f[4]):
                out.append(Cand('elements added to %s in order' % (lv.root[1],), exactk))
    # (f) frames of element-wise updates
    seen = set()
    for fi, (b, conj, fv, sets, pushes, inss, mputs, opaque, clean) in enumerate(forms):
        for lv in sets.values():
            fpath = tuple(x for a, x in lv.path if a == 'f')
            if lv.root[0] == 'heap' and not fixed(lv):
                ident = (lv.root[1], fpath)
            else:
                ident = (lv.root[1], tuple(a if a != 'f' else x for a, x in lv.path))
            if ident in seen:
                continue
            seen.add(ident)
            out += frame_cands(e, entry, lv, c0, i0, j, cursor_sub + leaf_sub, clean, forms, rngj, fixed(lv))
    for fi, (b, conj, fv, sets, pushes, inss, mputs, opaque, clean) in enumerate(forms):
        for lv, kk, v in mputs:
            ident = ('map', lv.key())
            if ident in seen:
                continue
            seen.add(ident)
            def keys(s, lv=lv):
                cur = e.load(s.copy(), lv).p
                p0 = e.load(entry.copy(), lv).p
                q = fresh_const(cur['dom'].sort().domain(), 'q')
                alts = []
                for f in forms:
                    for l2, k2, v2 in f[6]:
                        if l2.key() == lv.key():
                            z = f[8](k2)
                            if z is not None:
                                alts.append(close_case(list(f[1]) + [q == z], f[2]))
                return z3.ForAll([q], z3.Implies(cur['dom'][q], z3.Or(p0['dom'][q], z3.Exists([j], z3.And(rngj(s), por(alts))))), patterns=[cur['dom'][q]])
            def mono(s, lv=lv):
                cur = e.load(s.copy(), lv).p
                p0 = e.load(entry.copy(), lv).p
                q = fresh_const(cur['dom'].sort().domain(), 'q')
                return z3.ForAll([q], z3.Implies(p0['dom'][q], cur['dom'][q]), patterns=[cur['dom'][q], p0['dom'][q]])
            def oldvals(s, lv=lv):
                cur = e.load(s.copy(), lv).p
                p0 = e.load(entry.copy(), lv).p
                q = fresh_const(cur['dom'].sort().domain(), 'q')
                eqs = [a[q] == b_[q] for (_, a), (_, b_) in zip(leaves(cur['val']), leaves(p0['val']))]
                return z3.ForAll([q], z3.Implies(p0['dom'][q], z3.And(*eqs)))
            def srcvals(s, lv=lv):
                cur = e.load(s.copy(), lv).p
                p0 = e.load(entry.copy(), lv).p
                q = fresh_const(cur['dom'].sort().domain(), 'q')
                alts = []
                for f in forms:
                    for l2, k2, v2 in f[6]:
                        if l2.key() == lv.key():
                            z = f[8](k2)
                            eqs = []
                            for path, x in leaves(v2):
                                # value actually put, ignoring the case of an existing key
                                y = x.arg(2) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE else x
                                zz = f[8](y)
                                if zz is not None:
                                    eqs.append(getf(cur['val'], path)[q] == zz if path else cur['val'][q] == zz)
                            if z is not None:
                                alts.append(close_case(list(f[1]) + [q == z] + eqs, f[2]))
                return z3.ForAll([q], z3.Implies(z3.And(cur['dom'][q], z3.Not(p0['dom'][q])), z3.Exists([j], z3.And(rngj(s), por(alts)))), patterns=[cur['dom'][q]])
            out += [Cand('keys of %s' % (lv.root[1],), keys), Cand('keys of %s kept' % (lv.root[1],), mono),
                    Cand('old values of %s kept' % (lv.root[1],), oldvals), Cand('origin of values of %s' % (lv.root[1],), srcvals)]
    return out

def drains(e, entry, h, backs, W):
    """Loops that take the first element off a container in every iteration (while (!q.empty()) ... q.pop())."""
    out = []
    tgt = None
    for b in backs:
        er = [x for x in (b.log or []) if x[0] == 'erase' and not (x[1].root[0] == 'var' and x[1].root[1] not in entry.vars)]
        if len(er) != 1 or not (z3.is_int_value(er[0][2]) and er[0][2].as_long() == 0):
            return out
        if tgt is not None and tgt.key() != er[0][1].key():
            return out
        tgt = er[0][1]
        if any(x[0] == 'loop' or (x[0] != 'erase' and x[1].key() == tgt.key()) for x in b.log):
            return out
    if tgt is None:
        return out
    changing = set()
    for r, k, fs in W:
        p = getf(h.vars[k], fs) if r == 'var' else getf(h.heap[k], fs)
        for _, x in leaves(p) if isinstance(p, (dict, z3.ExprRef)) else []:
            if isinstance(x, z3.ExprRef):
                changing.add(x.get_id())
    def fixed(lv):
        xs = [x for x in list(lv.root[2:]) + [y for a, y in lv.path if a in ('i', 'k')] if isinstance(x, z3.ExprRef)]
        return not any(c.get_id() in changing for x in xs for c in all_consts(x))
    if not fixed(tgt):
        return out
    D = lambda s: e.load(s.copy(), tgt).p
    d0 = D(entry)
    popped = lambda s: d0['len'] - D(s)['len']
    k = z3.Const('k!b', Int)
    out.append(Cand('elements were only taken off', lambda s: z3.And(D(s)['len'] >= 0, D(s)['len'] <= d0['len'])))
    def shift(s):
        d = D(s)
        prs = [(a, b) for (_, a), (_, b) in zip(leaves(d['arr']), leaves(d0['arr'])) if not a.eq(b)]
        if not prs:
            return z3.BoolVal(True)
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d['len']), z3.And(*[a[k] == b[k + popped(s)] for a, b in prs])), patterns=[a[k] for a, b in prs])
    out.append(Cand('the rest of the container is a suffix', shift))
    groups = {}
    for b in backs:
        for x in b.log:
            if x[0] in ('loop',) or x[1].root[0] != 'heap':
                continue
            groups.setdefault(x[1].root[1], {})[x[1].root[2].get_id()] = x[1]
    for tk, lvs in groups.items():
        if not all(fixed(lv) for lv in lvs.values()):
            continue
        for r_, k_, fs_ in W:
            if r_ != 'heap' or k_ != tk:
                continue
            for path, x0 in leaves(getf(e.heap_of(entry, tk), fs_)):
                def others(s, tk=tk, fs_=fs_, path=path, x0=x0, lvs=lvs):
                    x = getf(e.heap_of(s, tk), fs_ + path)
                    if x.eq(x0):
                        return z3.BoolVal(True)
                    q = z3.Const('q!r', Int)
                    return z3.ForAll([q], z3.Implies(z3.And(*[q != lv.root[2] for lv in lvs.values()]), x[q] == x0[q]), patterns=[x[q]])
                out.append(Cand('other objects unchanged (%s%s)' % (tk, fs_ + path), others))
    # other keys of a map of containers
    ks = [(n_, x) for n_, (a, x) in enumerate(tgt.path) if a == 'k']
    if len(ks) == 1:
        n_, key = ks[0]
        mlv = LV(tgt.root, tgt.path[:n_], ('opq', 'x'))
        m0 = e.load(entry.copy(), mlv).p['val']
        for (path, x0) in leaves(m0):
            def okeys(s, path=path, x0=x0):
                x = getf(e.load(s.copy(), mlv).p['val'], path)
                if x.eq(x0):
                    return z3.BoolVal(True)
                q = z3.Const('q!r', x.sort().domain())
                return z3.ForAll([q], z3.Implies(q != key, x[q] == x0[q]), patterns=[x[q]])
            out.append(Cand('other keys unchanged', okeys))
    # containers that receive the elements
    seen = set()
    for x in backs[0].log:
        if x[0] != 'push' or not fixed(x[1]) or x[1].key() in seen:
            continue
        if x[1].root[0] == 'var' and x[1].root[1] not in entry.vars:
            continue
        if not all(len([1 for y in b.log if y[0] == 'push' and y[1].key() == x[1].key()]) == 1 for b in backs):
            continue
        lv = x[1]
        seen.add(lv.key())
        r0 = e.load(entry.copy(), lv).p
        R = lambda s, lv=lv: e.load(s.copy(), lv).p
        out.append(Cand('one element moved per iteration', lambda s, R=R, r0=r0: R(s)['len'] == r0['len'] + popped(s)))
        def keep(s, R=R, r0=r0):
            prs = [(a, b) for (_, a), (_, b) in zip(leaves(R(s)['arr']), leaves(r0['arr'])) if not a.eq(b)]
            return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r0['len']), z3.And(*[a[k] == b[k] for a, b in prs])), patterns=[a[k] for a, b in prs]) if prs else z3.BoolVal(True)
        out.append(Cand('entry elements kept', keep))
        if [q for q, _ in leaves(r0['arr'])] == [q for q, _ in leaves(d0['arr'])]:
            def moved(s, R=R, r0=r0):
                prs = [(a, b) for (_, a), (_, b) in zip(leaves(R(s)['arr']), leaves(d0['arr']))]
                return z3.ForAll([k], z3.Implies(z3.And(r0['len'] <= k, k < R(s)['len']), z3.And(*[a[k] == b[k - r0['len']] for a, b in prs])), patterns=[a[k] for a, b in prs])
            def moved2(s, R=R, r0=r0):
                prs = [(a, b) for (_, a), (_, b) in zip(leaves(R(s)['arr']), leaves(d0['arr']))]
                return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < popped(s)), z3.And(*[a[k + r0['len']] == b[k] for a, b in prs])), patterns=[b[k] for a, b in prs])
            out.append(Cand('the elements taken off were added in order', moved))
            out.append(Cand('the elements taken off were added in order (by source)', moved2))
    return out

def consts_outside(x, fv):
    return any(v.eq(c) for v in fv.values() for c in all_consts(x))

def frame_cands(e, entry, lv, c0, i0, j, sub, clean, forms, rngj, fixed=True):
    out = []
    if lv.root[0] == 'heap' and not fixed:
        ref = clean(lv.root[2])
        fs = []
        for a, x in lv.path:
            if a != 'f':
                break
            fs.append(x)
        fs = tuple(fs)
        tk = lv.root[1]
        def fr(s):
            q = z3.Const('q!r', Int)
            cur, old = getf(e.heap_of(s, tk), fs), getf(e.heap_of(entry, tk), fs)
            alts = []
            for f in forms:
                for l2 in f[3].values():
                    if l2.root[0] == 'heap' and l2.root[1] == tk and tuple(x for a, x in l2.path if a == 'f')[:len(fs)] == fs:
                        z = f[8](l2.root[2])
                        if z is None:
                            return z3.BoolVal(True)
                        vs = [v for v in f[2].values() if any(v.eq(c) for c in all_consts(z))]
                        alts.append(z3.Exists(vs, q == z) if vs else q == z)
            eqs = [a[q] == b[q] for (_, a), (_, b) in zip(leaves(cur), leaves(old)) if not a.eq(b)]
            if not eqs:
                return z3.BoolVal(True)
            return z3.ForAll([q], z3.Or(z3.And(*eqs), z3.Exists([j], z3.And(rngj(s), por(alts)))), patterns=[a[q] for (_, a), (_, b) in zip(leaves(cur), leaves(old)) if not a.eq(b)])
        out.append(Cand('only visited objects change (%s)' % (fs,), fr))
        return out
    idx = [(n_, a, x) for n_, (a, x) in enumerate(lv.path) if a in ('i', 'k')]
    if not idx:
        return out
    n_, a, x = idx[0]
    clv = LV(lv.root, lv.path[:n_], None)
    kk = 'arr' if a == 'i' else 'val'
    rest = [y for b, y in lv.path[n_ + 1:] if b == 'f'] if all(b == 'f' for b, y in lv.path[n_ + 1:]) else []
    z = clean(x)
    def getarr(s):
        p = e.load(s.copy(), LV(clv.root, clv.path, ('opq', 'x'))).p[kk]
        for r in rest:
            p = p[r]
        return p
    if z is None:
        return out
    def fr2(s):
        cur, old = getarr(s), getarr(entry)
        prs = [(p, q) for (_, p), (_, q) in zip(leaves(cur), leaves(old)) if not p.eq(q)]
        if not prs:
            return z3.BoolVal(True)
        q = fresh_const(prs[0][0].sort().domain(), 'q')
        if a == 'i' and z.eq(j):
            cond = z3.Or(q < i0, q >= c0.cur(s))
        else:
            cond = z3.Not(z3.Exists([j], z3.And(rngj(s), q == z)))
        return z3.ForAll([q], z3.Implies(cond, z3.And(*[p[q] == o[q] for p, o in prs])), patterns=[p[q] for p, o in prs])
    out.append(Cand('only visited elements change', fr2))
    return out

# ------------------------------------------------------------------ algorithms that are loops
def algorithm(lib, st, name, vs, n):
    e = lib.e
    it, lo, hi = lib.rng(st, vs[0], vs[1])
    cur = e.newvar(st, ('iter',), it.with_idx(lo), 'alg_it')
    acc = None
    if name in ('count_if', 'count'):
        acc = e.newvar(st, I64, num(0), 'alg_acc')
    if name == 'accumulate':
        v = e.load(st, vs[2])
        acc = e.newvar(st, v.t, v.p, 'alg_acc')
    def cond_fn(s):
        return e.branch(s, s.vars[cur.root[1]].idx < hi)
    def body_fn(s):
        idx = s.vars[cur.root[1]].idx
        el = lib.elem_at(s, it, idx)
        if name == 'for_each':
            r = e.invoke(s, e.load(s, vs[2]), [el], n)
            return [x for x, _ in r]
        if name == 'count_if':
            out = []
            for x, v in e.invoke(s, e.load(s, vs[2]), [el], n):
                if x.flow is not None:
                    out.append(x); continue
                for y, b in e.branch(x, e.conv(x, e.load(x, v), BOOL).p):
                    if b:
                        e.store(y, acc, Val(I64, e.load(y, acc).p + 1))
                    out.append(y)
            return out
        if name == 'accumulate':
            a = e.load(s, acc)
            if len(vs) > 3:
                out = []
                for x, v in e.invoke(s, e.load(s, vs[3]), [a, el], n):
                    if x.flow is None:
                        e.store(x, acc, e.conv(x, e.load(x, v), acc.t))
                    out.append(x)
                return out
            e.store(s, acc, e.binop(s, '+', a, e.load(s, el), n))
            return [s]
        if name in ('transform', 'copy_if'):
            d = e.load(s, vs[2])
            if not (isinstance(d.p, tuple) and d.p[0] == 'back_inserter'):
                raise Unsupported(name, n)
            out = []
            for x, v in e.invoke(s, e.load(s, vs[3]), [el], n):
                if x.flow is not None:
                    out.append(x); continue
                if name == 'transform':
                    for y, pv in lib.mk_elem(x, elem_type(d.p[1].t), [v], n):
                        lib.push(y, d.p[1], pv)
                        out.append(y)
                else:
                    for y, b in e.branch(x, e.conv(x, e.load(x, v), BOOL).p):
                        if b:
                            lib.push(y, d.p[1], e.load(y, el).p)
                        out.append(y)
            return out
        raise Unsupported(name, n)
    def inc_fn(s):
        p = s.vars[cur.root[1]]
        e.store(s, cur, p.with_idx(z3.simplify(p.idx + 1)))
        return [s]
    res = loop(e, st, n, cond_fn, body_fn, inc_fn)
    out = []
    for s in res:
        if s.flow is not None:
            out.append((s, None))
        elif acc is not None:
            out.append((s, e.load(s, acc)))
        elif name == 'for_each':
            out.append((s, Val(VOID, num(0))))
        else:
            out.append((s, e.load(s, vs[2])))
    return out
