"""Contracts of worker, its header matchers and the matching of headers (C04), and of what the handler assumes of workers.

A matcher object has a kind (its dynamic class) and the declared value it was constructed with (ghost `mval`):
  header_matcher           accepts exactly the declared value
  multiple_string_matcher  accepts v iff one of the '|'-separated alternatives of v is the (non-empty) declared value
  count_matcher            accepts v iff both are numbers and the declared one is at least v
"""
import z3
from core import *
import core
from engine import Engine, Val, LV, St, Obligation
import spec_qm
import loops

FILES = ['src/worker.cpp']
WK = spec_qm.WK
IA, SA = spec_qm.IA, spec_qm.SA
MM = ('mmap', STR, STR)
KINDS = ('header_matcher', 'multiple_string_matcher', 'count_matcher')
BAR = lit('|')
barc = num(ord('|'))

# ------------------------------------------------------------------ what the matchers accept
def start(v, i):
    return z3.Or(i == 0, schr(v, i - 1) == barc)
def stop(v, i):
    p = sfind(v, BAR, i)
    return z3.If(p == NPOS, slen(v), p)
def alternative(v, my):
    i = z3.Int('i!alt')
    return z3.Exists([i], z3.And(0 <= i, i < slen(v), start(v, i), ssub(v, i, stop(v, i)) == my))
def number(s):
    return stoi_ok(s, ukind()) == 0
def value(s):
    return stoi_val(s, ukind())
def ukind():
    return num(3)       # conversion to unsigned 64 bit numbers (std::stoul), see stl.py

def accepts(kind, my, v):
    if kind == 'header_matcher':
        return v == my
    if kind == 'multiple_string_matcher':
        return alternative(v, my)
    return z3.And(number(my), number(v), value(my) >= value(v))

def bar_axioms():
    """What std::string::find does for the separator."""
    s, f, q = z3.Const('s', Str), z3.Const('f', Int), z3.Const('q', Int)
    p = sfind(s, BAR, f)
    return [z3.ForAll([s, f], z3.Implies(p != NPOS, z3.And(f <= p, p < slen(s), schr(s, p) == barc)), patterns=[p]),
            z3.ForAll([s, f, q], z3.Implies(z3.And(0 <= f, f <= q, q < slen(s), z3.Or(p == NPOS, q < p)), schr(s, q) != barc), patterns=[z3.MultiPattern(p, schr(s, q))])]

def new_engine(prog, name):
    import stl
    e = Engine(prog, name)
    return e

def base_state(e):
    st = St()
    st.vars['g:alloc'] = z3.Int('alloc0')
    e.assume(st, st.vars['g:alloc'] >= 100)
    return st

def method(prog, cls, name):
    ds = [d for d in prog.find('%s::%s' % (cls, name)) if prog.body(d) is not None]
    if not ds:
        raise Unsupported('%s::%s not found' % (cls, name))
    return ds[0]

def ctor(e, cls, nargs):
    for m in e.all_methods(cls):
        if m.kind == 'CXXConstructorDecl' and not m.get('isImplicit') and len([p for p in m.inner if p.kind == 'ParmVarDecl']) == nargs:
            return e.prog.def_of.get(m.id) or m
    raise Unsupported('constructor of %s with %d parameters' % (cls, nargs))

def vac(e, st):
    e.obligations.append(Obligation('the precondition is satisfiable', ('VAC',), list(st.pc), z3.BoolVal(False), '', e.name, 'vacuity'))

def new_object(e, st, cls, ref, nargs, vals):
    t = ('cls', cls)
    e.T.fields(cls)
    lv = LV(('heap', e.tkey(t), ref), (), t)
    p = e.blank(t)
    if e.T.has_tag(cls):
        p['__tag'] = num(e.T.tag(cls))
    e.store(st, lv, p)
    return lv, e.init_object(st, cls, ctor(e, cls, nargs), vals, lv, None)

# ------------------------------------------------------------------ matchers
def verify_matcher(prog, cls):
    """Construct a matcher with an arbitrary declared value and ask it about an arbitrary value."""
    e = new_engine(prog, '%s::match' % cls)
    e.axioms += bar_axioms()
    st = base_state(e)
    my, v = z3.Const('declared', Str), z3.Const('requested', Str)
    for s in (my, v):
        e.lib.strlen_fact(st, s)
    if cls == 'multiple_string_matcher':
        e.assume(st, slen(my) > 0)
        e.assumptions.add('the hardware group of a worker is not empty (an empty group is outside of C04)')
    vac(e, st)
    lv, res = new_object(e, st, cls, num(60), 1, [e.newvar(st, STR, my, 'declared')])
    md = method(prog, cls, 'match')
    e.loop_specs.append(lambda e_, n, entry, h, cursors, W, backs, cands: alt_spec(e_, h, W, my, v))
    n = 0
    for s, _ in res:
        if s.flow is not None:
            e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves the constructor of a matcher' % (s.flow[1],), ('C04', 'C13'), md, 'safety')
            continue
        before = e.load(s, lv).p
        for s2, r in e.call_vals(s, md, lv, [e.newvar(s, STR, v, 'requested')], None):
            if s2.flow is not None:
                e.oblige(s2, z3.BoolVal(False), 'no exception (%s) leaves match' % (s2.flow[1],), ('C04', 'C13'), md, 'safety')
                continue
            n += 1
            res2 = e.load(s2, r).p
            spec = accepts(cls, my, v)
            what = {'header_matcher': 'equal values', 'multiple_string_matcher': 'lists with the group of the worker among the alternatives', 'count_matcher': 'numbers up to the declared one'}[cls]
            e.oblige(s2, z3.Implies(res2, spec), '%s accepts only %s' % (cls, what), ('C04',), md, 'post')
            if cls == 'multiple_string_matcher':
                i = fresh_const(Int, 'sk')
                s3 = s2.copy()
                s3.pc += [0 <= i, i < slen(v), start(v, i), ssub(v, i, stop(v, i)) == my]
                e.oblige(s3, res2, '%s accepts all %s' % (cls, what), ('C04',), md, 'post')
            else:
                e.oblige(s2, z3.Implies(spec, res2), '%s accepts all %s' % (cls, what), ('C04',), md, 'post')
            after = e.load(s2, lv).p
            if not same(before, after):
                e.oblige(s2, z3.And(*[p == q for (_, p), (_, q) in zip(leaves(before), leaves(after))]), 'a matcher does not change', ('C04',), md, 'frame')
    if n == 0:
        e.oblige(st, z3.BoolVal(False), 'match returns', ('C04',), md, 'post')
    return e

def alt_spec(e, h, W, my, v):
    out = []
    i = z3.Int('i!ls')
    for r, k, fs in W:
        if r == 'var' and not fs and isinstance(h.vars.get(k), z3.ExprRef) and h.vars[k].sort() == Int:
            o = lambda s, k=k: s.vars[k]
            out.append(loops.Cand('%s is the start of an alternative' % k, lambda s, o=o: z3.And(o(s) >= 0, o(s) <= slen(v) + 1, z3.Or(o(s) > slen(v), start(v, o(s))))))
            out.append(loops.Cand('no alternative before %s matches' % k, lambda s, o=o: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o(s), i < slen(v), start(v, i)), ssub(v, i, stop(v, i)) != my), patterns=[ssub(v, i, stop(v, i))])))
    return out

# ------------------------------------------------------------------ worker objects
def mval(e, st, ref):
    return e.gget(st, 'mval')[ref]

def install_matchers(e):
    """The matchers as the worker sees them (verified by verify_matcher)."""
    def mk(cls):
        def c(e_, s, this, vals, n):
            # the object is built in a temporary and then moved to the heap: its declared value travels in a field of its own
            fld = e_.T.fields('header_matcher')
            k = [k for k, (t, _) in fld.items() if t == STR]
            if len(k) != 1:
                raise Unsupported('declared value of header_matcher not identified')
            e_.store(s, this.f(k[0], STR), e_.load(s, vals[0]))
            return [(s, None)]
        return c
    def mt(cls):
        def c(e_, s, this, vals, n):
            k = [k for k, (t, _) in e_.T.fields('header_matcher').items() if t == STR][0]
            my, v = e_.load(s, this.f(k, STR)).p, e_.load(s, vals[0]).p
            if cls != 'header_matcher':
                return [(s, Val(BOOL, ACC[cls](my, v)))]
            return [(s, Val(BOOL, by_tag(e_, e_.load(s, this.f('__tag', I32)).p, my, v)))]      # virtual call
        return c
    if set(e.T.subclasses('header_matcher')) != set(KINDS):
        raise Unsupported('unknown kind of header matcher: %s' % sorted(e.T.subclasses('header_matcher')))
    for cls in KINDS:
        e.contracts['ctor:' + cls] = mk(cls)
        e.contracts[cls + '::match'] = mt(cls)

ACC = {c: z3.Function('accepts:' + c, Str, Str, Bool) for c in KINDS}

def wfields(e):
    fs = {k: t for k, (t, _) in e.T.fields('worker').items()}
    m = [k for k, t in fs.items() if t[0] == 'mmap' and t[2] == ('ptr', ('cls', 'header_matcher'))]
    c = [k for k, t in fs.items() if t == MM]
    if len(m) != 1 or len(c) != 1:
        raise Unsupported('fields of worker not identified')
    return m[0], c[0]

def acc_any(e, st, x, v):
    """Matcher object x accepts v (by its dynamic class)."""
    hp = e.heap_of(st, e.tkey(('cls', 'header_matcher')))
    k = [k for k, (t, _) in e.T.fields('header_matcher').items() if t == STR][0]
    tag, my = hp['__tag'][x], hp[k][x]
    T = lambda c: num(e.T.tag(c))
    return tag, my, by_tag(e, tag, my, v)

def by_tag(e, tag, my, v):
    T = lambda c: num(e.T.tag(c))
    return z3.If(tag == T('multiple_string_matcher'), ACC['multiple_string_matcher'](my, v), z3.If(tag == T('count_matcher'), ACC['count_matcher'](my, v), ACC['header_matcher'](my, v)))

def entry(e, st, name, x, hd, hw):
    """(the entry (name, matcher x) is that of the hardware group, j -> it is that of the declared header j)"""
    hp = e.heap_of(st, e.tkey(('cls', 'header_matcher')))
    k = [k for k, (t, _) in e.T.fields('header_matcher').items() if t == STR][0]
    tag, my = hp['__tag'][x], hp[k][x]
    T = lambda c: num(e.T.tag(c))
    hg = z3.And(name == lit('hwgroup'), tag == T('multiple_string_matcher'), my == hw)
    dj = lambda j: z3.And(name == hd['arr']['first'][j], my == hd['arr']['second'][j], tag == z3.If(name == lit('threads'), T('count_matcher'), T('header_matcher')))
    return hg, dj

def verify_ctor(prog):
    e = new_engine(prog, 'worker::worker')
    install_matchers(e)
    for c in KINDS:
        if c not in prog.classes:
            raise Unsupported('class %s not found' % c)
    st = base_state(e)
    idn, hw = z3.Const('id', Str), z3.Const('hw', Str)
    hd = fresh(e.T.shape(MM), 'hdr')
    e.assume(st, z3.And(hd['len'] >= 0, hd['len'] < 2 ** 60))
    mk, ck = wfields(e)
    mt = e.T.fields('worker')[mk][0]
    vac(e, st)
    d = ctor(e, 'worker', 3)
    hv = e.newvar(st, MM, hd, 'headers')
    st0 = st.copy()
    i, j = z3.Int('i!w'), z3.Int('j!w')
    def forms(s, m, upto):
        fi, se = m['arr']['first'], m['arr']['second']
        al = e.gget(s, 'alloc')
        return [('entries are matchers', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m['len']), z3.And(se[i] > 0, se[i] <= al)), patterns=[fi[i], se[i]])),
                ('entries belong to declarations', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m['len']), z3.Or(entry(e, s, fi[i], se[i], hd, hw)[0], z3.Exists([j], z3.And(0 <= j, j < upto, entry(e, s, fi[i], se[i], hd, hw)[1](j))))), patterns=[fi[i], se[i]])),
                ('the group has an entry', z3.Exists([i], z3.And(0 <= i, i < m['len'], entry(e, s, fi[i], se[i], hd, hw)[0]))),
                ('declarations have entries', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < upto), z3.Exists([i], z3.And(0 <= i, i < m['len'], entry(e, s, fi[i], se[i], hd, hw)[1](j)))), patterns=[hd['arr']['first'][j]]))]
    lvbox = [None]
    def spec(e_, n, entry, h, cursors, W, backs, cands):
        out = []
        for c in cursors:
            for q in range(4):
                out.append(loops.Cand('%s so far' % forms(h, e.load(h, lvbox[0].f(mk, mt)).p, c.cur(h))[q][0], lambda s, c=c, q=q: forms(s, e.load(s, lvbox[0].f(mk, mt)).p, c.cur(s))[q][1]))
        for c in cands:
            if out and (c.name.startswith(('effects', 'origin')) or 'distinct' in c.name):
                c.unless = tuple(q.name for q in out[:4])
        return out
    e.loop_specs.append(spec)
    t = WK
    lv = LV(('heap', e.tkey(t), num(70)), (), t)
    lvbox[0] = lv
    vals = [e.newvar(st, STR, idn, 'id'), e.newvar(st, STR, hw, 'hwgroup'), hv]
    lv, res = new_object(e, st, 'worker', num(70), 3, vals)
    n = 0
    for s, _ in res:
        if s.flow is not None:
            e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves the constructor of worker' % (s.flow[1],), ('C04', 'C13'), d, 'safety')
            continue
        n += 1
        L = lambda k, ty: e.load(s, lv.f(k, ty)).p
        e.oblige(s, z3.And(L('identity', STR) == idn, L('hwgroup', STR) == hw), 'a worker keeps its identity and hardware group', ('C19', 'C04', 'C03'), d, 'post')
        cp = L(ck, MM)
        e.oblige(s, z3.And(cp['len'] == hd['len'], z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < hd['len']), z3.And(cp['arr']['first'][i] == hd['arr']['first'][i], cp['arr']['second'][i] == hd['arr']['second'][i])))), 'a worker remembers its declared headers', ('C19',), d, 'post')
        e.oblige(s, L('liveness', SIZE) == 0, 'a new worker has not been heard of yet', ('C09',), d, 'post')
        e.oblige(s, L('description', STR) == lit(''), 'a new worker has no description', ('C19',), d, 'post')
        for nm, f in forms(s, L(mk, mt), hd['len']):
            s2 = s.copy()
            g = f
            if z3.is_quantifier(f) and f.is_forall():
                sk = fresh_const(Int, 'sk')
                g = z3.substitute_vars(f.body(), sk)
            e.oblige(s2, g, 'worker constructor: ' + nm, ('C04',), d, 'post')
    if not n:
        e.oblige(st0, z3.BoolVal(False), 'the constructor of worker returns', ('C04',), d, 'post')
    return e

def any_worker(e, st):
    """An arbitrary worker as the constructor leaves it."""
    mk, ck = wfields(e)
    mt = e.T.fields('worker')[mk][0]
    ref = z3.Int('this!w')
    lv = LV(('heap', e.tkey(WK), ref), (), WK)
    m = e.load(st, lv.f(mk, mt)).p
    i = z3.Int('i!w')
    names = []
    e.assume(st, z3.And(ref > 0, ref <= e.gget(st, 'alloc'), m['len'] >= 0, m['len'] < 2 ** 60))
    se, fi = m['arr']['second'], m['arr']['first']
    tag = e.heap_of(st, e.tkey(('cls', 'header_matcher')))['__tag']
    e.assume(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m['len']), z3.And(se[i] > 0, se[i] <= e.gget(st, 'alloc'), z3.Or(*[tag[se[i]] == num(e.T.tag(c)) for c in KINDS]))), patterns=[se[i]]))
    return lv, mk, mt

def verify_check_header(prog):
    e = new_engine(prog, 'worker::check_header')
    install_matchers(e)
    st = base_state(e)
    lv, mk, mt = any_worker(e, st)
    hn, hv = z3.Const('name', Str), z3.Const('value', Str)
    vac(e, st)
    d = method(prog, 'worker', 'check_header')
    m0 = e.load(st, lv.f(mk, mt)).p
    st0 = st.copy()
    fi, se = m0['arr']['first'], m0['arr']['second']
    i = z3.Int('i!w')
    ok = lambda i: z3.And(fi[i] == hn, acc_any(e, st0, se[i], hv)[2])
    n = 0
    for s, r in e.call_vals(st, d, lv, [e.newvar(st, STR, hn, 'header'), e.newvar(st, STR, hv, 'value')], None):
        if s.flow is not None:
            e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves check_header' % (s.flow[1],), ('C04', 'C13'), d, 'safety')
            continue
        n += 1
        res = e.load(s, r).p
        e.oblige(s, z3.Implies(res, z3.Exists([i], z3.And(0 <= i, i < m0['len'], ok(i)))), 'a header is satisfied only if a declared header of its name accepts its value', ('C04',), d, 'post')
        k = fresh_const(Int, 'sk')
        s2 = s.copy()
        s2.pc += [0 <= k, k < m0['len'], ok(k)]
        e.oblige(s2, res, 'a header is satisfied if any declared header of its name accepts its value', ('C04',), d, 'post')
        frame(e, st0, s, d)
    if not n:
        e.oblige(st0, z3.BoolVal(False), 'check_header returns', ('C04',), d, 'post')
    return e

def frame(e, st0, s, d):
    for t in (WK, ('cls', 'header_matcher')):
        x0, x1 = e.heap_of(st0, e.tkey(t)), e.heap_of(s, e.tkey(t))
        if not same(x0, x1):
            al = e.gget(st0, 'alloc')
            w = z3.Int('w!f')
            e.oblige(s, z3.ForAll([w], z3.Implies(z3.And(0 < w, w <= al), z3.And(*[p[w] == q[w] for (_, p), (_, q) in zip(leaves(x0), leaves(x1))]))), 'matching headers changes no worker and no matcher', ('C04', 'C03'), d, 'frame')

def verify_check_headers(prog):
    e = new_engine(prog, 'worker::check_headers')
    CH1 = spec_qm.CH1
    e.contracts['worker::check_header'] = lambda e_, s, this, vals, n: [(s, Val(BOOL, CH1(this.root[2], e_.load(s, vals[0]).p, e_.load(s, vals[1]).p)))]
    st = base_state(e)
    lv, mk, mt = any_worker(e, st)
    hd = fresh(e.T.shape(MM), 'hdr')
    e.assume(st, z3.And(hd['len'] >= 0, hd['len'] < 2 ** 60))
    vac(e, st)
    d = method(prog, 'worker', 'check_headers')
    st0 = st.copy()
    w = lv.root[2]
    j = z3.Int('j!w')
    n = 0
    for s, r in e.call_vals(st, d, lv, [e.newvar(st, MM, hd, 'headers')], None):
        if s.flow is not None:
            e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves check_headers' % (s.flow[1],), ('C04', 'C13'), d, 'safety')
            continue
        n += 1
        res = e.load(s, r).p
        k = fresh_const(Int, 'sk')
        s2 = s.copy()
        s2.pc += [0 <= k, k < hd['len'], res]
        e.oblige(s2, CH1(w, hd['arr']['first'][k], hd['arr']['second'][k]), 'headers are satisfied only if every one of them is', ('C04', 'C03'), d, 'post')
        e.oblige(s, z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < hd['len']), CH1(w, hd['arr']['first'][j], hd['arr']['second'][j])), patterns=[hd['arr']['first'][j]]), res), 'headers are satisfied if every one of them is', ('C04', 'C03'), d, 'post')
        frame(e, st0, s, d)
    if not n:
        e.oblige(st0, z3.BoolVal(False), 'check_headers returns', ('C04',), d, 'post')
    return e

def verify_headers_equal(prog):
    e = new_engine(prog, 'worker::headers_equal')
    st = base_state(e)
    lv, mk, mt = any_worker(e, st)
    ck = wfields(e)[1]
    hd = fresh(e.T.shape(MM), 'hdr')
    e.assume(st, z3.And(hd['len'] >= 0, hd['len'] < 2 ** 60))
    c = e.load(st, lv.f(ck, MM)).p
    e.assume(st, z3.And(c['len'] >= 0, c['len'] < 2 ** 60))
    vac(e, st)
    d = method(prog, 'worker', 'headers_equal')
    st0 = st.copy()
    i = z3.Int('i!w')
    eq = z3.And(c['len'] == hd['len'], z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < hd['len']), z3.And(c['arr']['first'][i] == hd['arr']['first'][i], c['arr']['second'][i] == hd['arr']['second'][i])), patterns=[c['arr']['first'][i], hd['arr']['first'][i]]))
    for s, r in e.call_vals(st, d, lv, [e.newvar(st, MM, hd, 'other')], None):
        if s.flow is not None:
            e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves headers_equal' % (s.flow[1],), ('C19', 'C13'), d, 'safety')
            continue
        e.oblige(s, e.load(s, r).p == eq, 'headers_equal compares the declared headers with the given ones', ('C19',), d, 'post')
        frame(e, st0, s, d)
    return e
