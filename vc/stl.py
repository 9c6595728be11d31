"""Assumed contracts of the C++ standard library (and other external code) used by the repository."""
import re
import z3
from core import *
import core
from engine import Val, LV, IterV, Closure, simp

ITER = ('iter',)

class EntLV(LV):
    """Element of a std::map designated by an iterator: a pair (key, reference to the value)."""
    __slots__ = ('m', 'kterm')
    def __init__(self, m, k):
        LV.__init__(self, m.root, m.path + (('k', k),), elem_type(m.t))
        self.m, self.kterm = m, k
    def f(self, name, t):
        if name == 'first':
            return Val(self.m.t[1], self.kterm)
        return self.m.k(self.kterm, self.m.t[2])

def loggerish(t):
    s = t[1] if t[0] == 'opq' else (t[1][1] if t[0] == 'ptr' and t[1][0] == 'opq' else '')
    return 'spdlog' in s or 'logger' in s

class Lib:
    def __init__(self, e):
        self.e = e

    # ------------------------------------------------------------ iterators
    def unsup(self, msg, n):
        raise Unsupported(msg, n)

    def lenof(self, st, lv):
        return self.e.load(st, lv).p['len']

    def begin(self, st, lv):
        t = lv.t
        if t[0] in ('vec', 'mmap'):
            return Val(ITER, IterV('vec', lv, num(0)))
        if t[0] == 'map':
            K, n = self.enumerate(st, lv)
            return Val(ITER, IterV('map', lv, num(0), key=sel_leaf(K, num(0)), end=(num(0) >= n), enum=(K, n)))
        if t[0] == 'str':
            return Val(ITER, IterV('str', lv, num(0)))
        raise Unsupported('begin of %r' % (t,))

    def end(self, st, lv):
        t = lv.t
        if t[0] in ('vec', 'mmap'):
            return Val(ITER, IterV('vec', lv, self.lenof(st, lv)))
        if t[0] == 'map':
            return Val(ITER, IterV('map', lv, None, key=None, end=z3.BoolVal(True)))
        if t[0] == 'str':
            return Val(ITER, IterV('str', lv, slen(self.e.load(st, lv).p)))
        raise Unsupported('end of %r' % (t,))

    def enumerate(self, st, lv):
        """Iteration order of a map: an enumeration of its keys (fixed while the key set is unchanged)."""
        p = self.e.load(st, lv).p
        dom = p['dom']
        key = dom.get_id()
        if key in self.e.enums:
            K, n, ax, _ = self.e.enums[key]
        else:
            ks = self.e.T.shape(lv.t[1])
            core._cnt[0] += 1
            u = core._cnt[0]
            K = z3.Const('enum!%d' % u, z3.ArraySort(Int, ks))
            n = z3.Const('enumn!%d' % u, Int)
            pos = z3.Function('enumpos!%d' % u, ks, Int)
            j = z3.Const('j', Int)
            k = z3.Const('k', ks)
            ax = [n >= 0,
                  z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(dom[K[j]], pos(K[j]) == j)), patterns=[K[j]]),
                  z3.ForAll([k], z3.Implies(dom[k], z3.And(0 <= pos(k), pos(k) < n, K[pos(k)] == k)), patterns=[dom[k], pos(k)])]
            self.e.enums[key] = (K, n, ax, dom)
        for a in ax:
            if not any(a.eq(x) for x in st.pc):
                st.pc.append(a)
        return K, n

    def iter_deref(self, st, it, n=None):
        e = self.e
        if it.kind == 'vec':
            ln = self.lenof(st, it.lv)
            e.oblige(st, z3.And(it.idx >= 0, it.idx < ln), 'iterator is dereferenceable', ('C13',), n, 'safety')
            return it.lv.i(it.idx, elem_type(it.lv.t))
        if it.kind == 'map':
            if it.key is None:
                e.oblige(st, z3.BoolVal(False), 'iterator is dereferenceable', ('C13',), n, 'safety')
                raise Unsupported('dereference of end iterator', n)
            e.oblige(st, z3.Not(it.end), 'iterator is dereferenceable', ('C13',), n, 'safety')
            return EntLV(it.lv, it.key)
        if it.kind == 'str':
            s = e.load(st, it.lv).p
            return Val(CHAR, schr(s, it.idx))
        raise Unsupported('iterator %s' % it.kind, n)

    def iter_step(self, st, l, d, postfix, n):
        v = self.e.load(st, l)
        it = v.p
        if it.kind == 'map' and it.enum is None:
            # ++ on an iterator obtained by find(): position in the enumeration is unknown
            raise Unsupported('increment of a map iterator obtained by lookup', n)
        nv = Val(ITER, it.with_idx(z3.simplify(it.idx + d)))
        self.e.store(st, l, nv, ('set', l, nv.p))
        return [(st, v if postfix else l)]

    def iter_eq(self, st, a, b):
        if not isinstance(a, IterV) or not isinstance(b, IterV):
            raise Unsupported('comparison of an iterator with something else')
        if a.kind == 'vec' and b.kind == 'vec' or a.kind == 'str' and b.kind == 'str':
            return simp(a.idx == b.idx)
        if a.kind == 'map' and b.kind == 'map':
            if b.key is None:
                return simp(a.end)
            if a.key is None:
                return simp(b.end)
            return z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.key == b.key))
        raise Unsupported('iterator comparison')

    def iter_binop(self, st, op, a, b, n):
        if op in ('==', '!='):
            e = self.iter_eq(st, a.p, b.p)
            return Val(BOOL, e if op == '==' else simp(z3.Not(e)))
        if isinstance(a.p, IterV) and isinstance(b.p, IterV):
            if a.p.kind in ('vec', 'str'):
                if op == '-':
                    return Val(I64, z3.simplify(a.p.idx - b.p.idx))
                if op in ('<', '>', '<=', '>='):
                    x, y = a.p.idx, b.p.idx
                    return Val(BOOL, {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
        if op in ('+', '-') and isinstance(a.p, IterV) and a.p.kind in ('vec', 'str'):
            d = self.e.intp(st, b)
            i = z3.simplify(a.p.idx + d if op == '+' else a.p.idx - d)
            ln = self.lenof(st, a.p.lv) if a.p.kind == 'vec' else slen(self.e.load(st, a.p.lv).p)
            self.e.oblige(st, z3.And(i >= 0, i <= ln), 'iterator arithmetic stays in range', ('C13',), n, 'safety')
            return Val(ITER, IterV(a.p.kind, a.p.lv, i))
        raise Unsupported('iterator %s' % op, n)

    # ------------------------------------------------------------ construction
    def vals(self, st, vs):
        return [self.e.load(st, v) if isinstance(v, (LV, Val)) else v for v in vs]

    def construct(self, st, t, vs, ctype, n):
        e = self.e
        k = t[0]
        if not vs:
            if k == 'struct' and t[1] and t[1][0][0] == 'has':
                return [(st, Val(t, {'has': z3.BoolVal(False), 'val': e.blank(t[1][1][1])}))]
            if k == 'opq' and 'iterator' in t[1]:
                return [(st, Val(t, fresh_const(Int, 'it')))]
            return [(st, Val(t, e.default(t)))]
        v0 = vs[0]
        if isinstance(v0, tuple):
            if v0[0] in ('addr', 'this') and k == 'ptr':
                raise Unsupported('smart pointer to an existing object', n)
            if v0[0] == 'dflt':
                return [(st, Val(t, e.default(t)))]
            if k == 'fun' and v0[0] == 'func':
                return [(st, Val(FUN, fresh_const(Int, 'fn')))]
            return [(st, Val(t, e.blank(t)))]
        v = e.load(st, v0)
        if isinstance(v.p, IterV) and len(vs) == 1:
            return [(st, v)]
        if k == 'opq':
            if 'iterator' in t[1] and isinstance(v.p, IterV):
                return [(st, v)]
            if v.t[0] != 'opq' and any(x in t[1] for x in getattr(e, 'strict_opq', ())):
                raise Unsupported('construction of %s' % t[1], n)
            return [(st, Val(t, v.p if v.t[0] == 'opq' else fresh_const(Int, 'opq')))]
        if k == 'ptr':
            if isinstance(v.p, IterV):
                return [(st, v)]
            return [(st, e.conv(st, v, t))]
        if k == 'fun':
            if isinstance(v.p, Closure):
                return [(st, Val(FUN, e.closure_id(v.p)))]
            return [(st, Val(FUN, v.p))]
        if k == 'str':
            if len(vs) == 1:
                if v.t[0] == 'vec':
                    raise Unsupported('string from list', n)
                return [(st, Val(STR, e.to_str(st, v)))]
            if isinstance(vs[1], tuple) and vs[1][0] == 'func':
                return [(st, Val(STR, v.p))]       # a smart pointer to characters and its deleter
            w = e.load(st, vs[1])
            if isinstance(v.p, IterV) and isinstance(w.p, IterV):
                if v.p.kind == 'str':
                    s = e.load(st, v.p.lv).p
                    return [(st, Val(STR, ssub(s, v.p.idx, w.p.idx)))]
            if v.t[0] == 'str' and w.t[0] == 'int':
                if 'char *' in ctype:
                    # data + length
                    f = z3.Function('sdata', Str, Int, Str)
                    s = e.gsdata(st, v.p, w.p) if hasattr(e, 'gsdata') else f(v.p, w.p)
                    return [(st, Val(STR, s))]
                return self.substr(st, v.p, [w] + self.vals(st, vs[2:]), n)
            if v.t[0] == 'opq' and w.t[0] == 'int':
                return [(st, Val(STR, z3.Function('bytes', Int, Int, Str)(v.p, w.p)))]
            if v.t[0] == 'int':
                return [(st, Val(STR, fresh_const(Str, 'rep')))]
            if v.t[0] == 'str':
                return [(st, Val(STR, v.p))]
        if k == 'int':
            # chrono durations and time points: everything is kept in milliseconds
            if v.t[0] == 'int':
                x = v.p
                return [(st, Val(t, self.scale(st, x, ctype, n)))]
            return [(st, Val(t, v.p if isinstance(v.p, z3.ExprRef) and v.p.sort() == Int else fresh_const(Int, 'num')))]
        if k == 'bool':
            return [(st, e.conv(st, v, BOOL))]
        if k == 'struct':
            names = [x for x, _ in t[1]]
            if names and names[0] == 'has':
                if v.t == t:
                    return [(st, v)]
                if 'nullopt' in ctype:
                    return [(st, Val(t, {'has': z3.BoolVal(False), 'val': e.blank(t[1][1][1])}))]
                return [(st, Val(t, {'has': z3.BoolVal(True), 'val': e.conv(st, v, t[1][1][1]).p}))]
            if len(vs) == 1:
                if v.t[0] == 'struct':
                    p = {}
                    for (a, at), (b, bt) in zip(t[1], v.t[1]):
                        p[a] = e.conv(st, Val(bt, v.p[b]), at).p
                    return [(st, Val(t, p))]
            if len(vs) == len(names):
                p = {}
                for (a, at), x in zip(t[1], self.vals(st, vs)):
                    p[a] = e.conv(st, x, at).p
                return [(st, Val(t, p))]
        if k in ('vec', 'mmap', 'map'):
            if v.t == t:
                return [(st, v)]
            if k == 'vec' and v.t[0] == 'vec' and len(vs) == 1:
                return [(st, Val(t, v.p))]
            if k == 'vec' and isinstance(v.p, IterV) and len(vs) >= 2:
                w = e.load(st, vs[1])
                if isinstance(w.p, IterV) and v.p.kind == 'vec':
                    src = e.load(st, v.p.lv)
                    cnt = z3.simplify(w.p.idx - v.p.idx)
                    e.oblige(st, cnt >= 0, 'valid iterator range', ('C13',), n, 'safety')
                    arr = self.slice(st, src.p['arr'], v.p.idx, elem_type(src.t))
                    return [(st, Val(t, {'len': cnt, 'arr': arr}))]
            if k == 'vec' and v.t[0] == 'int':
                w = e.load(st, vs[1]) if len(vs) > 1 and not isinstance(vs[1], tuple) else None
                val = e.conv(st, w, t[1]).p if w is not None and w.t[0] != 'opq' else (e.default(t[1]))
                arr = fresh(lift(Int, e.T.shape(t[1])), 'fill')
                j = z3.Const('j', Int)
                for (path, a), (_, b) in zip(leaves(arr), leaves(val)):
                    st.pc.append(z3.ForAll([j], a[j] == b, patterns=[a[j]]))
                return [(st, Val(t, {'len': v.p, 'arr': arr}))]
            if k in ('map', 'mmap') and v.t[0] == 'vec':
                # initializer list of pairs
                cur = [(st, Val(t, e.default(t)))]
                ln = v.p['len']
                if not z3.is_int_value(ln):
                    raise Unsupported('map from a list', n)
                lv = e.newvar(st, t, e.default(t))
                for i in range(ln.as_long()):
                    pr = sel(v.p['arr'], num(i))
                    self.map_insert(st, lv, pr['first'], pr['second'], False)
                return [(st, e.load(st, lv))]
        raise Unsupported('construction of %r from %r (%s)' % (t, v.t, ctype), n)

    def scale(self, st, x, ctype, n):
        q = (n.qtype or '') + ' ' + (n.type or '')
        if n.kind in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr') and 'duration' in q:
            src = n.inner[0] if n.inner else None
            st_ = (src.type or '') if src is not None else ''
            if 'duration' in st_ or 'time_point' in st_ or 'milliseconds' in st_:
                return x
            m = re.search(r'ratio<(\d+)(?:, (\d+))?>', n.type or '')
            if m:
                a, b = int(m.group(1)), int(m.group(2) or 1)
                if (a * 1000) % b == 0:
                    return z3.simplify(x * (a * 1000 // b))
                f = z3.Function('scale_%d_%d' % (a, b), Int, Int)
                return f(x)
        return x

    def slice(self, st, arr, start, et):
        if z3.is_int_value(start) and start.as_long() == 0:
            return arr
        new = fresh(lift(Int, self.e.T.shape(et)), 'slice')
        j = z3.Const('j', Int)
        for (path, a), (_, b) in zip(leaves(new), leaves(arr)):
            st.pc.append(z3.ForAll([j], a[j] == b[j + start], patterns=[a[j]]))
            st.pc.append(z3.ForAll([j], b[j] == a[j - start], patterns=[b[j]]))
        return new

    # ------------------------------------------------------------ operators
    def operator(self, st, op, args, n):
        e = self.e
        if op == '=':
            def f(s, r):
                def g(s2, l):
                    return self.assign(s2, l, r, n)
                return e.each(e.lv(s, args[0]), g)
            return e.each(e.ev(st, args[1]), f)
        if op == '()':
            def f(s, v):
                if isinstance(v, tuple):
                    raise Unsupported('call', n)
                v = e.load(s, v)
                if v.t == FUN or isinstance(v.p, Closure):
                    return e.each(e.ev_list(s, args[1:], ['x'] * len(args[1:])), lambda s2, vs: e.invoke(s2, v, vs, n))
                if v.t[0] == 'opq':
                    return e.each(e.ev_list(s, args[1:], ['x'] * len(args[1:])), lambda s2, vs: self.opaque_result(s2, n))
                raise Unsupported('call of %r' % (v.t,), n)
            return e.each(e.ev(st, args[0]), f)
        if op == '->':
            def f(s, v):
                return [(s, e.load(s, v))]
            return e.each(e.ev(st, args[0]), f)
        if op == '*' and len(args) == 1:
            def f(s, v):
                v = e.load(s, v)
                if isinstance(v.p, IterV):
                    return [(s, self.iter_deref(s, v.p, n))]
                if v.t[0] == 'struct' and v.t[1][0][0] == 'has':
                    e.oblige(s, v.p['has'], 'optional has a value', ('C13',), n, 'safety')
                    return [(s, Val(v.t[1][1][1], v.p['val']))]
                if v.t[0] == 'opq':
                    return self.opaque_result(s, n)
                return [(s, e.deref(s, v, n))]
            return e.each(e.ev(st, args[0]), f)
        if op in ('++', '--'):
            def f(s, l):
                v = e.load(s, l)
                d = 1 if op == '++' else -1
                if isinstance(v.p, IterV):
                    return self.iter_step(s, l, d, len(args) > 1, n)
                if v.t[0] == 'int':
                    nv = Val(v.t, v.p + d)
                    e.store(s, l, nv)
                    return [(s, v if len(args) > 1 else l)]
                if v.t[0] == 'opq':
                    return self.opaque_result(s, n)
                raise Unsupported('++ on %r' % (v.t,), n)
            return e.each(e.lv(st, args[0]), f)
        if op == '!':
            return e.each(e.rv(st, args[0]), lambda s, v: [(s, Val(BOOL, z3.Not(e.conv(s, v, BOOL).p)))])
        if op == '[]':
            def f(s, vs):
                return self.index(s, vs[0], e.load(s, vs[1]), n)
            return e.each(e.ev_list(st, args, ['l', 'v']), f)
        if op in ('+=', '-=', '*=', '/=', '%='):
            def f(s, r):
                def g(s2, l):
                    cur = e.load(s2, l)
                    if isinstance(cur.p, IterV):
                        nv = self.iter_binop(s2, op[0], cur, r, n)
                        e.store(s2, l, nv)
                        return [(s2, l)]
                    if cur.t == STR:
                        e.store(s2, l, Val(STR, cat(cur.p, e.to_str(s2, r))))
                        return [(s2, l)]
                    nv = e.binop(s2, op[0], cur, r, n)
                    e.store(s2, l, nv)
                    return [(s2, l)]
                return e.each(e.lv(s, args[0]), g)
            return e.each(e.rv(st, args[1]), f)
        if op in ('<<', '>>'):
            # stream output / input: evaluated for effects of the operands only, except for string streams
            def f(s, vs):
                if isinstance(vs[0], LV) and vs[0].t == STR:
                    if op == '>>':
                        raise Unsupported('input from a string stream', n)
                    v = e.load(s, vs[1])
                    if v.t == STR:
                        x = v.p
                    elif v.t[0] == 'int' and v.t != CHAR:
                        x = self.itos(e.intp(s, v))
                    else:
                        x = fresh_const(Str, 'text')
                    e.store(s, vs[0], Val(STR, cat(e.load(s, vs[0]).p, x)))
                return [(s, vs[0])]
            try:
                return e.each(e.ev_list(st, args, ['x', 'x']), f)
            except Unsupported:
                return e.each(e.ev_list(st, args[:1], ['x']), lambda s, vs: [(s, vs[0])])
        if op in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/', '%', '&', '|'):
            def f(s, vs):
                if any(isinstance(v, tuple) for v in vs):
                    if op in ('==', '!='):
                        return [(s, Val(BOOL, fresh_const(Bool, 'cmp')))]
                    raise Unsupported('operator %s' % op, n)
                a, b = vs
                if a.t[0] == 'opq' or b.t[0] == 'opq':
                    if op in ('==', '!='):
                        if isinstance(a.p, z3.ExprRef) and isinstance(b.p, z3.ExprRef) and a.p.sort() == b.p.sort():
                            r = a.p == b.p
                            return [(s, Val(BOOL, r if op == '==' else z3.Not(r)))]
                        return [(s, Val(BOOL, fresh_const(Bool, 'cmp')))]
                    return self.opaque_result(s, n)
                if op == '+' and (a.t == STR or b.t == STR):
                    return [(s, Val(STR, cat(e.to_str(s, a), e.to_str(s, b))))]
                return [(s, e.binop(s, op, a, b, n))]
            return e.each(e.ev_list(st, args), f)
        raise Unsupported('operator%s' % op, n)

    def assign(self, st, l, r, n):
        e = self.e
        if isinstance(r, tuple):
            if r[0] == 'func':
                r = Val(FUN, fresh_const(Int, 'fn'))
            else:
                raise Unsupported('assignment', n)
        v = e.load(st, r)
        if isinstance(v.p, IterV):
            e.store(st, l, v)
            return [(st, l)]
        t = l.t
        if t[0] == 'opq':
            if isinstance(v.p, z3.ExprRef) and v.p.sort() == Int:
                e.store(st, l, v)
            else:
                e.store(st, l, fresh_const(Int, 'opq'))
            return [(st, l)]
        if v.t == t:
            e.store(st, l, v)
            return [(st, l)]
        if t == STR:
            e.store(st, l, Val(STR, e.to_str(st, v)))
            return [(st, l)]
        if t[0] in ('ptr', 'fun', 'int', 'bool'):
            e.store(st, l, e.conv(st, v, t))
            return [(st, l)]
        if t[0] == 'vec' and v.t[0] == 'vec':
            e.store(st, l, Val(t, v.p))
            return [(st, l)]
        r2 = self.construct(st, t, [v], '', n)
        out = []
        for s, w in r2:
            e.store(s, l, w)
            out.append((s, l))
        return out

    def index(self, st, o, i, n):
        e = self.e
        t = o.t
        if t[0] == 'map':
            k = e.conv(st, i, t[1]).p
            p = e.load(st, o).p
            inm = sel_leaf(p['dom'], k)
            d = simp(inm)
            if not z3.is_true(d):
                dv = e.default(t[2]) if t[2][0] != 'cls' else e.blank(t[2])
                if not e.feasible(st, z3.Not(inm)):
                    pass
                elif e.prove(st.pc, inm, 400000, ('ematch',)):
                    st.pc.append(inm)
                elif not e.feasible(st, inm):
                    e.store(st, o, {'dom': z3.Store(p['dom'], k, True), 'val': sto(p['val'], k, dv)}, ('mput', o, k, dv, False))
                else:
                    cur = sel(p['val'], k)
                    nv = pmap(lambda x, y: z3.If(inm, x, y), cur, dv) if t[2][0] not in ('vec', 'map', 'mmap') else self.ite_container(st, inm, cur, dv, t[2])
                    e.store(st, o, {'dom': z3.Store(p['dom'], k, True), 'val': sto(p['val'], k, nv)}, ('mput', o, k, nv, False))
            return [(st, o.k(k, t[2]))]
        if t[0] == 'vec':
            ln = self.lenof(st, o)
            e.oblige(st, z3.And(i.p >= 0, i.p < ln), 'container index in range', ('C13',), n, 'safety')
            return [(st, o.i(i.p, t[1]))]
        if t[0] == 'str':
            s = e.load(st, o).p
            e.oblige(st, z3.And(i.p >= 0, i.p <= slen(s)), 'string index in range', ('C13',), n, 'safety')
            return [(st, Val(CHAR, schr(s, i.p)))]
        if t[0] == 'opq':
            key = 'opq:[]'
            if key in e.contracts:
                return e.contracts[key](e, st, o, [i], n)
            return self.opaque_result(st, n)
        raise Unsupported('operator[] on %r' % (t,), n)

    def ite_container(self, st, c, a, b, t):
        return pmap(lambda x, y: z3.If(c, x, y), a, b)

    # ------------------------------------------------------------ methods
    def opaque_result(self, st, n, t=None):
        t = t or self.e.T.parse(n.type)
        if t == VOID:
            return [(st, Val(VOID, num(0)))]
        return [(st, Val(t, self.e.blank(t)))]

    def method(self, st, o, name, args, n):
        e = self.e
        t = o.t
        if loggerish(t):
            if name == 'should_log':
                return [(st, Val(BOOL, fresh_const(Bool, 'should_log')))]
            return e.each(self.safe_args(st, args), lambda s, vs: [(s, Val(VOID, num(0)))])
        if t[0] == 'opq' or (t[0] == 'ptr' and t[1][0] == 'opq'):
            tn = t[1] if t[0] == 'opq' else t[1][1]
            for pat, fn in e.contracts.items():
                if pat.startswith('opq:') and pat[4:].split('::')[-1] == name and pat[4:].rsplit('::', 1)[0] in tn:
                    return e.each(self.safe_args(st, args), lambda s, vs: fn(e, s, o, vs, n))
            return e.each(self.safe_args(st, args), lambda s, vs: self.opaque_result(s, n))
        args = [a for a in args if a.kind != 'CXXDefaultArgExpr']
        return e.each(e.ev_list(st, args, ['x'] * len(args)), lambda s, vs: self.method_vals(s, o, name, vs, n))

    def safe_args(self, st, args):
        args = [a for a in args if a.kind != 'CXXDefaultArgExpr']
        return self.e.ev_list(st, args, ['x'] * len(args))

    def method_vals(self, st, o, name, vs, n):
        e = self.e
        t = o.t
        if name == 'operator=':
            return self.assign(st, o, vs[0], n)
        if name == 'operator[]':
            return self.index(st, o, e.load(st, vs[0]), n)
        m = getattr(self, 'm_' + t[0], None)
        if m is None:
            raise Unsupported('method %s on %r' % (name, t), n)
        if isinstance(o, Val):
            o = e.newvar(st, o.t, o.p)
        return m(st, o, name, vs, n)

    def R(self, st, t, p):
        return [(st, Val(t, p))]

    def void(self, st):
        return [(st, Val(VOID, num(0)))]

    def mk_elem(self, st, et, vs, n):
        """Element constructed from emplace-style arguments: list of (state, payload)."""
        e = self.e
        vs = self.vals(st, vs)
        if len(vs) == 1 and (vs[0].t == et or vs[0].t[0] == et[0] and et[0] not in ('struct', 'cls')):
            return [(st, e.conv(st, vs[0], et).p)]
        if et[0] == 'struct' and et[1][0][0] == 'first' and len(vs) == 2:
            out = []
            a = self.mk_elem(st, et[1][0][1], [vs[0]], n)
            st2, pa = a[0]
            st3, pb = self.mk_elem(st2, et[1][1][1], [vs[1]], n)[0]
            return [(st3, {'first': pa, 'second': pb})]
        if et[0] == 'cls':
            return e.each(e.construct_vals(st, et[1], vs, n), lambda s, v: [(s, e.load(s, v).p)])
        ct = ''
        if et == STR and len(vs) > 1 and n is not None and any('char' in (a.type or '') and '*' in (a.type or '') for a in (n.inner or [])[1:]):
            ct = 'char *'
        r = self.construct(st, et, vs, ct, n)
        return [(s, v.p) for s, v in r]

    def push(self, st, o, p):
        cur = self.e.load(st, o).p
        self.e.store(st, o, {'len': z3.simplify(cur['len'] + 1), 'arr': sto(cur['arr'], cur['len'], p)}, ('push', o, p, cur['len']))

    def index_maps(self):
        core._cnt[0] += 1
        return z3.Function('up!%d' % core._cnt[0], Int, Int), z3.Function('dn!%d' % core._cnt[0], Int, Int)

    def named(self, st, p):
        return named(p, None, 'arr', st.pc)

    def insert_at(self, st, o, pos, p, eff='ins'):
        cur = self.named(st, self.e.load(st, o).p)
        new = pmap(lambda a: fresh_const(a.sort(), 'insarr'), cur['arr'])
        j = z3.Const('j', Int)
        up, dn = self.index_maps()
        st.pc.append(z3.ForAll([j], z3.And(up(j) == z3.If(j < pos, j, j - 1), z3.Implies(j != pos, dn(up(j)) == j)), patterns=[up(j)]))
        st.pc.append(z3.ForAll([j], z3.And(dn(j) == z3.If(j < pos, j, j + 1), up(dn(j)) == j), patterns=[dn(j)]))
        for (path, a), (_, b), (_, v) in zip(leaves(new), leaves(cur['arr']), leaves(p)):
            st.pc.append(z3.ForAll([j], z3.Implies(j != pos, a[j] == b[up(j)]), patterns=[a[j]]))
            st.pc.append(z3.ForAll([j], b[j] == a[dn(j)], patterns=[b[j]]))
            st.pc.append(a[pos] == v)
        self.e.store(st, o, {'len': z3.simplify(cur['len'] + 1), 'arr': new}, (eff, o, p, pos))

    def erase_at(self, st, o, pos, cnt=None):
        cur = self.named(st, self.e.load(st, o).p)
        c = num(1) if cnt is None else cnt
        new = pmap(lambda a: fresh_const(a.sort(), 'ersarr'), cur['arr'])
        j = z3.Const('j', Int)
        up, dn = self.index_maps()
        st.pc.append(c >= 0)
        st.pc.append(z3.ForAll([j], z3.And(up(j) == z3.If(j < pos, j, j + c), dn(up(j)) == j), patterns=[up(j)]))
        st.pc.append(z3.ForAll([j], z3.And(dn(j) == z3.If(j < pos, j, j - c), z3.Implies(z3.Or(j < pos, j >= pos + c), up(dn(j)) == j)), patterns=[dn(j)]))
        for (path, a), (_, b) in zip(leaves(new), leaves(cur['arr'])):
            st.pc.append(z3.ForAll([j], a[j] == b[up(j)], patterns=[a[j]]))
            st.pc.append(z3.ForAll([j], z3.Implies(z3.Or(j < pos, j >= pos + c), b[j] == a[dn(j)]), patterns=[b[j]]))
        self.e.store(st, o, {'len': z3.simplify(cur['len'] - c), 'arr': new}, ('erase', o, pos))

    def filter(self, st, o, lo, hi, keep):
        """std::remove / remove_if / list::remove on the whole container: keep(j) -> formula."""
        cur = self.named(st, self.e.load(st, o).p)
        core._cnt[0] += 1
        u = core._cnt[0]
        g = z3.Function('fg!%d' % u, Int, Int)
        f = z3.Function('ff!%d' % u, Int, Int)
        new = pmap(lambda a: fresh_const(a.sort(), 'fltarr'), cur['arr'])
        ln = fresh_const(Int, 'fltlen')
        L = cur['len']
        j, k = z3.Ints('j k')
        st.pc.append(z3.And(ln >= 0, ln <= L))
        pats = [a[j] for _, a in leaves(new)]
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), z3.And(0 <= g(j), g(j) < L, j <= g(j), keep(g(j)), f(g(j)) == j,
                     *[a[j] == b[g(j)] for (_, a), (_, b) in zip(leaves(new), leaves(cur['arr']))])), patterns=pats + [g(j)]))
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L, keep(j)), z3.And(0 <= f(j), f(j) < ln, g(f(j)) == j,
                     *[a[f(j)] == b[j] for (_, a), (_, b) in zip(leaves(new), leaves(cur['arr']))])), patterns=[b[j] for _, b in leaves(cur['arr'])] + [f(j)]))
        st.pc.append(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < ln), g(j) < g(k)), patterns=[z3.MultiPattern(g(j), g(k))]))
        return new, ln

    def m_vec(self, st, o, name, vs, n):
        e = self.e
        t = o.t
        et = elem_type(t)
        p = e.load(st, o).p
        L = p['len']
        self.nonneg(st, L)
        if name in ('size', 'length'):
            return self.R(st, SIZE, L)
        if name == 'empty':
            return self.R(st, BOOL, L == 0)
        if name in ('push_back', 'push', 'emplace_back', 'emplace') and t[0] == 'vec' and not (name == 'emplace' and vs and isinstance(e.load(st, vs[0]).p, IterV)):
            out = []
            for s, x in self.mk_elem(st, et, vs, n):
                if s.flow is None:
                    self.push(s, o, x)
                    if name == 'emplace_back':
                        out.append((s, o.i(e.load(s, o).p['len'] - 1, et)))
                        continue
                out.append((s, Val(VOID, num(0))))
            return out
        if name in ('push_front', 'emplace_front'):
            out = []
            for s, x in self.mk_elem(st, et, vs, n):
                if s.flow is None:
                    self.insert_at(s, o, num(0), x)
                out.append((s, Val(VOID, num(0))))
            return out
        if name in ('front', 'top') and t[0] == 'vec':
            e.oblige(st, L > 0, 'front() of a non-empty container', ('C13',), n, 'safety')
            return [(st, o.i(num(0), et))]
        if name == 'back':
            e.oblige(st, L > 0, 'back() of a non-empty container', ('C13',), n, 'safety')
            return [(st, o.i(z3.simplify(L - 1), et))]
        if name == 'at':
            i = e.load(st, vs[0]).p
            out = []
            for s, ok in e.branch(st, z3.And(i >= 0, i < L)):
                if ok:
                    out.append((s, o.i(i, et)))
                else:
                    e.throw(s, 'std::out_of_range')
                    out.append((s, None))
            return out
        if name in ('begin', 'cbegin'):
            return [(st, self.begin(st, o))]
        if name in ('end', 'cend'):
            return [(st, self.end(st, o))]
        if name in ('pop', 'pop_front'):
            e.oblige(st, L > 0, 'pop() of a non-empty container', ('C13',), n, 'safety')
            self.erase_at(st, o, num(0))
            return self.void(st)
        if name == 'pop_back':
            e.oblige(st, L > 0, 'pop_back() of a non-empty container', ('C13',), n, 'safety')
            e.store(st, o, {'len': z3.simplify(L - 1), 'arr': p['arr']}, ('popback', o))
            return self.void(st)
        if name == 'clear':
            e.store(st, o, {'len': num(0), 'arr': p['arr']}, ('clear', o))
            return self.void(st)
        if name in ('reserve', 'shrink_to_fit'):
            return self.void(st)
        if name == 'capacity':
            return self.R(st, SIZE, fresh_const(Int, 'cap'))
        if name == 'resize':
            k = e.load(st, vs[0]).p
            e.oblige(st, z3.And(k >= 0, k < 2 ** 60), 'resize to a reasonable size', ('C13',), n, 'safety')
            new = pmap(lambda a: fresh_const(a.sort(), 'rsz'), p['arr'])
            dv = e.conv(st, e.load(st, vs[1]), et).p if len(vs) > 1 else (e.default(et) if et[0] != 'cls' else e.blank(et))
            j = z3.Const('j', Int)
            for (_, a), (_, b), (_, d) in zip(leaves(new), leaves(p['arr']), leaves(dv)):
                st.pc.append(z3.ForAll([j], z3.Implies(j < k, a[j] == z3.If(j < L, b[j], d)), patterns=[a[j]]))
            e.store(st, o, {'len': k, 'arr': new}, ('resize', o))
            return self.void(st)
        if name == 'erase':
            a = e.load(st, vs[0])
            if isinstance(a.p, IterV):
                if len(vs) == 1:
                    e.oblige(st, z3.And(a.p.idx >= 0, a.p.idx < L), 'erase of a valid position', ('C13',), n, 'safety')
                    self.erase_at(st, o, a.p.idx)
                    return [(st, Val(ITER, IterV('vec', o, a.p.idx)))]
                b = e.load(st, vs[1])
                e.oblige(st, z3.And(a.p.idx >= 0, a.p.idx <= b.p.idx, b.p.idx <= L), 'erase of a valid range', ('C13',), n, 'safety')
                if z3.is_true(simp(b.p.idx == L)):
                    e.store(st, o, {'len': a.p.idx, 'arr': p['arr']}, ('trunc', o))
                else:
                    self.erase_at(st, o, a.p.idx, z3.simplify(b.p.idx - a.p.idx))
                return [(st, Val(ITER, IterV('vec', o, a.p.idx)))]
            if t[0] == 'mmap':
                k = e.conv(st, a, t[1]).p
                new, ln = self.filter(st, o, None, None, lambda j: p['arr']['first'][j] != k)
                e.store(st, o, {'len': ln, 'arr': new}, ('filter', o))
                return self.R(st, SIZE, z3.simplify(L - ln))
        if name == 'remove' and t[0] == 'vec':
            x = e.conv(st, e.load(st, vs[0]), et).p
            new, ln = self.filter(st, o, None, None, lambda j: z3.Not(e.peq(et, sel(p['arr'], j), x)))
            e.store(st, o, {'len': ln, 'arr': new}, ('filter', o))
            return self.void(st)
        if name == 'remove_if' and t[0] == 'vec':
            pred = e.load(st, vs[0])
            K = self.pred_fn(st, o, pred, n)
            new, ln = self.filter(st, o, None, None, lambda j: K(j)[1])
            e.store(st, o, {'len': ln, 'arr': new}, ('filter', o))
            return self.void(st)
        if name == 'sort' and t[0] == 'vec':
            return self.do_sort(st, o, e.load(st, vs[0]) if vs else None, True, n)
        if name == 'insert' and t[0] == 'vec':
            a = e.load(st, vs[0])
            if isinstance(a.p, IterV) and len(vs) == 2:
                out = []
                for s, x in self.mk_elem(st, et, vs[1:], n):
                    if z3.is_true(simp(a.p.idx == L)):
                        self.push(s, o, x)
                    else:
                        self.insert_at(s, o, a.p.idx, x)
                    out.append((s, Val(ITER, IterV('vec', o, a.p.idx))))
                return out
            if isinstance(a.p, IterV) and len(vs) == 3:
                f, l = e.load(st, vs[1]), e.load(st, vs[2])
                if isinstance(f.p, IterV) and isinstance(l.p, IterV) and f.p.kind == 'vec' and z3.is_true(simp(a.p.idx == L)):
                    self.append_range(st, o, f.p, l.p, n)
                    return [(st, a)]
        if name == 'swap':
            b = vs[0]
            pa, pb = e.load(st, o), e.load(st, b)
            e.store(st, o, pb)
            e.store(st, b, pa)
            return self.void(st)
        if name == 'data':
            return self.opaque_result(st, n)
        if name in ('rbegin', 'rend', 'crbegin', 'crend'):
            raise Unsupported('reverse iterators', n)
        raise Unsupported('%s.%s' % (t[0], name), n)

    def append_range(self, st, o, f, l, n):
        e = self.e
        p = e.load(st, o).p
        src = e.load(st, f.lv).p
        cnt = z3.simplify(l.idx - f.idx)
        e.oblige(st, z3.And(cnt >= 0, f.idx >= 0, l.idx <= src['len']), 'valid iterator range', ('C13',), n, 'safety')
        new = pmap(lambda a: fresh_const(a.sort(), 'apnd'), p['arr'])
        j = z3.Const('j', Int)
        L = p['len']
        for (_, a), (_, b), (_, c) in zip(leaves(new), leaves(p['arr']), leaves(src['arr'])):
            st.pc.append(z3.ForAll([j], z3.And(z3.Implies(j < L, a[j] == b[j]), z3.Implies(z3.And(j >= L, j < L + cnt), a[j] == c[j - L + f.idx])), patterns=[a[j]]))
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= f.idx, j < l.idx), c[j] == a[j - f.idx + L]), patterns=[c[j]]))
            st.pc.append(z3.ForAll([j], z3.Implies(j < L, b[j] == a[j]), patterns=[b[j]]))
        e.store(st, o, {'len': z3.simplify(L + cnt), 'arr': new}, ('appendrange', o))

    def nonneg(self, st, L):
        if z3.is_int_value(L):
            return
        f = z3.And(L >= 0, L < 2 ** 60)
        if not any(f.eq(x) for x in st.pc):
            st.pc.append(f)

    def m_mmap(self, st, o, name, vs, n):
        e = self.e
        t = o.t
        p = e.load(st, o).p
        self.nonneg(st, p['len'])
        if name in ('emplace', 'insert'):
            out = []
            for s, x in self.mk_elem(st, elem_type(t), vs, n):
                if s.flow is None:
                    pos = fresh_const(Int, 'inspos')
                    L = e.load(s, o).p['len']
                    s.pc.append(z3.And(pos >= 0, pos <= L))
                    self.insert_at(s, o, pos, x, 'ins')
                    out.append((s, Val(ITER, IterV('vec', o, pos))))
                else:
                    out.append((s, None))
            return out
        if name == 'equal_range':
            k = e.conv(st, e.load(st, vs[0]), t[1]).p
            lo, hi = fresh_const(Int, 'lo'), fresh_const(Int, 'hi')
            j = z3.Const('j', Int)
            key = p['arr']['first']
            L = p['len']
            st.pc.append(z3.And(0 <= lo, lo <= hi, hi <= L))
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), (key[j] == k) == z3.And(lo <= j, j < hi)), patterns=[key[j]]))
            rt = ('struct', (('first', ITER), ('second', ITER)))
            return self.R(st, rt, {'first': IterV('vec', o, lo), 'second': IterV('vec', o, hi)})
        if name == 'find':
            k = e.conv(st, e.load(st, vs[0]), t[1]).p
            pos = fresh_const(Int, 'fpos')
            j = z3.Const('j', Int)
            key = p['arr']['first']
            L = p['len']
            st.pc.append(z3.And(0 <= pos, pos <= L, z3.Implies(pos < L, key[pos] == k)))
            st.pc.append(z3.Implies(pos == L, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), key[j] != k), patterns=[key[j]])))
            return self.R(st, ITER, IterV('vec', o, pos))
        if name == 'count':
            k = e.conv(st, e.load(st, vs[0]), t[1]).p
            c = fresh_const(Int, 'cnt')
            j = z3.Const('j', Int)
            st.pc.append(z3.And(0 <= c, c <= p['len']))
            st.pc.append((c == 0) == z3.Not(z3.Exists([j], z3.And(0 <= j, j < p['len'], p['arr']['first'][j] == k))))
            return self.R(st, SIZE, c)
        return self.m_vec(st, o, name, vs, n)

    def map_insert(self, st, o, k, v, overwrite):
        """Insert; returns formula telling whether insertion took place."""
        e = self.e
        p = e.load(st, o).p
        inm = simp(sel_leaf(p['dom'], k))
        if overwrite or z3.is_false(inm) or not e.feasible(st, inm):
            nv = v
        elif not e.feasible(st, z3.Not(inm)):
            return z3.BoolVal(False)
        else:
            cur = sel(p['val'], k)
            nv = pmap(lambda x, y: z3.If(inm, x, y), cur, v)
        e.store(st, o, {'dom': z3.Store(p['dom'], k, True), 'val': sto(p['val'], k, nv)}, ('mput', o, k, nv, overwrite))
        return simp(z3.Not(inm))

    def m_map(self, st, o, name, vs, n):
        e = self.e
        t = o.t
        p = e.load(st, o).p
        isset = t[2] == BOOL and 'set<' in ((n.inner[0].inner[0].type or '') if n is not None and n.inner and n.inner[0].inner else '')
        def key():
            return e.conv(st, e.load(st, vs[0]), t[1]).p
        if name == 'find':
            k = key()
            return self.R(st, ITER, IterV('map', o, None, key=k, end=simp(z3.Not(sel_leaf(p['dom'], k)))))
        if name in ('begin', 'cbegin'):
            return [(st, self.begin(st, o))]
        if name in ('end', 'cend'):
            return [(st, self.end(st, o))]
        if name in ('count', 'contains'):
            k = key()
            d = sel_leaf(p['dom'], k)
            return self.R(st, SIZE, z3.If(d, num(1), num(0))) if name == 'count' else self.R(st, BOOL, d)
        if name == 'at':
            k = key()
            out = []
            for s, ok in e.branch(st, sel_leaf(p['dom'], k)):
                if ok:
                    out.append((s, o.k(k, t[2])))
                else:
                    e.throw(s, 'std::out_of_range')
                    out.append((s, None))
            return out
        if name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
            v0 = e.load(st, vs[0])
            rt = ('struct', (('first', ITER), ('second', BOOL)))
            if isset and len(vs) == 1:
                k = e.conv(st, v0, t[1]).p
                ins = self.map_insert(st, o, k, z3.BoolVal(True), True)
                return self.R(st, rt, {'first': IterV('map', o, None, key=k, end=z3.BoolVal(False)), 'second': ins})
            out = []
            if len(vs) == 1 and v0.t[0] == 'struct':
                kp = e.conv(st, Val(v0.t[1][0][1], v0.p['first']), t[1]).p
                vp = e.conv(st, Val(v0.t[1][1][1], v0.p['second']), t[2]).p
                pairs = [(st, kp, vp)]
            elif len(vs) >= 2 and not isinstance(v0.p, IterV):
                kp = e.conv(st, v0, t[1]).p
                pairs = [(s, kp, x) for s, x in self.mk_elem(st, t[2], vs[1:], n)]
            elif len(vs) == 1 and name == 'emplace':
                raise Unsupported('map.emplace', n)
            elif name == 'try_emplace' and len(vs) == 1:
                pairs = [(st, e.conv(st, v0, t[1]).p, e.default(t[2]))]
            else:
                raise Unsupported('map.%s' % name, n)
            for s, k, x in pairs:
                if s.flow is not None:
                    out.append((s, None)); continue
                ins = self.map_insert(s, o, k, x, name == 'insert_or_assign')
                out.append((s, Val(rt, {'first': IterV('map', o, None, key=k, end=z3.BoolVal(False)), 'second': ins})))
            return out
        if name == 'erase':
            v0 = e.load(st, vs[0])
            if isinstance(v0.p, IterV):
                e.oblige(st, z3.Not(v0.p.end), 'erase of a valid position', ('C13',), n, 'safety')
                k = v0.p.key
            else:
                k = e.conv(st, v0, t[1]).p
            had = sel_leaf(p['dom'], k)
            e.store(st, o, {'dom': z3.Store(p['dom'], k, False), 'val': p['val']}, ('merase', o, k))
            if isinstance(v0.p, IterV):
                return self.R(st, ITER, IterV('map', o, fresh_const(Int, 'next'), key=fresh_const(e.T.shape(t[1]), 'nk'), end=fresh_const(Bool, 'ne')))
            return self.R(st, SIZE, z3.If(had, num(1), num(0)))
        if name == 'clear':
            e.store(st, o, e.default(t), ('clear', o))
            return self.void(st)
        if name in ('size', 'empty'):
            K, cnt = self.enumerate(st, o)
            return self.R(st, SIZE, cnt) if name == 'size' else self.R(st, BOOL, cnt == 0)
        raise Unsupported('map.%s' % name, n)

    def substr(self, st, s, vs, n):
        e = self.e
        pos = e.intp(st, vs[0]) if vs else num(0)
        cnt = e.intp(st, vs[1]) if len(vs) > 1 else num(NPOS)
        L = slen(s)
        self.strlen_fact(st, s)
        out = []
        for st2, ok in e.branch(st, pos <= L):
            if not ok:
                e.throw(st2, 'std::out_of_range')
                out.append((st2, None))
                continue
            if z3.is_int_value(cnt) and cnt.as_long() == NPOS:
                to = L
            else:
                to = z3.If(cnt >= L - pos, L, pos + cnt)
            if is_lit(s) and z3.is_int_value(simp_i(pos)) and z3.is_int_value(cnt):
                a = simp_i(pos).as_long()
                out.append((st2, Val(STR, lit(lit_val(s)[a:a + cnt.as_long()]))))
                continue
            out.append((st2, Val(STR, ssub(s, pos, to))))
        return out

    def strlen_fact(self, st, s):
        if is_lit(s):
            f = slen(s) == len(lit_val(s))
        else:
            f = z3.And(slen(s) >= 0, slen(s) < 2 ** 62, (slen(s) == 0) == (s == lit('')))
        if not any(f.eq(x) for x in st.pc):
            st.pc.append(f)

    def m_str(self, st, o, name, vs, n):
        e = self.e
        s = e.load(st, o).p
        self.strlen_fact(st, s)
        if name in ('size', 'length'):
            return self.R(st, SIZE, num(len(lit_val(s))) if is_lit(s) else slen(s))
        if name == 'empty':
            return self.R(st, BOOL, str_eq(s, lit('')))
        if name == 'str' and not vs or name == 'get':
            return self.R(st, STR, s)
        if name == 'str':
            e.store(st, o, Val(STR, e.to_str(st, e.load(st, vs[0]))))
            return self.void(st)
        if name == 'operator bool':
            return self.R(st, BOOL, s != nullstr)
        if name == 'find':
            a = e.to_str(st, e.load(st, vs[0]))
            frm = e.intp(st, e.load(st, vs[1])) if len(vs) > 1 else num(0)
            r = sfind(s, a, frm)
            self.strlen_fact(st, a)
            st.pc.append(z3.Or(r == NPOS, z3.And(frm <= r, r + slen(a) <= slen(s))))
            return self.R(st, SIZE, r)
        if name in ('rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
            a = e.to_str(st, e.load(st, vs[0]))
            frm = e.intp(st, e.load(st, vs[1])) if len(vs) > 1 else num(0 if 'first' in name else NPOS)
            if name == 'find_first_of' and is_lit(a) and len(lit_val(a)) == 1:
                return self.m_str(st, o, 'find', vs, n)
            if name == 'rfind' and z3.is_int_value(frm) and frm.as_long() == 0:
                # prefix test idiom: rfind(x, 0) == 0
                c = fresh_const(Int, 'rfind')
                st.pc.append((c == 0) == z3.And(slen(s) >= slen(a), ssub(s, 0, z3.If(slen(a) >= slen(s), slen(s), slen(a))) == a))
                st.pc.append(z3.Or(c == 0, c == NPOS))
                return self.R(st, SIZE, c)
            r = z3.Function('s' + name, Str, Str, Int, Int)(s, a, frm)
            st.pc.append(z3.Or(r == NPOS, z3.And(0 <= r, r < slen(s) + 1)))
            return self.R(st, SIZE, r)
        if name == 'substr':
            return self.substr(st, s, self.vals(st, vs), n)
        if name == 'compare':
            v = self.vals(st, vs)
            r = fresh_const(Int, 'cmp')
            if len(v) == 1:
                st.pc.append((r == 0) == str_eq(s, e.to_str(st, v[0])))
                return self.R(st, I32, r)
            if len(v) == 3:
                out = []
                for s2, sv in self.substr(st, s, v[:2], n):
                    if s2.flow is None:
                        s2.pc.append((r == 0) == str_eq(sv.p, e.to_str(s2, v[2])))
                        out.append((s2, Val(I32, r)))
                    else:
                        out.append((s2, None))
                return out
            if len(v) == 5:
                out = []
                for s2, sv in self.substr(st, s, v[:2], n):
                    if s2.flow is not None:
                        out.append((s2, None))
                        continue
                    for s3, sw in self.substr(s2, e.to_str(s2, v[2]), v[3:5], n):
                        if s3.flow is None:
                            s3.pc.append((r == 0) == str_eq(sv.p, sw.p))
                            out.append((s3, Val(I32, r)))
                        else:
                            out.append((s3, None))
                return out
        if name in ('starts_with',):
            a = e.to_str(st, e.load(st, vs[0]))
            return self.R(st, BOOL, z3.And(slen(s) >= slen(a), ssub(s, 0, z3.If(slen(a) >= slen(s), slen(s), slen(a))) == a))
        if name in ('append', 'push_back') and len(vs) == 1:
            e.store(st, o, Val(STR, cat(s, e.to_str(st, e.load(st, vs[0])))))
            return [(st, o)]
        if name in ('c_str', 'data', 'string', 'native', 'generic_string'):
            return self.R(st, STR, s)
        if name == 'filename' and not vs:
            return self.R(st, STR, sfilename(s))
        if name == 'parent_path' and not vs:
            return self.R(st, STR, sparent(s))
        if name == 'at':
            i = e.load(st, vs[0]).p
            out = []
            for s2, ok in e.branch(st, z3.And(i >= 0, i < slen(s))):
                if ok:
                    out.append((s2, Val(CHAR, schr(s, i))))
                else:
                    e.throw(s2, 'std::out_of_range')
                    out.append((s2, None))
            return out
        if name in ('front', 'back'):
            e.oblige(st, slen(s) > 0, 'front()/back() of a non-empty string', ('C13',), n, 'safety')
            return self.R(st, CHAR, schr(s, num(0) if name == 'front' else slen(s) - 1))
        if name in ('begin', 'cbegin'):
            return [(st, self.begin(st, o))]
        if name in ('end', 'cend'):
            return [(st, self.end(st, o))]
        if name in ('clear',):
            e.store(st, o, Val(STR, lit('')))
            return self.void(st)
        if name in ('reserve', 'shrink_to_fit'):
            return self.void(st)
        if name in ('assign',):
            e.store(st, o, Val(STR, e.to_str(st, e.load(st, vs[0])) if len(vs) == 1 else fresh_const(Str, 'asg')))
            return [(st, o)]
        if name in ('operator basic_string_view', 'operator std::basic_string_view<char>') or name.startswith('operator '):
            return self.R(st, STR, s)
        raise Unsupported('string.%s' % name, n)

    def m_ptr(self, st, o, name, vs, n):
        e = self.e
        v = e.load(st, o)
        if name == 'get':
            return [(st, v)]
        if name in ('operator bool',):
            return self.R(st, BOOL, v.p != 0)
        if name == 'reset':
            e.store(st, o, Val(o.t, e.conv(st, e.load(st, vs[0]), o.t).p if vs else num(0)))
            return self.void(st)
        if name == 'release':
            e.store(st, o, Val(o.t, num(0)))
            return [(st, v)]
        if name == 'use_count':
            return self.R(st, I64, fresh_const(Int, 'usecount'))
        if name == 'swap':
            w = e.load(st, vs[0])
            e.store(st, o, w)
            e.store(st, vs[0], v)
            return self.void(st)
        if name == 'lock':
            return [(st, v)]
        raise Unsupported('pointer.%s' % name, n)

    def m_int(self, st, o, name, vs, n):
        v = self.e.load(st, o)
        if name == 'count':
            q = (n.inner[0].inner[0].type or '') if n.inner and n.inner[0].inner else ''
            m = re.search(r'ratio<(\d+)(?:, (\d+))?>', q)
            if m:
                a, b = int(m.group(1)), int(m.group(2) or 1)
                if a * 1000 == b:
                    return self.R(st, I64, v.p)
                return self.R(st, I64, z3.Function('count_%d_%d' % (a, b), Int, Int)(v.p))
            return self.R(st, I64, v.p)
        if name in ('time_since_epoch', 'load'):
            return [(st, v)]
        if name in ('store', 'exchange'):
            self.e.store(st, o, self.e.conv(st, self.e.load(st, vs[0]), o.t))
            return [(st, v)]
        if name.startswith('operator'):
            return [(st, v)]
        raise Unsupported('int.%s' % name, n)

    def m_bool(self, st, o, name, vs, n):
        v = self.e.load(st, o)
        if name in ('load',) or name.startswith('operator'):
            return [(st, v)]
        if name in ('store',):
            self.e.store(st, o, self.e.conv(st, self.e.load(st, vs[0]), BOOL))
            return self.void(st)
        raise Unsupported('bool.%s' % name, n)

    def m_fun(self, st, o, name, vs, n):
        v = self.e.load(st, o)
        if name == 'operator bool':
            return self.R(st, BOOL, z3.BoolVal(True) if isinstance(v.p, Closure) else v.p != 0)
        if name == 'operator()':
            return self.e.invoke(st, v, vs, n)
        raise Unsupported('function.%s' % name, n)

    def m_struct(self, st, o, name, vs, n):
        v = self.e.load(st, o)
        if v.t[1] and v.t[1][0][0] == 'has':
            if name in ('has_value', 'operator bool'):
                return self.R(st, BOOL, v.p['has'])
            if name == 'value':
                out = []
                for s, ok in self.e.branch(st, v.p['has']):
                    if ok:
                        out.append((s, Val(v.t[1][1][1], v.p['val'])))
                    else:
                        self.e.throw(s, 'std::bad_optional_access')
                        out.append((s, None))
                return out
            if name == 'value_or':
                d = self.e.conv(st, self.e.load(st, vs[0]), v.t[1][1][1])
                return self.R(st, v.t[1][1][1], pite(v.p['has'], v.p['val'], d.p))
        raise Unsupported('struct.%s' % name, n)

    def m_null(self, st, o, name, vs, n):
        raise Unsupported('member of null', n)

    def m_iter(self, st, o, name, vs, n):
        raise Unsupported('iterator.%s' % name, n)

    # ------------------------------------------------------------ free functions
    def call(self, st, rd, args, n):
        e = self.e
        name = rd.get('name')
        for key in ('ext:' + name,):
            if key in e.contracts:
                a2 = [a for a in args if a.kind != 'CXXDefaultArgExpr']
                return e.each(e.ev_list(st, a2, ['x'] * len(a2)), lambda s, vs: e.contracts[key](e, s, None, vs, n))
        args = [a for a in args if a.kind != 'CXXDefaultArgExpr']
        return e.each(e.ev_list(st, args, ['x'] * len(args)), lambda s, vs: self.call_vals(s, name, vs, n))

    def elem_at(self, st, it, idx):
        """Location of the element at position idx of the range of iterator it."""
        if it.kind == 'vec':
            return it.lv.i(idx, elem_type(it.lv.t))
        if it.kind == 'map':
            if it.enum is None:
                raise Unsupported('range of a map')
            return EntLV(it.lv, sel_leaf(it.enum[0], idx))
        if it.kind == 'str':
            return Val(CHAR, schr(self.e.load(st, it.lv).p, idx))
        raise Unsupported('range')

    def rng(self, st, a, b):
        a, b = self.e.load(st, a).p, self.e.load(st, b).p
        if not isinstance(a, IterV) or not isinstance(b, IterV):
            raise Unsupported('iterator range')
        lo = a.idx
        hi = b.idx if b.kind != 'map' else (a.enum[1] if a.enum else None)
        if lo is None or hi is None:
            raise Unsupported('iterator range')
        return a, lo, hi

    def pred_fn(self, st, it_or_lv, pred, n):
        """(yes(j), no(j)) formulas of a pure predicate applied to element j."""
        e = self.e
        it = it_or_lv if isinstance(it_or_lv, IterV) else IterV('vec', it_or_lv, num(0))
        jc = fresh_const(Int, 'pj')
        s0 = st.copy()
        if it.kind == 'vec':
            s0.pc.append(z3.And(jc >= 0, jc < self.lenof(st, it.lv)))
        elif it.kind == 'map':
            s0.pc.append(z3.And(jc >= 0, jc < it.enum[1]))
        yes, no = e.eval_bool(s0, lambda s: e.invoke(s, pred, [self.elem_at(s, it, jc)], n))
        def K(j):
            return z3.substitute(yes, (jc, j)), z3.substitute(no, (jc, j))
        return K

    def call_vals(self, st, name, vs, n):
        e = self.e
        if name in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof', 'static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast') and len(vs) == 1:
            return [(st, vs[0])]
        if name in ('make_shared', 'make_unique'):
            t = e.T.parse(n.type)
            if t[0] != 'ptr':
                return self.opaque_result(st, n)
            et = t[1]
            if et[0] == 'cls':
                def g(s, v):
                    return [(s, e.alloc(s, ('cls', et[1]), e.load(s, v).p))]
                return e.each(e.construct_vals(st, et[1], vs, n), g)
            if et[0] == 'opq':
                return self.opaque_result(st, n)
            out = []
            if not vs:
                return [(st, e.alloc(st, et, e.default(et)))]
            for s, v in self.construct(st, et, vs, '', n):
                out.append((s, e.alloc(s, et, v.p)))
            return out
        if name == 'make_pair':
            v = self.vals(st, vs)
            t = e.T.parse(n.type)
            if t[0] != 'struct':
                t = ('struct', (('first', v[0].t), ('second', v[1].t)))
            return self.R(st, t, {'first': e.conv(st, v[0], t[1][0][1]).p, 'second': e.conv(st, v[1], t[1][1][1]).p})
        if name == 'to_string':
            v = e.load(st, vs[0])
            return self.R(st, STR, self.itos(e.intp(st, v)))
        if name in ('stoul', 'stoull', 'stoi', 'stol', 'stoll'):
            s = e.to_str(st, e.load(st, vs[0]))
            kind = {'stoi': 'i32', 'stol': 'i64', 'stoll': 'i64', 'stoul': 'u64', 'stoull': 'u64'}[name]
            kc = num({'i32': 1, 'i64': 2, 'u64': 3}[kind])
            out = []
            ok = stoi_ok(s, kc)
            a = st.copy()
            a.pc.append(ok == 0)
            lo, hi = int_range(kind)
            val = stoi_val(s, kc)
            a.pc.append(z3.And(val >= lo, val <= hi))
            if e.feasible(a):
                out.append((a, Val(('int', kind), val)))
            for c, ty in ((1, 'std::invalid_argument'), (2, 'std::out_of_range')):
                b = st.copy()
                b.pc.append(ok == c)
                if e.feasible(b):
                    e.throw(b, ty)
                    out.append((b, None))
            return out
        if name in ('begin', 'cbegin', 'end', 'cend'):
            o = vs[0]
            if isinstance(o, Val):
                o = e.newvar(st, o.t, o.p)
            return [(st, self.begin(st, o) if 'begin' in name else self.end(st, o))]
        if name == 'size':
            return self.method_vals(st, vs[0], 'size', [], n)
        if name == 'empty':
            return self.method_vals(st, vs[0], 'empty', [], n)
        if name in ('find', 'find_if', 'find_if_not'):
            it, lo, hi = self.rng(st, vs[0], vs[1])
            if name == 'find':
                x = e.load(st, vs[2])
                et = elem_type(it.lv.t)
                arr = e.load(st, it.lv).p['arr']
                xv = e.conv(st, x, et).p
                yes = lambda j: e.peq(et, sel(arr, j), xv)
                no = lambda j: z3.Not(yes(j))
            else:
                K = self.pred_fn(st, it, e.load(st, vs[2]), n)
                yes, no = (lambda j: K(j)[0]), (lambda j: K(j)[1])
                if name == 'find_if_not':
                    yes, no = no, yes
            k = fresh_const(Int, 'found')
            j = z3.Const('j', Int)
            out = []
            a = st.copy()
            a.pc += [k >= lo, k < hi, yes(k), self.all_in(j, lo, k, no(j), st, it)]
            if e.feasible(a):
                out.append((a, Val(ITER, it.with_idx(k))))
            b = st.copy()
            b.pc.append(self.all_in(j, lo, hi, no(j), st, it))
            if e.feasible(b):
                out.append((b, Val(ITER, it.with_idx(hi))))
            return out
        if name in ('any_of', 'all_of', 'none_of'):
            it, lo, hi = self.rng(st, vs[0], vs[1])
            K = self.pred_fn(st, it, e.load(st, vs[2]), n)
            yes, no = (lambda j: K(j)[0]), (lambda j: K(j)[1])
            if name == 'all_of':
                yes, no = no, yes
            k = fresh_const(Int, 'wit')
            j = z3.Const('j', Int)
            out = []
            a = st.copy()
            a.pc += [k >= lo, k < hi, yes(k)]
            if e.feasible(a):
                out.append((a, Val(BOOL, z3.BoolVal(name == 'any_of'))))
            b = st.copy()
            b.pc.append(self.all_in(j, lo, hi, no(j), st, it))
            if e.feasible(b):
                out.append((b, Val(BOOL, z3.BoolVal(name != 'any_of'))))
            return out
        if name in ('remove', 'remove_if'):
            it, lo, hi = self.rng(st, vs[0], vs[1])
            o = it.lv
            p = e.load(st, o).p
            if not (z3.is_true(simp(lo == 0)) and z3.is_true(simp(hi == p['len']))):
                raise Unsupported('remove on a part of a container', n)
            et = elem_type(o.t)
            if name == 'remove':
                x = e.conv(st, e.load(st, vs[2]), et).p
                keep = lambda j: z3.Not(e.peq(et, sel(p['arr'], j), x))
            else:
                K = self.pred_fn(st, it, e.load(st, vs[2]), n)
                keep = lambda j: K(j)[1]
            new, ln = self.filter(st, o, lo, hi, keep)
            e.store(st, o, {'len': p['len'], 'arr': new}, ('filter', o))
            return self.R(st, ITER, IterV('vec', o, ln))
        if name in ('sort', 'stable_sort'):
            it, lo, hi = self.rng(st, vs[0], vs[1])
            return self.do_sort(st, it.lv, e.load(st, vs[2]) if len(vs) > 2 else None, name == 'stable_sort', n)
        if name == 'copy':
            it, lo, hi = self.rng(st, vs[0], vs[1])
            d = e.load(st, vs[2])
            if isinstance(d.p, IterV):
                if it.kind != 'vec' or d.p.kind != 'vec':
                    raise Unsupported('copy', n)
                dst = e.load(st, d.p.lv).p
                src = e.load(st, it.lv).p
                cnt = z3.simplify(hi - lo)
                e.oblige(st, z3.And(lo >= 0, lo <= hi, hi <= src['len'], d.p.idx >= 0, d.p.idx + cnt <= dst['len']), 'copy within bounds', ('C13',), n, 'safety')
                new = pmap(lambda a: fresh_const(a.sort(), 'cpy'), dst['arr'])
                j = z3.Const('j', Int)
                for (_, a), (_, b), (_, c) in zip(leaves(new), leaves(dst['arr']), leaves(src['arr'])):
                    st.pc.append(z3.ForAll([j], a[j] == z3.If(z3.And(j >= d.p.idx, j < d.p.idx + cnt), c[j - d.p.idx + lo], b[j]), patterns=[a[j]]))
                e.store(st, d.p.lv, {'len': dst['len'], 'arr': new}, ('copy', d.p.lv))
                return self.R(st, ITER, IterV('vec', d.p.lv, z3.simplify(d.p.idx + cnt)))
            if isinstance(d.p, tuple) and d.p[0] == 'back_inserter':
                self.append_range(st, d.p[1], it if it.kind == 'vec' else it, IterV('vec', it.lv, hi), n)
                return [(st, d)]
            return self.opaque_result(st, n)
        if name == 'back_inserter':
            return [(st, Val(('opq', 'back_inserter'), ('back_inserter', vs[0])))]
        if name == 'distance':
            a, b = e.load(st, vs[0]), e.load(st, vs[1])
            return [(st, self.iter_binop(st, '-', b, a, n))]
        if name in ('next', 'prev'):
            a = e.load(st, vs[0])
            k = e.load(st, vs[1]) if len(vs) > 1 else Val(I64, num(1))
            return [(st, self.iter_binop(st, '+' if name == 'next' else '-', a, k, n))]
        if name == 'advance':
            a = e.load(st, vs[0])
            nv = self.iter_binop(st, '+', a, e.load(st, vs[1]), n)
            e.store(st, vs[0], nv)
            return self.void(st)
        if name == 'swap' and len(vs) == 2:
            a, b = e.load(st, vs[0]), e.load(st, vs[1])
            e.store(st, vs[0], b)
            e.store(st, vs[1], a)
            return self.void(st)
        if name == 'exchange':
            a, b = e.load(st, vs[0]), e.load(st, vs[1])
            e.store(st, vs[0], e.conv(st, b, vs[0].t))
            return [(st, a)]
        if name in ('min', 'max') and len(vs) == 2:
            a, b = e.load(st, vs[0]), e.load(st, vs[1])
            c = a.p < b.p if name == 'min' else a.p > b.p
            return self.R(st, a.t, z3.If(c, a.p, b.p))
        if name in ('duration_cast', 'time_point_cast'):
            v = e.load(st, vs[0])
            return [(st, v)]
        if name == 'now':
            c = fresh_const(Int, 'now')
            hook = e.contracts.get('clock')
            if hook:
                return hook(e, st, None, [], n)
            return self.R(st, MS, c)
        if name == 'get':
            # std::get<N>(pair)
            o = vs[0]
            t = o.t
            if t[0] == 'struct':
                for x in n.walk():
                    pass
            raise Unsupported('std::get', n)
        if name in ('for_each', 'count_if', 'accumulate', 'transform', 'copy_if', 'count'):
            import loops
            return loops.algorithm(self, st, name, vs, n)
        if name in ('setw', 'setfill', 'hex', 'this_thread', 'yield', 'sleep_for', 'make_error_code', 'ignore'):
            return self.opaque_result(st, n)
        if name == 'tie':
            raise Unsupported('std::tie', n)
        # unknown external function
        raise Unsupported('call of external function %s' % name, n)

    def itos(self, x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return lit(str(x.as_long()))
        return sofint(x)

    def all_in(self, j, lo, hi, body, st, it):
        pats = []
        if it.kind == 'vec':
            for _, a in leaves(self.e.load(st, it.lv).p['arr']):
                pats.append(z3.Select(a, j))
        elif it.kind == 'map' and it.enum:
            pats.append(it.enum[0][j])
        f = z3.Implies(z3.And(j >= lo, j < hi), body)
        ok = [p for p in pats if occurs(p, body)]
        if ok:
            return z3.ForAll([j], f, patterns=ok)
        if pats:
            return z3.ForAll([j], f, patterns=pats)
        return z3.ForAll([j], f)

    def do_sort(self, st, o, cmp, stable, n):
        e = self.e
        p = self.named(st, e.load(st, o).p)
        et = elem_type(o.t)
        L = p['len']
        a_, b_ = fresh_const(Int, 'sa'), fresh_const(Int, 'sb')
        both = []
        if cmp is None:
            if et[0] in ('int',):
                less = lambda arr, x, y: arr[x] < arr[y]
            else:
                lt = z3.Function('lt_%s' % et[0], *([self.e.T.shape(et)] * 2 + [Bool]))
                less = lambda arr, x, y: lt(arr[x], arr[y])
        else:
            def less(arr, x, y):
                s0 = st.copy()
                tmp = e.newvar(s0, o.t, {'len': L, 'arr': arr})
                s0.pc.append(z3.And(a_ >= 0, a_ < L, b_ >= 0, b_ < L))
                if et[0] == 'ptr':
                    s0.pc.append(z3.And(arr[a_] != 0, arr[b_] != 0))
                yes, no = e.eval_bool(s0, lambda s: e.invoke(s, cmp, [tmp.i(a_, et), tmp.i(b_, et)], n))
                both.append(z3.substitute(z3.Or(yes, no), (a_, x), (b_, y)))   # one of them holds: type ranges of the operands
                return z3.substitute(yes, (a_, x), (b_, y))
        if cmp is not None:
            c1, c2, c3 = [fresh_const(Int, 'so') for _ in range(3)]
            rg = z3.And(*[z3.And(0 <= c, c < L) for c in (c1, c2, c3)])
            lt_ = lambda x, y: less(p['arr'], x, y)
            for nm, f in (('irreflexive', z3.Not(lt_(c1, c1))),
                          ('transitive', z3.Implies(z3.And(lt_(c1, c2), lt_(c2, c3)), lt_(c1, c3))),
                          ('a weak ordering', z3.Implies(z3.And(z3.Not(lt_(c1, c2)), z3.Not(lt_(c2, c1)), z3.Not(lt_(c2, c3)), z3.Not(lt_(c3, c2))), z3.And(z3.Not(lt_(c1, c3)), z3.Not(lt_(c3, c1)))))):
                s1 = st.copy()
                s1.pc.append(rg)
                s1.pc += both
                e.oblige(s1, f, 'the comparison given to the sort is ' + nm, ('C11',), n, 'pre')
        core._cnt[0] += 1
        u = core._cnt[0]
        perm = z3.Function('perm!%d' % u, Int, Int)
        inv = z3.Function('pinv!%d' % u, Int, Int)
        new = pmap(lambda a: fresh_const(a.sort(), 'sorted'), p['arr'])
        j, k = z3.Ints('j k')
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), z3.And(0 <= perm(j), perm(j) < L, inv(perm(j)) == j,
                     *[x[j] == y[perm(j)] for (_, x), (_, y) in zip(leaves(new), leaves(p['arr']))])), patterns=[x[j] for _, x in leaves(new)] + [perm(j)]))
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), z3.And(0 <= inv(j), inv(j) < L, perm(inv(j)) == j,
                     *[x[inv(j)] == y[j] for (_, x), (_, y) in zip(leaves(new), leaves(p['arr']))])), patterns=[y[j] for _, y in leaves(p['arr'])] + [inv(j)]))
        ln = less(new, k, j)
        body = z3.Implies(z3.And(0 <= j, j < k, k < L), z3.Not(ln))
        st.pc.append(z3.ForAll([j, k], body, patterns=[z3.MultiPattern(perm(j), perm(k))]))
        if stable:
            lo = less(new, j, k)
            st.pc.append(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < L, z3.Not(lo)), perm(j) < perm(k)), patterns=[z3.MultiPattern(perm(j), perm(k))]))
            # lemma of std::stable_sort: a range that is already ordered is left unchanged
            lp = less(p['arr'], k, j)
            srt = z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < L), z3.Not(lp)))
            ident = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), perm(j) == j), patterns=[perm(j)])
            st.pc.append(z3.Implies(srt, ident))
        e.store(st, o, {'len': L, 'arr': new}, ('sort', o))
        return self.void(st)

def occurs(p, body):
    i = p.get_id()
    st = [body]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == i:
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False

def simp_i(x):
    return z3.simplify(x)
