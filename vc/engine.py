"""Forward symbolic execution / verification-condition generation over clang's AST."""
import re, time
import extract
import z3
from core import *
import core

class Val:
    __slots__ = ('t', 'p')
    def __init__(self, t, p):
        self.t = t
        self.p = p
    def __repr__(self):
        return 'Val(%s,%s)' % (self.t, self.p)

class LV:
    __slots__ = ('root', 'path', 't')
    def __init__(self, root, path, t):
        self.root = root
        self.path = path
        self.t = t
    def f(self, name, t):
        return LV(self.root, self.path + (('f', name),), t)
    def i(self, idx, t):
        return LV(self.root, self.path + (('i', idx),), t)
    def k(self, key, t):
        return LV(self.root, self.path + (('k', key),), t)
    def key(self):
        def tk(x):
            return x.get_id() if isinstance(x, z3.ExprRef) else x
        return (tuple(tk(x) for x in self.root), tuple((a, tk(b)) for a, b in self.path))
    def __repr__(self):
        return 'LV(%s,%s)' % (self.root, self.path)

class IterV:
    """Iterator: vec (lv, idx) or map (lv, enumeration, idx | key, end)."""
    __slots__ = ('kind', 'lv', 'idx', 'key', 'end', 'enum', 'const')
    def __init__(self, kind, lv, idx=None, key=None, end=None, enum=None):
        self.kind, self.lv, self.idx, self.key, self.end, self.enum = kind, lv, idx, key, end, enum
    def with_idx(self, i):
        if self.kind in ('vec', 'rvec', 'str'):
            return IterV(self.kind, self.lv, i)
        K, n = self.enum
        return IterV('map', self.lv, i, key=sel_leaf(K, i), end=(i >= n), enum=self.enum)

class Closure:
    __slots__ = ('node', 'env', 'py', 'name', 'noenv')
    def __init__(self, node=None, env=None, py=None, name='lambda'):
        self.node, self.env, self.py, self.name = node, env, py, name

class St:
    __slots__ = ('vars', 'heap', 'env', 'pc', 'flow', 'ret', 'log', 'fc', 'note')
    def __init__(self):
        self.vars = {}
        self.heap = {}
        self.env = {}
        self.pc = []
        self.flow = None
        self.ret = None
        self.log = None
        self.note = ()
    def copy(self):
        s = St.__new__(St)
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.env = self.env
        s.pc = list(self.pc)
        s.flow = self.flow
        s.ret = self.ret
        s.log = None if self.log is None else list(self.log)
        s.note = self.note
        return s
    def bind(self, did, lv):
        e = dict(self.env)
        e[did] = lv
        self.env = e

class Obligation:
    __slots__ = ('name', 'tags', 'pc', 'goal', 'loc', 'status', 'time', 'detail', 'fn', 'kind')
    def __init__(self, name, tags, pc, goal, loc, fn, kind='assert'):
        self.name, self.tags, self.pc, self.goal, self.loc, self.fn, self.kind = name, tags, pc, goal, loc, fn, kind
        self.status = None
        self.time = 0.0
        self.detail = ''

_hasq = {}
def has_quant(e):
    i = e.get_id()
    r = _hasq.get(i)
    if r is None:
        if z3.is_quantifier(e):
            r = True
        else:
            r = any(has_quant(c) for c in e.children())
        _hasq[i] = (r, e)  # keep a reference so the id stays valid
        return r
    return r[0]

def simp(c):
    if z3.is_true(c) or z3.is_false(c):
        return c
    s = z3.simplify(c)
    if z3.is_true(s) or z3.is_false(s):
        return s
    return c

def solve(axioms, pc, goal, cfg, rlimit):
    """One solver run: (status, reason)."""
    s = z3.Solver()
    if cfg in ('ematch', 'rel0', 'noext'):
        s.set('smt.auto_config', False)
        if cfg == 'noext':
            s.set('smt.array.extensional', False)
        s.set('smt.mbqi', False)
        if cfg in ('noext', 'rel0'):
            s.set('smt.solve_eqs', False)
        if cfg == 'rel0':
            s.set('smt.relevancy', 0)
    s.set('rlimit', rlimit)
    s.set('timeout', 60000)
    s.add(*core.str_axioms())
    s.add(*axioms)
    s.add(*pc)
    s.add(z3.Not(goal))
    r = s.check()
    return (str(r), '' if r == z3.unsat else s.reason_unknown() if r == z3.unknown else 'model')

import os as _os
PAR = int(_os.environ.get('VC_PAR') or min(8, _os.cpu_count() or 1))

class Engine:
    MAXDEPTH = 40
    DEADLINE = None
    HINTS = None        # {loop: names of the invariants to try} (vc/hints.json), or None: try all
    REC = None          # records the invariants of every loop
    def __init__(self, prog, name='', tags=None):
        self.prog = prog
        self.T = Types(prog)
        self.name = name
        self.contracts = {}
        self.hctx, self.hlast = [], {}
        self.filt_kw = {}
        self.phi = False
        self.closures = {}
        self.obligations = []
        self.silent = 0
        self.probing = 0
        self.loopord = {}
        self.quick = 0
        self.wset = None
        self.heap0 = {}
        self.axioms = []
        self.fnstack = []
        self.assumptions = set()
        self.functions = set()
        self.loop_specs = []
        self.cursor_stack = []
        self.enums = {}
        self.want = tags            # only obligations with these tags are recorded (None = all)
        self.deadline = Engine.DEADLINE
        self.stats = {'feas': 0, 'houdini': 0, 'paths': 0, 'loops': 0, 'houdini_time': 0.0}
        self.loopinfo = []
        self.rl_houdini = 3000000
        self._feas = {}
        self.oldaddr = {}
        import stl
        self.lib = stl.Lib(self)

    # ------------------------------------------------------------------ utilities
    def unsupported(self, msg, n=None):
        raise Unsupported(msg, n)

    def oblige(self, st, goal, name, tags=('C13',), n=None, kind='assert'):
        goal = simp(goal)
        if not z3.is_true(goal):
            if not self.silent and (self.want is None or any(t in self.want for t in tags)):
                loc = '%s:%s' % ((n.file or '').replace(extract.REPO + '/', ''), n.line) if n is not None else ''
                fn = self.fnstack[-1] if self.fnstack else self.name
                self.obligations.append(Obligation(name, tuple(tags), list(st.pc), goal, loc, fn, kind))
        else:
            if not self.silent and (self.want is None or any(t in self.want for t in tags)):
                o = Obligation(name, tuple(tags), [], goal, '', self.fnstack[-1] if self.fnstack else self.name, kind)
                o.status = 'trivial'
                self.obligations.append(o)
        self.assume(st, goal)

    def assume(self, st, f):
        f = simp(f)
        if z3.is_true(f):
            return
        st.pc.append(f)

    def qf_key(self, st):
        return tuple(f.get_id() for f in st.pc)

    def feasible(self, st, extra=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        fs = [f for f in st.pc if not has_quant(f)]
        if extra is not None:
            fs.append(extra)
        key = tuple(f.get_id() for f in fs)
        if key in self._feas:
            return self._feas[key][0]
        self.stats['feas'] += 1
        s = z3.SolverFor('QF_AUFLIA') if False else z3.Solver()
        s.set('rlimit', 200000)
        s.set('smt.auto_config', False)
        s.set('smt.mbqi', False)
        s.add(*fs)
        ls = list(core._lits.values())
        if len(ls) > 1:
            s.add(z3.Distinct(*ls))
        r = s.check() != z3.unsat
        self._feas[key] = (r, fs)
        return r

    def prove(self, pc, goal, rlimit=None, cfgs=('noext', 'ematch', 'rel0')):
        rl = rlimit or self.rl_houdini
        for cfg in cfgs:
            if solve(self.axioms, pc, goal, cfg, rl)[0] == 'unsat':
                return True
        return False

    def prove_many(self, jobs, **kw):
        """[(pc, goal)] -> [bool]; independent queries are spread over processes."""
        n = min(PAR, len(jobs) // 2)
        if n < 2:
            return [self.prove(pc, g, **kw) for pc, g in jobs]
        import os, signal, select
        kids = []
        for i in range(n):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    for k in range(i, len(jobs), n):
                        os.write(wr, b'1' if self.prove(jobs[k][0], jobs[k][1], **kw) else b'0')
                finally:
                    os._exit(0)
            os.close(wr)
            kids.append((pid, rd))
        res = [False] * len(jobs)
        for i, (pid, rd) in enumerate(kids):
            todo = range(i, len(jobs), n)
            for k in todo:
                if not select.select([rd], [], [], 240)[0]:
                    os.kill(pid, signal.SIGKILL)
                    break
                b = os.read(rd, 1)
                if not b:
                    break
                res[k] = b == b'1'
            os.close(rd)
            os.waitpid(pid, 0)
        return res

    def branch(self, st, c):
        """Fork on a condition: [(state, bool)] of the feasible sides."""
        c = simp(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        a = st.copy()
        a.pc.append(c)
        nc = z3.Not(c)
        b = st
        if self.feasible(a):
            if self.feasible(st, nc):
                b = st.copy()
                b.pc.append(nc)
                return [(a, True), (b, False)]
            return [(a, True)]
        b = st.copy()
        b.pc.append(nc)
        return [(b, False)]

    # ------------------------------------------------------------------ memory
    def newvar(self, st, t, p, name='tmp'):
        core._cnt[0] += 1
        k = '%s#%d' % (name, core._cnt[0])
        st.vars[k] = p
        return LV(('var', k), (), t)

    def tkey(self, t):
        if t[0] == 'cls':
            return ('cls', self.T.root(t[1]))
        return t

    def heap_of(self, st, tk):
        if tk not in st.heap:
            if tk not in self.heap0:
                self.heap0[tk] = fresh(lift(Int, self.T.shape(tk)), 'H.%s' % (tk[1] if tk[0] == 'cls' else tk[0],))
            st.heap[tk] = self.heap0[tk]
        return st.heap[tk]

    def load(self, st, lv):
        if isinstance(lv, Val):
            return lv
        r = lv.root
        path = lv.path
        if r[0] == 'var':
            p = st.vars[r[1]]
        else:
            p = self.heap_of(st, r[1])
            i = 0
            while i < len(path) and path[i][0] == 'f':
                p = p[path[i][1]]
                i += 1
            p = sel(p, r[2])
            path = path[i:]
        i = 0
        while i < len(path):
            k, x = path[i]
            if k == 'f':
                p = p[x]
                i += 1
            else:
                p = p['arr'] if k == 'i' else p['val']
                i += 1
                while i < len(path) and path[i][0] == 'f':
                    p = p[path[i][1]]
                    i += 1
                p = sel(p, x)
        k = getattr(lv, 'kterm', None)
        if k is not None and lv.t[0] == 'struct':
            # a copy of the element of a map
            p = {'first': k, 'second': p}
        v = Val(lv.t, p)
        if lv.t[0] == 'int' and isinstance(p, z3.ExprRef) and not z3.is_int_value(p):
            self.in_range(st, lv.t, p)
        return v

    def in_range(self, st, t, p):
        if not z3.is_const(p) and not (z3.is_app(p) and p.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED)):
            return
        lo, hi = int_range(t[1])
        f = z3.And(p >= lo, p <= hi)
        for g in st.pc:
            if g.eq(f):
                return
        st.pc.append(f)

    def _upd(self, p, path, v):
        if not path:
            return v
        k, x = path[0]
        if k == 'f':
            q = dict(p)
            q[x] = self._upd(p[x], path[1:], v)
            return q
        q = dict(p)
        kk = 'arr' if k == 'i' else 'val'
        q[kk] = self._updl(p[kk], x, path[1:], v)
        return q

    def _updl(self, p, idx, path, v):
        if path and path[0][0] == 'f':
            q = dict(p)
            q[path[0][1]] = self._updl(p[path[0][1]], idx, path[1:], v)
            return q
        if not path:
            return sto(p, idx, v)
        return sto(p, idx, self._upd(sel(p, idx), path, v))

    def store(self, st, lv, val, effect=None):
        v = val.p if isinstance(val, Val) else val
        r = lv.root
        if self.wset is not None:
            fs = []
            for s in lv.path:
                if s[0] != 'f':
                    break
                fs.append(s[1])
            self.wset.add((r[0], r[1], tuple(fs)))
        if st.log is not None:
            st.log.append(effect or ('set', lv, v))
        if r[0] == 'var':
            st.vars[r[1]] = self._upd(st.vars[r[1]], lv.path, v)
        else:
            st.heap[r[1]] = self._updl(self.heap_of(st, r[1]), r[2], lv.path, v)

    def gget(self, st, name):
        return st.vars['g:' + name]

    def gset(self, st, name, p):
        self.store(st, LV(('var', 'g:' + name), (), ('opq', 'ghost')), p)

    def alloc(self, st, t, p):
        a = self.gget(st, 'alloc')
        r = z3.simplify(a + 1)
        self.gset(st, 'alloc', r)
        lv = LV(('heap', self.tkey(t), r), (), t)
        self.store(st, lv, p)
        return Val(('ptr', t), r)

    def deref(self, st, v, n=None):
        """LV of the object a pointer value designates."""
        if v.t[0] != 'ptr':
            if v.t[0] == 'null':
                self.oblige(st, z3.BoolVal(False), 'null pointer dereference', ('C13',), n, 'safety')
                raise Unsupported('dereference of null', n)
            raise Unsupported('dereference of %r' % (v.t,), n)
        self.oblige(st, v.p != 0, 'no null pointer dereference', ('C13',), n, 'safety')
        return LV(('heap', self.tkey(v.t[1]), v.p), (), v.t[1])

    def default(self, t, name='dflt'):
        k = t[0]
        if k == 'bool':
            return z3.BoolVal(False)
        if k in ('int', 'ptr', 'fun'):
            return num(0)
        if k == 'null':
            return num(0)
        if k == 'str':
            return lit('')
        if k == 'opq':
            return fresh_const(Int, 'opq')
        if k == 'struct':
            return {n: self.default(x) for n, x in t[1]}
        if k == 'vec' or k == 'mmap':
            sh = self.T.shape(t)
            return {'len': num(0), 'arr': fresh(sh['arr'], 'empty')}
        if k == 'map':
            sh = self.T.shape(t)
            return {'dom': z3.K(self.T.shape(t[1]), z3.BoolVal(False)), 'val': fresh(sh['val'], 'emptymap')}
        raise Unsupported('default value of %r' % (t,))

    def conv(self, st, v, t, n=None):
        """Convert a value to the declared type t (implicit conversions)."""
        if t is None or v.t == t or t[0] in ('opq', 'void'):
            return v
        if t[0] == 'ptr' and v.t[0] in ('ptr', 'null'):
            return Val(t if v.t[0] == 'null' else v.t, v.p)
        if t[0] == 'int' and v.t[0] == 'int':
            return Val(t, self.wrap(st, v.p, t[1]))
        if t[0] == 'int' and v.t[0] == 'bool':
            return Val(t, z3.If(v.p, num(1), num(0)))
        if t[0] == 'bool' and v.t[0] == 'int':
            return Val(t, v.p != 0)
        if t[0] == 'bool' and v.t[0] in ('ptr', 'null', 'fun'):
            return Val(t, v.p != 0)
        if t[0] == 'fun' and isinstance(v.p, Closure):
            return Val(FUN, self.closure_id(v.p))
        if t[0] == 'fun' and v.t[0] == 'null':
            return Val(FUN, num(0))
        return v

    def closure_id(self, c):
        for k, x in self.closures.items():
            if x is c:
                return num(k)
        k = len(self.closures) + 1
        self.closures[k] = c
        return num(k)

    def wrap(self, st, x, k):
        lo, hi = int_range(k)
        if z3.is_int_value(x):
            v = x.as_long()
            if lo <= v <= hi:
                return x
            return num((v - lo) % (hi - lo + 1) + lo)
        if not z3.is_app(x) or x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
            # loads are already range-constrained; uninterpreted results are constrained by their axioms
            pass
        if not self.feasible(st, z3.Or(x < lo, x > hi)):
            return x
        if k[0] == 'i':
            self.assumptions.add('signed integer arithmetic does not overflow (treated as mathematical)')
            return x
        m = hi + 1
        if not self.feasible(st, z3.Or(x < 0, x >= 2 * m)):
            return z3.If(x >= m, x - m, x)
        if not self.feasible(st, z3.Or(x < -m, x >= 2 * m)):
            return z3.If(x >= m, x - m, z3.If(x < 0, x + m, x))
        return x % m

    # ------------------------------------------------------------------ expressions
    def each(self, pairs, f):
        out = []
        for s, v in pairs:
            if s.flow is not None:
                out.append((s, None))
            else:
                out.extend(f(s, v))
        return out

    def ev(self, st, n):
        m = getattr(self, 'e_' + str(n.kind), None)
        if m is None:
            raise Unsupported('expression %s' % n.kind, n)
        return m(st, n)

    def rv(self, st, n):
        return self.each(self.ev(st, n), lambda s, v: [(s, self.load(s, v))])

    def lv(self, st, n):
        def f(s, v):
            if isinstance(v, Val):
                return [(s, self.newvar(s, v.t, v.p))]
            return [(s, v)]
        return self.each(self.ev(st, n), f)

    def ev_list(self, st, ns, modes=None):
        """Evaluate several expressions left to right; modes[i] in 'v','l','x'(either)."""
        res = [(st, [])]
        for i, n in enumerate(ns):
            nxt = []
            for s, vs in res:
                if s.flow is not None:
                    nxt.append((s, vs))
                    continue
                md = modes[i] if modes else 'v'
                g = self.rv if md == 'v' else self.lv if md == 'l' else self.ev
                for s2, v in g(s, n):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def _pass(self, st, n):
        return self.ev(st, n.inner[0])
    e_ExprWithCleanups = e_ParenExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_FullExpr = _pass

    def e_MaterializeTemporaryExpr(self, st, n):
        return self.lv(st, n.inner[0])

    def e_IntegerLiteral(self, st, n):
        return [(st, Val(self.T.parse(n.type), num(int(n.get('value')))))]

    def e_CharacterLiteral(self, st, n):
        return [(st, Val(CHAR, num(int(n.get('value')))))]

    def e_CXXBoolLiteralExpr(self, st, n):
        return [(st, Val(BOOL, z3.BoolVal(bool(n.get('value')))))]

    def e_StringLiteral(self, st, n):
        return [(st, Val(STR, lit(self.strlit(n))))]

    def strlit(self, n):
        v = n.get('value')
        import ast as _a
        try:
            return _a.literal_eval(v)
        except Exception:
            return v

    def e_CXXNullPtrLiteralExpr(self, st, n):
        return [(st, Val(NULLT, num(0)))]
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_FloatingLiteral(self, st, n):
        return [(st, Val(('opq', 'float'), fresh_const(Int, 'flt')))]

    def e_CXXScalarValueInitExpr(self, st, n):
        t = self.T.parse(n.type)
        return [(st, Val(t, self.default(t)))]
    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_CXXThisExpr(self, st, n):
        return [(st, ('this', st.env['this']))]

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        return [(st, Val(SIZE, fresh_const(Int, 'sizeof')))]

    def e_DeclRefExpr(self, st, n):
        rd = n.get('referencedDecl')
        did, kind = rd['id'], rd['kind']
        if did in st.env:
            v = st.env[did]
            return [(st, v)]
        if kind == 'EnumConstantDecl':
            return [(st, Val(I32, self.enum_const(rd)))]
        if kind in ('FunctionDecl', 'CXXMethodDecl'):
            return [(st, ('func', rd))]
        if kind in ('VarDecl',):
            return self.global_var(st, rd, n)
        raise Unsupported('reference to %s %s' % (kind, rd.get('name')), n)

    def enum_const(self, rd):
        nm = rd.get('name')
        d = self.prog.by_id.get(rd['id'])
        if d is not None and d.parent is not None and d.parent.kind == 'EnumDecl':
            cur = -1
            for c in d.parent.inner:
                if c.kind != 'EnumConstantDecl':
                    continue
                cur += 1
                for x in c.walk():
                    if x.kind in ('IntegerLiteral', 'ConstantExpr') and x.get('value') is not None:
                        cur = int(x.get('value'))
                        break
                if c.id == d.id:
                    return num(cur)
        known = {'SNDMORE': 2, 'NOBLOCK': 1}
        return z3.Const('enum:' + nm, Int)

    def global_var(self, st, rd, n):
        name = rd.get('name')
        if name == 'npos':
            return [(st, Val(SIZE, num(NPOS)))]
        d = self.prog.by_id.get(rd['id'])
        cand = None
        if d is not None:
            if d.inner and any(c.kind and 'Comment' not in c.kind for c in d.inner):
                cand = d
            else:
                for g in self.prog.globals.values():
                    if g.name == name and (g.get('previousDecl') == rd['id'] or g.get('_qual') == d.get('_qual')):
                        cand = g
        if cand is None:
            t = self.T.parse((rd.get('type') or {}).get('qualType'))
            if t[0] in ('opq', 'int', 'bool'):
                return [(st, Val(t, z3.Const('glob:' + str(name), self.T.shape(t))))]
            raise Unsupported('global %s' % name, n)
        q = (cand.qtype or '')
        if 'const' not in q and not cand.get('constexpr'):
            t = self.T.parse(cand.type)
            return [(st, Val(t, fresh(self.T.shape(t), 'global')))]
        ini = [c for c in cand.inner if c.kind and 'Comment' not in c.kind][0]
        env = st.env
        st.env = {'this': None}
        r = self.rv(st, ini)
        for s, v in r:
            s.env = env
        return r

    def member_lv(self, st, base, fid, name, n):
        """LV/Val of the field named by decl id on base (LV or Val)."""
        t = base.t
        if t[0] == 'cls':
            self.T.fields(t[1])
            key = self.T.field_key.get(fid, name)
            fs = self.T.fields(t[1])
            if key not in fs:
                raise Unsupported('field %s of %s' % (name, t[1]), n)
            ft = fs[key][0]
        elif t[0] in ('struct',):
            ft = dict(t[1]).get(name)
            key = name
            if ft is None:
                raise Unsupported('field %s of %r' % (name, t), n)
        else:
            raise Unsupported('member %s of %r' % (name, t), n)
        if isinstance(base, Val):
            return Val(ft, base.p[key])
        return base.f(key, ft)

    def obj(self, s, b, arrow, n):
        """Object designated by the base of a member expression."""
        if isinstance(b, tuple) and b[0] == 'this':
            if b[1] is None:
                raise Unsupported('this in this context', n)
            return b[1]
        if isinstance(b, tuple) and b[0] == 'addr':
            return b[1]
        if arrow:
            v = self.load(s, b)
            if isinstance(v.p, IterV):
                return self.lib.iter_deref(s, v.p, n)
            return self.deref(s, v, n)
        return b

    def e_MemberExpr(self, st, n):
        name = n.name
        mid = n.get('referencedMemberDecl')
        md = self.prog.by_id.get(mid)
        if md is not None and md.kind == 'VarDecl':
            return self.global_var(st, {'id': mid, 'name': name, 'kind': 'VarDecl', 'type': md.d.get('type')}, n)
        def f(s, b):
            o = self.obj(s, b, n.get('isArrow'), n)
            return [(s, self.member_lv(s, o, mid, name, n))]
        return self.each(self.ev(st, n.inner[0]), f)

    def e_ImplicitCastExpr(self, st, n):
        ck = n.get('castKind')
        x = n.inner[0]
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'FunctionToPointerDecay', 'ArrayToPointerDecay',
                  'BuiltinFnToFnPtr', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived', 'Dynamic', 'BitCast'):
            return self.ev(st, x)
        if ck == 'LValueToRValue':
            def g(s, v):
                if isinstance(v, tuple):
                    return [(s, v)]
                return [(s, self.load(s, v))]
            return self.each(self.ev(st, x), g)
        if ck == 'ToVoid':
            return self.each(self.ev(st, x), lambda s, v: [(s, Val(VOID, num(0)))])
        t = self.T.parse(n.type)
        if ck in ('IntegralCast', 'NullToPointer', 'IntegralToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral', 'FloatingToIntegral', 'IntegralToFloating', 'FloatingCast', 'MemberPointerToBoolean'):
            def f(s, v):
                if ck == 'NullToPointer':
                    return [(s, Val(NULLT, num(0)))]
                if isinstance(v, tuple):
                    return [(s, Val(BOOL, z3.BoolVal(True)))]
                v = self.load(s, v)
                if 'Float' in ck or 'loating' in ck:
                    return [(s, Val(t, fresh_const(Int, 'flt')))]
                return [(s, self.conv(s, v, t, n))]
            return self.each(self.ev(st, x), f)
        raise Unsupported('cast %s' % ck, n)
    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_ImplicitCastExpr
    def e_CXXConstCastExpr(self, st, n):
        return self.ev(st, n.inner[0])

    # -- operators
    def e_UnaryOperator(self, st, n):
        op = n.get('opcode')
        x = n.inner[0]
        if op == '!':
            return self.each(self.rv(st, x), lambda s, v: [(s, Val(BOOL, z3.Not(self.conv(s, v, BOOL).p)))])
        if op == '&':
            return self.each(self.ev(st, x), lambda s, v: [(s, ('addr', v if isinstance(v, LV) else self.newvar(s, v.t, v.p)))])
        if op == '*':
            def g(s, v):
                if isinstance(v, tuple) and v[0] in ('addr', 'this'):
                    return [(s, v[1])]
                v = self.load(s, v)
                if isinstance(v.p, IterV):
                    return [(s, self.lib.iter_deref(s, v.p, n))]
                return [(s, self.deref(s, v, n))]
            return self.each(self.ev(st, x), g)
        if op in ('++', '--'):
            def g(s, l):
                v = self.load(s, l)
                d = 1 if op == '++' else -1
                if isinstance(v.p, IterV):
                    return self.lib.iter_step(s, l, d, n.get('isPostfix'), n)
                nv = Val(v.t, self.wrap(s, v.p + d, v.t[1]))
                self.store(s, l, nv)
                return [(s, v if n.get('isPostfix') else l)]
            return self.each(self.lv(st, x), g)
        if op == '-':
            return self.each(self.rv(st, x), lambda s, v: [(s, Val(v.t, self.wrap(s, -v.p, v.t[1])))])
        if op == '+':
            return self.rv(st, x)
        if op == '~':
            return self.each(self.rv(st, x), lambda s, v: [(s, Val(v.t, fresh_const(Int, 'bitnot')))])
        raise Unsupported('unary %s' % op, n)

    def e_BinaryOperator(self, st, n):
        op = n.get('opcode')
        a, b = n.inner
        if op in ('&&', '||'):
            def f(s, v):
                c = self.conv(s, v, BOOL).p
                out = []
                for s2, val in self.branch(s, c):
                    if val == (op == '||'):
                        out.append((s2, Val(BOOL, z3.BoolVal(val))))
                    else:
                        out.extend(self.each(self.rv(s2, b), lambda s3, w: [(s3, Val(BOOL, self.conv(s3, w, BOOL).p))]))
                return out
            return self.each(self.rv(st, a), f)
        if op == ',':
            return self.each(self.ev(st, a), lambda s, v: self.ev(s, b))
        if op == '=':
            def f(s, r):
                r = self.load(s, r)
                def g(s2, l):
                    self.store(s2, l, self.conv(s2, r, l.t))
                    return [(s2, l)]
                return self.each(self.lv(s, a), g)
            return self.each(self.rv(st, b), f)
        def f(s, vs):
            return [(s, self.binop(s, op, vs[0], vs[1], n))]
        return self.each(self.ev_list(st, [a, b]), f)

    def e_CompoundAssignOperator(self, st, n):
        op = n.get('opcode')[:-1]
        a, b = n.inner
        def f(s, r):
            def g(s2, l):
                cur = self.load(s2, l)
                self.store(s2, l, self.conv(s2, self.binop(s2, op, cur, r, n), l.t))
                return [(s2, l)]
            return self.each(self.lv(s, a), g)
        return self.each(self.rv(st, b), f)

    def binop(self, st, op, a, b, n=None):
        if isinstance(a.p, IterV) or isinstance(b.p, IterV):
            return self.lib.iter_binop(st, op, a, b, n)
        if op in ('==', '!='):
            e = self.equal(st, a, b, n)
            return Val(BOOL, e if op == '==' else simp(z3.Not(e)))
        if a.t[0] == 'str' and op in ('<', '>', '<=', '>='):
            return Val(BOOL, fresh_const(Bool, 'strcmp'))
        if a.t[0] == 'str' and op == '+':
            return Val(STR, cat(self.to_str(st, a), self.to_str(st, b)))
        if op in ('<', '>', '<=', '>='):
            x, y = self.intp(st, a), self.intp(st, b)
            return Val(BOOL, {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
        x, y = self.intp(st, a), self.intp(st, b)
        t = a.t if a.t[0] == 'int' else b.t
        if t[0] != 'int':
            t = I64
        if op in ('+', '-', '*'):
            r = x + y if op == '+' else x - y if op == '-' else x * y
            r = z3.simplify(r)
            return Val(t, self.wrap(st, r, t[1]))
        if op in ('/', '%'):
            self.oblige(st, y != 0, 'no division by zero', ('C13',), n, 'safety')
            if z3.is_int_value(y) and y.as_long() > 0 and t[1][0] == 'u':
                return Val(t, x / y if op == '/' else x % y)
            return Val(t, fresh_const(Int, 'div'))
        if op in ('&', '|', '^', '<<', '>>'):
            if z3.is_int_value(x) and z3.is_int_value(y):
                a_, b_ = x.as_long(), y.as_long()
                return Val(t, num({'&': a_ & b_, '|': a_ | b_, '^': a_ ^ b_, '<<': a_ << b_, '>>': a_ >> b_}[op]))
            if op == '&':
                for a_, b_ in ((x, y), (y, x)):
                    if z3.is_int_value(b_):
                        c_ = b_.as_long()
                        if c_ > 0 and c_ & (c_ - 1) == 0:
                            # a single bit (also right for negative numbers in two's complement)
                            return Val(t, (a_ % 2) if c_ == 1 else ((a_ / c_) % 2) * c_)
            f = z3.Function('bit' + op, Int, Int, Int)
            return Val(t, f(x, y))
        raise Unsupported('binary %s' % op, n)

    def intp(self, st, v):
        if v.t[0] == 'bool':
            return z3.If(v.p, num(1), num(0))
        if not isinstance(v.p, z3.ExprRef) or v.p.sort() != Int:
            raise Unsupported('integer expected, got %r' % (v.t,))
        return v.p

    def to_str(self, st, v):
        if v.t[0] == 'str':
            return v.p
        if v.t == CHAR:
            if z3.is_int_value(v.p):
                return lit(chr(v.p.as_long() % 256))
            return z3.Function('chrstr', Int, Str)(v.p)
        raise Unsupported('string expected, got %r' % (v.t,))

    def equal(self, st, a, b, n=None):
        if isinstance(a.p, IterV) or isinstance(b.p, IterV):
            return self.lib.iter_eq(st, a.p, b.p)
        if a.t[0] == 'null' or b.t[0] == 'null' or a.t[0] == 'ptr':
            if isinstance(a.p, Closure) or isinstance(b.p, Closure):
                return z3.BoolVal(False)
            return simp(a.p == b.p)
        if a.t[0] == 'str':
            return str_eq(a.p, b.p)
        if a.t[0] in ('int', 'bool') or b.t[0] in ('int', 'bool'):
            if a.t[0] == 'bool' and b.t[0] == 'bool':
                return a.p == b.p
            return simp(self.intp(st, a) == self.intp(st, b))
        return self.peq(a.t, a.p, b.p, n)

    def peq(self, t, a, b, n=None):
        """Value equality of payloads of type t."""
        if same(a, b):
            return z3.BoolVal(True)
        k = t[0]
        if k == 'str':
            return str_eq(a, b)
        if k in ('int', 'bool', 'ptr', 'opq', 'fun', 'null'):
            return a == b
        if k == 'struct':
            return pand([self.peq(x, a[f], b[f], n) for f, x in t[1]])
        if k in ('vec', 'mmap'):
            j = ivar('e')
            et = elem_type(t)
            body = z3.Implies(z3.And(0 <= j, j < a['len']), self.peq(et, sel(a['arr'], j), sel(b['arr'], j), n))
            return z3.And(a['len'] == b['len'], z3.ForAll([j], body))
        if k == 'map':
            kk = fresh_const(self.T.shape(t[1]), 'mk')
            return z3.ForAll([kk], z3.And(a['dom'][kk] == b['dom'][kk], z3.Implies(a['dom'][kk], self.peq(t[2], sel(a['val'], kk), sel(b['val'], kk), n))))
        raise Unsupported('equality on %r' % (t,), n)

    def e_ConditionalOperator(self, st, n):
        c, a, b = n.inner
        out = []
        def f(s, v):
            r = []
            for s2, val in self.branch(s, self.conv(s, v, BOOL).p):
                r.extend(self.ev(s2, a if val else b))
            return r
        return self.each(self.rv(st, c), f)

    def e_CXXDefaultArgExpr(self, st, n):
        return [(st, ('dflt', n))]

    def e_InitListExpr(self, st, n):
        t = self.T.parse(n.type)
        if t[0] == 'cls' or t[0] == 'struct':
            fs = self.T.own_fields(t[1]) if t[0] == 'cls' else [(a, b, None) for a, b in t[1]]
            ns = [c for c in n.inner if c.kind]
            def f(s, vs):
                p = self.blank(t)
                for (k, ft, _), v in zip(fs, vs):
                    p[k] = self.conv(s, v, ft).p
                for (k, ft, _) in fs[len(vs):]:
                    p[k] = self.default(ft) if ft[0] != 'cls' else self.blank(ft)
                return [(s, Val(t, p))]
            # fields with default member initialisers appear as CXXDefaultInitExpr
            return self.each(self.ev_list(st, ns), f)
        if t[0] == 'vec':
            return self.each(self.ev_list(st, n.inner), lambda s, vs: [(s, self.mkvec(s, t[1], vs))])
        if len(n.inner) == 1:
            return self.rv(st, n.inner[0])
        if not n.inner:
            return [(st, Val(t, self.default(t)))]
        raise Unsupported('initialiser list for %r' % (t,), n)

    def mkvec(self, st, et, vs, t=None):
        arr = fresh(lift(Int, self.T.shape(et)), 'il')
        for i, v in enumerate(vs):
            arr = sto(arr, num(i), self.conv(st, v, et).p)
        return Val(t or ('vec', et), {'len': num(len(vs)), 'arr': arr})

    def blank(self, t):
        return fresh(self.T.shape(t), 'uninit')

    def e_CXXStdInitializerListExpr(self, st, n):
        def f(s, v):
            v = self.load(s, v)
            return [(s, v)]
        il = n.inner[0]
        while il.kind != 'InitListExpr' and len(il.inner) == 1:
            il = il.inner[0]
        et = None
        t = self.T.parse(n.type)
        if t[0] == 'vec':
            et = t[1]
        def g(s, vs):
            return [(s, self.mkvec(s, et if et and et[0] != 'opq' else vs[0].t, vs))]
        return self.each(self.ev_list(st, il.inner), g)

    def e_CXXDefaultInitExpr(self, st, n):
        if n.inner:
            return self.ev(st, n.inner[0])
        raise Unsupported('default member initialiser', n)

    # -- construction
    def e_CXXConstructExpr(self, st, n):
        ct = (n.get('ctorType') or {}).get('qualType') or ''
        t = self.T.parse(n.type)
        return self.construct(st, t, n.inner, ct, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, st, t, args, ctype, n):
        if t[0] == 'cls':
            ctor = self.find_ctor(t[1], ctype, args)
            if ctor == 'copy':
                return self.rv(st, args[0])
            return self.call_ctor(st, t[1], ctor, args, n)
        real = [a for a in args if a.kind != 'CXXDefaultArgExpr']
        return self.each(self.ev_list(st, real, ['x'] * len(real)), lambda s, vs: self.lib.construct(s, t, vs, ctype, n))

    def find_ctor(self, cls, ctype, args):
        c = self.prog.classes[cls]
        short = cls.split('::')[-1]
        cands = []
        for m in self.all_methods(cls):
            if m.kind != 'CXXConstructorDecl':
                continue
            cands.append(m)
        def norm(x):
            return re.sub(r'\s*noexcept(\(.*\))?\s*$', '', x).replace('vrf_repo::', '').strip()
        for m in cands:
            if norm(m.qtype or '') == norm(ctype):
                return self.ctor_kind(m, cls)
        # match by number of parameters
        k = len(args)
        for m in cands:
            ps = [p for p in m.inner if p.kind == 'ParmVarDecl']
            if len(ps) == k and self.ctor_kind(m, cls) != 'copy':
                return self.ctor_kind(m, cls)
        for m in cands:
            ps = [p for p in m.inner if p.kind == 'ParmVarDecl']
            if len(ps) == k:
                return self.ctor_kind(m, cls)
        if not args:
            return None
        raise Unsupported('constructor of %s: %s' % (cls, ctype))

    def ctor_kind(self, m, cls):
        ps = [p for p in m.inner if p.kind == 'ParmVarDecl']
        d = self.prog.def_of.get(m.id)
        if len(ps) == 1 and self.T.parse(ps[0].type) == ('cls', cls) and ('&' in (ps[0].qtype or '')):
            if m.get('isImplicit') or m.get('explicitlyDefaulted') or d is None or m.get('explicitlyDefaulted') == 'default':
                return 'copy'
        if d is not None:
            return d
        return m

    def all_methods(self, cls):
        c = self.prog.classes[cls]
        for m in c.inner:
            if m.kind == 'FunctionTemplateDecl':
                for x in m.inner:
                    if x.kind in ('CXXMethodDecl', 'CXXConstructorDecl'):
                        yield x
            yield m

    def construct_vals(self, st, cls, vals, n):
        """Construct an object of a repository class from evaluated arguments (make_shared)."""
        cands = []
        for m in self.all_methods(cls):
            if m.kind == 'CXXConstructorDecl':
                ps = [p for p in m.inner if p.kind == 'ParmVarDecl']
                req = [p for p in ps if p.get('init') is None]
                if len(req) <= len(vals) <= len(ps):
                    cands.append((m, ps))
        best = None
        for m, ps in cands:
            sc = 0
            for p, v in zip(ps, vals):
                pt = self.T.parse(p.type)
                vt = v.t
                if pt == vt:
                    sc += 3
                elif pt[0] == vt[0]:
                    sc += 2 if pt[0] != 'cls' else (1 if self.T.root(pt[1]) == self.T.root(vt[1]) else -50)
                elif pt[0] == 'ptr' and vt[0] == 'null':
                    sc += 1
                elif vt[0] in ('cls', 'str', 'vec', 'map', 'mmap') or pt[0] in ('cls', 'str', 'vec', 'map', 'mmap'):
                    sc -= 50
            if best is None or sc > best[0]:
                best = (sc, m)
        if best is None:
            if not vals:
                return self.call_ctor_vals(st, cls, None, [], n)
            raise Unsupported('no constructor of %s for %d arguments' % (cls, len(vals)), n)
        k = self.ctor_kind(best[1], cls)
        if k == 'copy':
            return [(st, self.load(st, vals[0]))]
        return self.call_ctor_vals(st, cls, k, vals, n)

    def call_ctor(self, st, cls, ctor, args, n):
        if ctor is None:
            return self.call_ctor_vals(st, cls, None, [], n)
        ps = [p for p in ctor.inner if p.kind == 'ParmVarDecl']
        return self.with_args(st, ps, args, lambda s, vs: self.call_ctor_vals(s, cls, ctor, vs, n))

    def with_args(self, st, params, args, f):
        modes = []
        for i, a in enumerate(args):
            q = (params[i].qtype or '') if i < len(params) else ''
            modes.append('l' if q.rstrip().endswith('&') else 'x')
        def g(s, vs):
            out = []
            for i, v in enumerate(vs):
                if isinstance(v, tuple) and v[0] == 'dflt':
                    dv = self.param_default(s, params[i], args[i])
                    out.append(dv)
                elif isinstance(v, LV) and modes[i] == 'x':
                    out.append(self.load(s, v))
                else:
                    out.append(v)
            return f(s, out)
        return self.each(self.ev_list2(st, args, modes), g)

    def ev_list2(self, st, ns, modes):
        res = [(st, [])]
        for i, n in enumerate(ns):
            nxt = []
            for s, vs in res:
                if s.flow is not None:
                    nxt.append((s, vs)); continue
                if n.kind == 'CXXDefaultArgExpr':
                    nxt.append((s, vs + [('dflt', n)])); continue
                g = self.lv if modes[i] == 'l' else self.ev
                for s2, v in self.lv_keep(g(s, n)):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def lv_keep(self, r):
        return r

    def param_default(self, st, p, node):
        ini = [c for c in p.inner if c.kind and 'Comment' not in c.kind and not c.kind.endswith('Attr')]
        if not ini:
            # the default argument is written on the declaration: look through redeclarations
            raise Unsupported('default argument of %s' % p.name, node)
        r = self.rv(st, ini[0])
        if len(r) != 1:
            raise Unsupported('default argument', node)
        return r[0][1]

    def call_ctor_vals(self, st, cls, ctor, vals, n):
        t = ('cls', cls)
        self.T.fields(cls)
        p = self.blank(t)
        if self.T.has_tag(cls):
            p['__tag'] = num(self.T.tag(cls))
        this = self.newvar(st, t, p, 'obj')
        return self.each(self.init_object(st, cls, ctor, vals, this, n), lambda s, _: [(s, self.load(s, this))])

    def init_object(self, st, cls, ctor, vals, this, n):
        """Run a constructor on the object at `this`; result list of (state, None)."""
        key = 'ctor:' + cls
        if key in self.contracts and not self.silent_contract(key):
            return self.contracts[key](self, st, this, vals, n)
        body = self.prog.body(ctor) if ctor is not None else None
        inits = [c for c in ctor.inner if c.kind == 'CXXCtorInitializer'] if ctor is not None else []
        fname = cls + '::' + cls.split('::')[-1]
        if len(self.fnstack) > self.MAXDEPTH:
            raise Unsupported('call depth', n)
        saved = st.env
        env = {'this': this}
        st.env = env
        self.fnstack.append(fname)
        if ctor is not None and not ctor.get('isImplicit'):
            self.functions.add(fname)
        if ctor is not None:
            ps = [q for q in ctor.inner if q.kind == 'ParmVarDecl']
            self.bind_params(st, ps, vals, n)
        states = [st]
        if ctor is None or not inits:
            states = self.default_members(states, cls, this, n)
        for ini in inits:
            nxt = []
            for s in states:
                if s.flow is not None:
                    nxt.append(s); continue
                nxt.extend(self.run_init(s, cls, ini, this, n))
            states = nxt
        if body is not None:
            nxt = []
            for s in states:
                if s.flow is not None:
                    nxt.append(s)
                else:
                    nxt.extend(self.ex(s, body))
            states = nxt
        out = []
        for s in states:
            s.env = saved
            if s.flow is not None and s.flow[0] == 'ret':
                s.flow = None
                s.ret = None
            out.append((s, None))
        self.fnstack.pop()
        return out

    def default_members(self, states, cls, this, n):
        out = []
        for s in states:
            cur = [s]
            for key, ft, fd in self.T.own_fields(cls):
                nxt = []
                for c in cur:
                    ini = [x for x in fd.inner if x.kind and 'Comment' not in x.kind and not x.kind.endswith('Attr')]
                    if ini:
                        for c2, v in self.rv(c, ini[0]):
                            if c2.flow is None:
                                self.store(c2, this.f(key, ft), self.conv(c2, v, ft))
                            nxt.append(c2)
                    elif ft[0] in ('vec', 'map', 'mmap', 'str', 'struct', 'fun') or (ft[0] == 'ptr' and '*' not in (fd.qtype or '')):
                        self.store(c, this.f(key, ft), self.default(ft))
                        nxt.append(c)
                    elif ft[0] == 'cls':
                        for c2, v in self.construct_vals(c, ft[1], [], n):
                            if c2.flow is None:
                                self.store(c2, this.f(key, ft), v)
                            nxt.append(c2)
                    else:
                        nxt.append(c)
                cur = nxt
            out.extend(cur)
        return out

    def run_init(self, s, cls, ini, this, n):
        ai = ini.get('anyInit')
        x = ini.inner[0] if ini.inner else None
        if ai is not None:
            fid = ai['id']
            key = self.T.field_key.get(fid, ai.get('name'))
            fs = self.T.fields(cls)
            ft, fd = fs[key]
            if x is None:
                return [s]
            if x.kind == 'CXXDefaultInitExpr':
                x = [c for c in fd.inner if c.kind and 'Comment' not in c.kind and not c.kind.endswith('Attr')][0]
            if '&' in (fd.qtype or ''):
                # reference members: keep the referent by value when it is a closure, otherwise unsupported
                pass
            if ft[0] == 'opq':
                try:
                    return [a for a, _ in self.ev(s, x)]
                except Unsupported:
                    return [s]
            out = []
            for s2, v in self.rv(s, x):
                if s2.flow is None:
                    self.store(s2, this.f(key, ft), self.conv(s2, v, ft))
                out.append(s2)
            return out
        bi = ini.get('baseInit')
        if bi is not None and x is not None:
            b = x
            while b.kind in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                b = b.inner[0]
            if b.kind == 'CXXConstructExpr':
                t = self.T.parse(b.type)
                if t[0] == 'cls':
                    ctor = self.find_ctor(t[1], (b.get('ctorType') or {}).get('qualType') or '', b.inner)
                    if ctor in (None, 'copy'):
                        return [s]
                    ps = [p for p in ctor.inner if p.kind == 'ParmVarDecl']
                    r = self.with_args(s, ps, b.inner, lambda s2, vs: self.init_object(s2, t[1], ctor, vs, this, n))
                    return [a for a, _ in r]
            if b.kind == 'CXXInheritedCtorInitExpr':
                raise Unsupported('inherited constructor', n)
        if ini.get('delegatingInit') is not None:
            b = x
            while b.kind in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                b = b.inner[0]
            t = self.T.parse(b.type)
            ctor = self.find_ctor(t[1], (b.get('ctorType') or {}).get('qualType') or '', b.inner)
            ps = [p for p in ctor.inner if p.kind == 'ParmVarDecl']
            r = self.with_args(s, ps, b.inner, lambda s2, vs: self.init_object(s2, t[1], ctor, vs, this, n))
            return [a for a, _ in r]
        return [s]

    def silent_contract(self, key):
        return False

    def e_CXXNewExpr(self, st, n):
        ce = [c for c in n.inner if c.kind in ('CXXConstructExpr', 'InitListExpr', 'ExprWithCleanups')]
        t = self.T.parse(n.type)
        if not ce:
            raise Unsupported('new', n)
        def f(s, v):
            v = self.load(s, v)
            return [(s, self.alloc(s, v.t, v.p))]
        return self.each(self.rv(st, ce[0]), f)

    # -- lambdas
    def e_LambdaExpr(self, st, n):
        rec = n.inner[0]
        op = None
        for m in rec.inner:
            if m.kind == 'CXXMethodDecl' and m.name == 'operator()':
                op = m
            if m.kind == 'FunctionTemplateDecl' and m.name == 'operator()':
                for x in m.inner:
                    if x.kind == 'CXXMethodDecl' and self.prog.body(x) is not None and any(c.kind == 'TemplateArgument' for c in x.inner):
                        op = op or x
                if op is None:
                    for x in m.inner:
                        if x.kind == 'CXXMethodDecl':
                            op = x
        fields = [c for c in rec.inner if c.kind == 'FieldDecl']
        inits = [c for c in n.inner[1:] if c.kind and c.kind != 'CompoundStmt']
        env = dict(st.env)
        if op is not None and self.prog.body(op) is None:
            raise Unsupported('lambda without an instantiated body', n)
        st2 = st
        for fd, ini in zip(fields, inits):
            x = ini
            while x.kind in ('ImplicitCastExpr', 'CXXConstructExpr', 'ExprWithCleanups', 'ParenListExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr') and x.inner:
                x = x.inner[0]
            if x.kind == 'CXXThisExpr':
                continue
            if '&' in (fd.qtype or ''):
                continue
            if x.kind == 'DeclRefExpr':
                did = x.get('referencedDecl')['id']
                if did in st.env:
                    cur = st.env[did]
                    v = self.load(st2, cur)
                    env[did] = self.newvar(st2, v.t, v.p, 'cap')
                continue
        return [(st2, Val(FUN, Closure(op, env)))]

    def call_closure(self, st, c, vals, n):
        if c.py is not None:
            return c.py(self, st, vals, n)
        saved = st.env
        ps = [p for p in c.node.inner if p.kind == 'ParmVarDecl']
        st.env = dict(c.env)
        # variables captured by reference live in the enclosing frame
        self.bind_params(st, ps, vals, n)
        if len(self.fnstack) > self.MAXDEPTH:
            raise Unsupported('call depth', n)
        self.fnstack.append((self.fnstack[-1] if self.fnstack else '') .split('::<lambda')[0] + '::<lambda:%s>' % c.node.line)
        out = []
        for s in self.ex(st, self.prog.body(c.node)):
            s.env = saved
            out.append(self.finish(s, self.ret_type(c.node)))
        self.fnstack.pop()
        return out

    def ret_type(self, f):
        q = f.qtype or ''
        i = q.find('(')
        # 'T (args) const' or 'auto (args) -> T'
        if '->' in q:
            return self.T.parse(q.split('->')[-1].strip()) if 'const' not in q.split('->')[-1] else None
        r = q[:i].strip()
        if r in ('auto', 'decltype(auto)', ''):
            return None
        return self.T.parse(r)

    def finish(self, s, rt=None):
        if s.flow is not None and s.flow[0] == 'ret':
            s.flow = None
            v = s.ret
            s.ret = None
            return (s, v if v is not None else Val(VOID, num(0)))
        if s.flow is None:
            return (s, Val(VOID, num(0)))
        if s.flow[0] == 'exc':
            return (s, None)
        raise Unsupported('stray %s' % (s.flow,))

    def bind_params(self, st, ps, vals, n):
        env = dict(st.env)
        for i, p in enumerate(ps):
            if i >= len(vals):
                v = self.param_default(st, p, n)
            else:
                v = vals[i]
            q = (p.qtype or '').rstrip()
            if isinstance(v, tuple):
                if v[0] == 'dflt':
                    v = self.param_default(st, p, n)
                elif v[0] == 'addr' or v[0] == 'this':
                    env[p.id] = v
                    continue
                else:
                    env[p.id] = v
                    continue
            if q.endswith('&'):
                if isinstance(v, Val):
                    v = self.newvar(st, v.t, self.conv(st, v, self.T.parse(p.type)).p, p.name or 'p')
                env[p.id] = v
            else:
                v = self.load(st, v)
                v = self.conv(st, v, self.T.parse(p.type))
                env[p.id] = self.newvar(st, v.t, v.p, p.name or 'p')
        st.env = env

    # -- calls
    def callee(self, n):
        x = n.inner[0]
        while x.kind in ('ImplicitCastExpr', 'ParenExpr') and x.inner:
            x = x.inner[0]
        return x

    def e_CallExpr(self, st, n):
        c = self.callee(n)
        args = n.inner[1:]
        if c.kind == 'DeclRefExpr':
            rd = c.get('referencedDecl')
            if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                d = self.prog.def_of.get(rd['id']) or self.find_def(rd)
                if d is not None or ('fn:' + rd['name']) in self.contracts and rd['id'] in self.prog.by_id:
                    return self.call_function(st, d or self.prog.by_id[rd['id']], None, args, n)
                return self.lib.call(st, rd, args, n)
        def f(s, v):
            if isinstance(v, (LV, Val)):
                v = self.load(s, v)
                if isinstance(v.p, Closure) or v.t == FUN:
                    return self.each(self.ev_list(s, args, ['x'] * len(args)), lambda s2, vs: self.invoke(s2, v, vs, n))
            raise Unsupported('call of %s' % c.kind, n)
        return self.each(self.ev(st, n.inner[0]), f)

    def find_def(self, rd):
        d = self.prog.by_id.get(rd['id'])
        if d is None:
            return None
        q = d.get('_qual')
        for x in self.prog.find(q) if q else []:
            if x.qtype == d.qtype:
                return x
        return None

    def invoke(self, st, v, vals, n):
        """Call a std::function / closure value."""
        if isinstance(v.p, Closure):
            return self.call_closure(st, v.p, vals, n)
        out = []
        s0 = st
        fid = v.p
        if z3.is_int_value(fid):
            k = fid.as_long()
            if k in self.closures:
                return self.call_closure(st, self.closures[k], vals, n)
        cand = sorted(self.closures)
        rest = st
        for k in cand:
            r = self.branch(rest, fid == k)
            nxt = None
            for s, yes in r:
                if yes:
                    out.extend(self.call_closure(s, self.closures[k], vals, n))
                else:
                    nxt = s
            if nxt is None:
                return out
            rest = nxt
        # an empty std::function
        self.throw(rest, 'std::bad_function_call')
        out.append((rest, None))
        return out

    def throw(self, st, ty, n=None):
        st.flow = ('exc', ty)

    def e_CXXMemberCallExpr(self, st, n):
        m = n.inner[0]
        while m.kind == 'ParenExpr':
            m = m.inner[0]
        args = n.inner[1:]
        if m.kind != 'MemberExpr':
            raise Unsupported('member call through %s' % m.kind, n)
        mid = m.get('referencedMemberDecl')
        name = m.name
        def f(s, b):
            if isinstance(b, tuple) and b[0] in ('this', 'addr'):
                o = b[1]
                if o is None:
                    raise Unsupported('this', n)
                if not isinstance(o, (LV, Val)):
                    raise Unsupported('object', n)
                md = self.prog.by_id.get(mid)
                if md is not None and md.kind != 'FieldDecl':
                    return self.method(s, md, o, args, n, virtual=True)
                return self.lib.method(s, o, name, args, n)
            v = None
            if m.get('isArrow'):
                pv = self.load(s, b)
                if isinstance(pv.p, IterV):
                    o = self.lib.iter_deref(s, pv.p, n)
                elif pv.t[0] == 'opq' or (pv.t[0] == 'ptr' and pv.t[1][0] == 'opq'):
                    return self.lib.method(s, pv, name, args, n)
                else:
                    o = self.deref(s, pv, n)
            else:
                o = b
            md = self.prog.by_id.get(mid)
            if md is not None and md.kind in ('CXXMethodDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
                return self.method(s, md, o, args, n)
            return self.lib.method(s, o, name, args, n)
        return self.each(self.ev(st, m.inner[0]), f)

    def method(self, st, md, o, args, n, virtual=True):
        """Call of a repository method on object o."""
        if isinstance(o, Val):
            o = self.newvar(st, o.t, o.p, 'tmpobj')
        cls = md.get('_cls') or (o.t[1] if o.t[0] == 'cls' else '')
        name = md.name
        if o.t == ('opq', 'exception'):
            return self.each(self.ev_list(st, args, ['x'] * len(args)), lambda s, vs: self.lib.opaque_result(s, n))
        # contracts by static class (or any base that declares it)
        for c in [cls] + self.base_chain(o.t[1] if o.t[0] == 'cls' else cls):
            if ('%s::%s' % (c, name)) in self.contracts:
                return self.call_function(st, md, o, args, n, key='%s::%s' % (c, name))
        if md.get('virtual') or self.overrides(md):
            return self.virtual_call(st, md, o, args, n)
        d = self.prog.def_of.get(md.id) or self.find_def({'id': md.id})
        if d is None:
            d = self.find_method_def(cls, md)
        if d is None:
            if md.get('isImplicit') and name == 'operator=':
                return self.each(self.rv(st, args[0]), lambda s, v: (self.store(s, o, v), [(s, o)])[1])
            raise Unsupported('no body for %s::%s' % (cls, name), n)
        return self.call_function(st, d, o, args, n)

    def base_chain(self, c):
        out = []
        while c:
            out.append(c)
            b = self.T.bases.get(c)
            c = b[0] if b else None
        return out

    def overrides(self, md):
        return any(c.kind == 'OverrideAttr' for c in md.inner)

    def find_method_def(self, cls, md):
        for x in self.prog.find('%s::%s' % (cls, md.name)):
            if (x.qtype or '') == (md.qtype or ''):
                return x
        c = self.prog.find('%s::%s' % (cls, md.name))
        return c[0] if len(c) == 1 else None

    def lookup_virtual(self, cls, md):
        """Final overrider of md in class cls."""
        sig = re.sub(r'\s*noexcept.*', '', md.qtype or '')
        for c in self.base_chain(cls):
            node = self.prog.classes.get(c)
            if node is None:
                continue
            for m in node.inner:
                if m.kind == md.kind and m.name == md.name and len([p for p in m.inner if p.kind == 'ParmVarDecl']) == len([p for p in md.inner if p.kind == 'ParmVarDecl']):
                    if (m.qtype or '') == (md.qtype or '') or True:
                        d = self.prog.def_of.get(m.id) or self.find_method_def(c, m)
                        return d if d is not None else m
        return None

    def virtual_call(self, st, md, o, args, n):
        cls = o.t[1]
        impls = {}
        for c in self.T.subclasses(cls):
            d = self.lookup_virtual(c, md)
            if d is not None and self.prog.body(d) is not None:
                impls[c] = d
        if not self.T.has_tag(cls) or len(set(id(x) for x in impls.values())) == 1:
            d = list(impls.values())[0] if impls else None
            if d is None:
                raise Unsupported('virtual %s has no implementation here' % md.name, n)
            return self.call_function(st, d, o, args, n)
        tag = self.load(st, o.f('__tag', I32)).p
        out = []
        rest = st
        for c, d in impls.items():
            if rest is None:
                break
            nxt = None
            for s, yes in self.branch(rest, tag == self.T.tag(c)):
                if yes:
                    out.extend(self.call_function(s, d, LV(o.root, o.path, ('cls', c)), args, n))
                else:
                    nxt = s
            rest = nxt
        if rest is not None:
            # no other dynamic type exists
            self.assumptions.add('objects of a polymorphic repository class have one of the dynamic types defined in the repository')
        return out

    def call_function(self, st, d, this, args, n, key=None):
        q = key or d.get('_qual') or d.name
        ps = [p for p in d.inner if p.kind == 'ParmVarDecl']
        if any(a.kind == 'CXXDefaultArgExpr' for a in args):
            ps = self.params_with_defaults(d, ps)
        return self.with_args(st, ps, args, lambda s, vs: self.call_vals(s, d, this, vs, n, key, ps))

    def params_with_defaults(self, d, ps):
        if all(p.get('init') for p in ps if True) or True:
            # defaults are on the first declaration
            x = d
            seen = set()
            while x is not None and x.id not in seen:
                seen.add(x.id)
                q = [p for p in x.inner if p.kind == 'ParmVarDecl']
                if any(p.get('init') for p in q):
                    return q
                x = self.prog.by_id.get(x.get('previousDecl')) if x.get('previousDecl') else None
        return ps

    def call_vals(self, st, d, this, vals, n, key=None, ps=None):
        q = key or d.get('_qual') or d.name
        ck = q if q in self.contracts else ('fn:' + d.name if 'fn:' + (d.name or '') in self.contracts and this is None else None)
        if ck is not None:
            return self.contracts[ck](self, st, this, vals, n)
        body = self.prog.body(d)
        if body is None:
            d2 = self.prog.def_of.get(d.id) or self.find_def({'id': d.id})
            if d2 is None:
                raise Unsupported('no body for %s' % q, n)
            d = d2
            body = self.prog.body(d)
        if len(self.fnstack) > self.MAXDEPTH or self.fnstack.count(q) > 3:
            raise Unsupported('recursion in %s' % q, n)
        self.functions.add(q)
        saved = st.env
        live = set(st.vars)
        st.env = {'this': this}
        self.bind_params(st, [p for p in d.inner if p.kind == 'ParmVarDecl'], vals, n)
        self.fnstack.append(q)
        states = self.ex(st, body)
        for s in states:
            s.env = saved
        rt = self.ret_type(d)
        isref = (d.qtype or '').split('(')[0].rstrip().endswith('&')
        out = []
        for s in self.merge(states, live):
            s2, v = self.finish(s)
            if s2.flow is None and not isref and isinstance(v, LV):
                v = self.load(s2, v)
            if s2.flow is None and isinstance(v, Val) and rt is not None and not isref:
                v = self.conv(s2, v, rt)
            out.append((s2, v))
        self.fnstack.pop()
        return out

    def e_CXXOperatorCallExpr(self, st, n):
        c = self.callee(n)
        rd = c.get('referencedDecl') or {}
        name = rd.get('name') or c.name
        args = n.inner[1:]
        op = name[len('operator'):].strip()
        d = self.prog.by_id.get(rd.get('id'))
        if d is not None and d.kind == 'CXXMethodDecl' and not self.is_lambda_op(d):
            dd = self.prog.def_of.get(d.id)
            if dd is not None or not d.get('isImplicit'):
                if not (d.get('explicitlyDefaulted')):
                    return self.each(self.lv(st, args[0]), lambda s, o: self.method(s, d, o, args[1:], n))
            if op == '=':
                def fa(s, v):
                    def g(s2, l):
                        self.store(s2, l, v)
                        return [(s2, l)]
                    return self.each(self.lv(s, args[0]), g)
                return self.each(self.rv(st, args[1]), fa)
        if d is not None and d.kind == 'FunctionDecl' and (self.prog.def_of.get(d.id) or self.find_def(rd)):
            return self.call_function(st, self.prog.def_of.get(d.id) or self.find_def(rd), None, args, n)
        return self.lib.operator(st, op, args, n)

    def is_lambda_op(self, d):
        return d.name == 'operator()' and d.parent is not None and d.parent.kind in ('CXXRecordDecl', 'FunctionTemplateDecl') and not (d.parent.name)

    def e_ArraySubscriptExpr(self, st, n):
        def f(s, vs):
            b, i = vs
            iv = self.load(s, i)
            bb = self.load(s, b) if not isinstance(b, tuple) else None
            if isinstance(b, tuple):
                raise Unsupported('array', n)
            if bb.t[0] == 'vec':
                self.oblige(s, z3.And(iv.p >= 0, iv.p < bb.p['len']), 'array index in range', ('C13',), n, 'safety')
                return [(s, b.i(iv.p, bb.t[1]) if isinstance(b, LV) else Val(bb.t[1], sel(bb.p['arr'], iv.p)))]
            if bb.t == STR:
                return [(s, Val(CHAR, schr(bb.p, iv.p)))]
            raise Unsupported('subscript of %r' % (bb.t,), n)
        return self.each(self.ev_list(st, n.inner, ['x', 'v']), f)

    def e_CXXThrowExpr(self, st, n):
        if not n.inner:
            self.throw(st, (st.note and st.note[-1]) or 'rethrow')
            return [(st, None)]
        x = n.inner[0]
        ty = strip_cv(x.type or '')
        try:
            rs = self.ev(st, x)
        except Unsupported:
            rs = [(st, None)]
        out = []
        for s, v in rs:
            if s.flow is None:
                self.throw(s, ty)
            out.append((s, None))
        return out

    def e_CXXDeleteExpr(self, st, n):
        return self.each(self.ev(st, n.inner[0]), lambda s, v: [(s, Val(VOID, num(0)))])

    def e_CXXRewrittenBinaryOperator(self, st, n):
        return self.ev(st, n.inner[0])

    # ------------------------------------------------------------------ statements
    def ex(self, st, n):
        """Execute a statement: list of states."""
        if n.kind is None:
            return [st]
        m = getattr(self, 's_' + n.kind, None)
        if m is not None:
            return m(st, n)
        return [s for s, _ in self.ev(st, n)]

    def seq(self, states, nodes):
        for n in nodes:
            nxt = []
            for s in states:
                if s.flow is not None:
                    nxt.append(s)
                else:
                    nxt.extend(self.ex(s, n))
            states = self.merge(nxt)
            if len(states) > 600:
                raise Unsupported('too many paths', n)
        return states

    def merge(self, states, live=None):
        """Join states that differ only in their path conditions (and in variables that are dead)."""
        if len(states) < 2:
            return states
        if live is None:
            live = set(states[0].vars)
            for s in states[1:]:
                live &= set(s.vars)
        groups = {}
        order = []
        for s in states:
            key = (s.flow, tuple(sorted(((k if isinstance(k, str) else str(k)), id(v) if not isinstance(v, z3.ExprRef) else v.get_id()) for k, v in s.vars.items() if k in live)),
                   tuple(sorted((str(k), id(v)) for k, v in s.heap.items())), id(s.env), None if s.ret is None else self.vkey(s.ret),
                   None if s.log is None else len(s.log))
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(s)
        out = []
        for k in order:
            g = groups[k]
            while len(g) > 1:
                a = g.pop()
                b = g.pop()
                g.append(self.join(a, b))
            out.append(g[0])
        if self.phi and len(out) > 1:
            out = self.phi_merge(out)
        return out

    def phi_merge(self, states):
        """Join states of exclusive path conditions into one with conditional values (only where every difference is a term)."""
        out = []
        for s in states:
            for i, o in enumerate(out):
                j = self.phi_join(o, s)
                if j is not None:
                    out[i] = j
                    break
            else:
                out.append(s)
        return out

    def phi_join(self, a, b):
        if a.flow != b.flow or a.log is not None or b.log is not None or (a.flow is None and a.env is not b.env) or (a.flow is not None and a.flow[0] != 'exc'):
            return None
        if (a.ret is None) != (b.ret is None) or (a.ret is not None and self.vkey(a.ret) != self.vkey(b.ret)) or a.note != b.note:
            return None
        k = 0
        m = min(len(a.pc), len(b.pc))
        while k < m and a.pc[k].eq(b.pc[k]):
            k += 1
        c = pand(a.pc[k:])
        def jp(x, y):
            if x is y:
                return x
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.sort() == y.sort():
                return x if x.eq(y) else z3.If(c, x, y)
            if isinstance(x, dict) and isinstance(y, dict) and set(x) == set(y):
                return {q: jp(x[q], y[q]) for q in x}
            raise KeyError
        try:
            vs = {q: jp(a.vars[q], b.vars[q]) for q in a.vars if q in b.vars}
            if set(a.heap) != set(b.heap):
                return None
            hp = {q: jp(a.heap[q], b.heap[q]) for q in a.heap}
        except KeyError:
            return None
        s = self.join(a, b)
        s.vars, s.heap = vs, hp
        return s

    def vkey(self, v):
        if isinstance(v, LV):
            return ('lv',) + v.key()
        if isinstance(v, Val) and isinstance(v.p, z3.ExprRef):
            return ('v', v.t, v.p.get_id())
        return ('o', id(v))

    def join(self, a, b):
        k = 0
        m = min(len(a.pc), len(b.pc))
        while k < m and a.pc[k].eq(b.pc[k]):
            k += 1
        ra, rb = a.pc[k:], b.pc[k:]
        ids = {x.get_id() for x in rb}
        common = [x for x in ra if x.get_id() in ids]
        cid = {x.get_id() for x in common}
        ra = [x for x in ra if x.get_id() not in cid]
        rb = [x for x in rb if x.get_id() not in cid]
        s = a.copy()
        s.pc = a.pc[:k] + common
        d = simp(z3.Or(pand(ra), pand(rb)))
        if not z3.is_true(d):
            s.pc.append(d)
        return s

    def s_CompoundStmt(self, st, n):
        env = st.env
        out = self.seq([st], n.inner)
        for s in out:
            if s.env is not env and s.flow is None:
                s.env = self.trim(s.env, env)
        return self.merge(out)

    def trim(self, e, env):
        return env if all(k in e and e[k] is env[k] for k in env) else {k: e.get(k, env[k]) for k in env}

    def s_NullStmt(self, st, n):
        return [st]

    def s_AttributedStmt(self, st, n):
        return self.ex(st, n.inner[-1])

    def s_DeclStmt(self, st, n):
        states = [st]
        for d in n.inner:
            nxt = []
            for s in states:
                if s.flow is not None:
                    nxt.append(s); continue
                nxt.extend(self.decl(s, d))
            states = nxt
        return states

    def decl(self, st, d):
        if d.kind in ('UsingDecl', 'UsingDirectiveDecl', 'TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'UsingShadowDecl', 'EmptyDecl', 'EnumDecl'):
            return [st]
        if d.kind not in ('VarDecl', 'DecompositionDecl'):
            raise Unsupported('declaration %s' % d.kind, d)
        ini = [c for c in d.inner if c.kind and 'Comment' not in c.kind and not c.kind.endswith('Attr') and c.kind != 'BindingDecl']
        q = (d.qtype or '').rstrip()
        t = self.T.parse(d.type)
        static = d.get('storageClass') == 'static'
        if not ini:
            if d.kind == 'VarDecl':
                if t[0] == 'cls' and not q.endswith('*'):
                    raise Unsupported('uninitialised object', d)
                if t[0] in ('vec', 'map', 'mmap', 'str') :
                    p = self.default(t)
                else:
                    p = self.blank(t)
                st.bind(d.id, self.newvar(st, t, p, d.name or 'v'))
                return [st]
        x = ini[0]
        if static and 'const' not in q and not d.get('constexpr'):
            st.bind(d.id, self.newvar(st, t, self.blank(t), d.name))
            self.assumptions.add('mutable static local %s: any value at each entry' % d.name)
            return [st]
        out = []
        isref = q.endswith('&')
        for s, v in self.ev(st, x):
            if s.flow is not None:
                out.append(s); continue
            if isinstance(v, tuple):
                s.bind(d.id, v)
                out.append(s)
                continue
            if isref:
                if isinstance(v, Val):
                    v = self.newvar(s, v.t, v.p, d.name or 'ref')
            else:
                v = self.load(s, v)
                v = self.conv(s, v, t if t[0] != 'opq' else None)
                v = self.newvar(s, v.t, v.p, d.name or 'v')
            if d.kind == 'DecompositionDecl':
                self.bind_parts(s, d, v)
            else:
                s.bind(d.id, v)
            out.append(s)
        return out

    def bind_parts(self, s, d, v):
        bs = [c for c in d.inner if c.kind == 'BindingDecl']
        t = v.t
        if t[0] == 'struct':
            fs = list(t[1])
        elif t[0] == 'cls':
            fs = [(k, ft) for k, ft, _ in self.T.own_fields(t[1])]
        else:
            raise Unsupported('structured binding of %r' % (t,), d)
        for b, (k, ft) in zip(bs, fs):
            s.bind(b.id, v.f(k, ft))
            # tuple-like bindings are accessed through a holding variable
            for x in b.walk():
                if x.kind == 'VarDecl':
                    s.bind(x.id, v.f(k, ft))

    def cond(self, st, n):
        """Evaluate a condition: [(state, bool)] of feasible outcomes (or state with flow)."""
        out = []
        for s, v in self.rv(st, n):
            if s.flow is not None:
                out.append((s, None))
                continue
            out.extend(self.branch(s, self.conv(s, v, BOOL).p))
        return out

    def s_IfStmt(self, st, n):
        inner = list(n.inner)
        env = st.env
        states = [st]
        if n.get('isConstexpr'):
            raise Unsupported('if constexpr', n)
        if n.get('hasInit'):
            states = self.seq(states, [inner.pop(0)])
        if n.get('hasVar'):
            states = self.seq(states, [inner.pop(0)])
        c = inner[0]
        then = inner[1]
        els = inner[2] if n.get('hasElse') else None
        out = []
        for s0 in states:
            if s0.flow is not None:
                out.append(s0); continue
            for s, b in self.cond(s0, c):
                if s.flow is not None:
                    out.append(s)
                elif b:
                    out.extend(self.ex(s, then))
                elif els is not None:
                    out.extend(self.ex(s, els))
                else:
                    out.append(s)
        for s in out:
            if s.flow is None and s.env is not env:
                s.env = self.trim(s.env, env)
        return self.merge(out)

    def s_ReturnStmt(self, st, n):
        if not n.inner:
            st.flow = ('ret',)
            st.ret = None
            return [st]
        out = []
        for s, v in self.ev(st, n.inner[0]):
            if s.flow is None:
                s.flow = ('ret',)
                if isinstance(v, Val) and v.t == VOID:
                    v = None
                elif isinstance(v, LV):
                    # keep the lvalue (references) but snapshot by value when it is a local
                    if v.root[0] == 'var' and not v.path and not isinstance(self.load(s, v).p, IterV) and False:
                        v = self.load(s, v)
                s.ret = v
            out.append(s)
        return out

    def s_BreakStmt(self, st, n):
        st.flow = ('brk',)
        return [st]

    def s_ContinueStmt(self, st, n):
        st.flow = ('cont',)
        return [st]

    def s_CXXTryStmt(self, st, n):
        body = n.inner[0]
        env = st.env
        out = []
        for s in self.ex(st, body):
            if s.flow is None or s.flow[0] != 'exc':
                out.append(s)
                continue
            ty = s.flow[1]
            handled = False
            for h in n.inner[1:]:
                var = h.inner[0] if h.inner and h.inner[0].kind == 'VarDecl' else None
                if var is not None and not self.catches(var, ty):
                    continue
                s.flow = None
                s.env = env
                s.note = s.note + (ty,)
                if var is not None:
                    s.bind(var.id, self.newvar(s, ('opq', 'exception'), fresh_const(Int, 'exc')))
                blk = h.inner[-1]
                for s2 in self.ex(s, blk):
                    s2.note = s2.note[:-1]
                    out.append(s2)
                handled = True
                break
            if not handled:
                out.append(s)
        return self.merge(out)

    EXC = {'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error',
           'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::bad_function_call': 'std::exception',
           'std::bad_alloc': 'std::exception', 'zmq::error_t': 'std::exception', 'YAML::Exception': 'std::runtime_error',
           'std::system_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::range_error': 'std::runtime_error'}

    def catches(self, var, ty):
        q = re.sub(r'^vrf_repo::', '', strip_cv(var.qtype or ''))
        q = re.sub(r'^vrf_repo::', '', strip_cv(var.type or q))
        t = re.sub(r'^vrf_repo::', '', strip_cv(ty))
        for _ in range(8):
            if t == q or t.split('::')[-1] == q.split('::')[-1]:
                return True
            if t in self.EXC:
                t = self.EXC[t]
                continue
            c = self.prog.classes.get(t)
            if c is not None:
                bs = c.get('bases') or []
                if bs:
                    bt = bs[0]['type']
                    t = re.sub(r'^vrf_repo::', '', strip_cv(bt.get('desugaredQualType') or bt.get('qualType')))
                    continue
            return False
        return False

    def s_SwitchStmt(self, st, n):
        inner = list(n.inner)
        states = [st]
        if n.get('hasInit') or n.get('hasVar'):
            states = self.seq(states, [inner.pop(0)])
        c, body = inner[0], inner[-1]
        stmts = body.inner if body.kind == 'CompoundStmt' else [body]
        # flatten case labels
        prog_ = []
        def add(x):
            if x.kind == 'CaseStmt':
                prog_.append(('case', x.inner[0]))
                add(x.inner[-1])
            elif x.kind == 'DefaultStmt':
                prog_.append(('default', None))
                add(x.inner[-1])
            else:
                prog_.append(('stmt', x))
        for x in stmts:
            add(x)
        out = []
        for s0 in states:
            for s, v in self.rv(s0, c):
                if s.flow is not None:
                    out.append(s); continue
                rest = s
                starts = []
                for i, (k, x) in enumerate(prog_):
                    if k != 'case' or rest is None:
                        continue
                    cv = self.rv(rest, x)
                    rest, cval = cv[0]
                    nxt = None
                    for s2, yes in self.branch(rest, self.intp(rest, v) == self.intp(rest, cval)):
                        if yes:
                            starts.append((s2, i))
                        else:
                            nxt = s2
                    rest = nxt
                if rest is not None:
                    di = [i for i, (k, _) in enumerate(prog_) if k == 'default']
                    if di:
                        starts.append((rest, di[0]))
                    else:
                        out.append(rest)
                for s2, i in starts:
                    res = self.seq([s2], [x for k, x in prog_[i:] if k == 'stmt'])
                    for r in res:
                        if r.flow == ('brk',):
                            r.flow = None
                        out.append(r)
        return self.merge(out)

    def s_WhileStmt(self, st, n):
        inner = list(n.inner)
        var = inner.pop(0) if n.get('hasVar') else None
        c, body = inner[0], inner[1]
        import loops
        return loops.run(self, st, n, None, (var, c), None, body)

    def s_DoStmt(self, st, n):
        body, c = n.inner[0], n.inner[1]
        import loops
        return loops.run(self, st, n, None, (None, c), None, body, post=True)

    def s_ForStmt(self, st, n):
        init, var, c, inc, body = n.inner
        env = st.env
        import loops
        states = self.ex(st, init)
        out = []
        for s in states:
            if s.flow is not None:
                out.append(s)
            else:
                out.extend(loops.run(self, s, n, None, (var if var.kind else None, c if c.kind else None), inc if inc.kind else None, body))
        for s in out:
            if s.flow is None:
                s.env = self.trim(s.env, env)
        return out

    def s_CXXForRangeStmt(self, st, n):
        inner = [c for c in n.inner]
        # [init] range begin end cond inc loopvar body
        init, rng, beg, end, c, inc, lv, body = inner if len(inner) == 8 else ([None] + inner)
        env = st.env
        import loops
        states = [st]
        for d in (init, rng, beg, end):
            if d is None or d.kind is None:
                continue
            states = self.seq(states, [d])
        out = []
        for s in states:
            if s.flow is not None:
                out.append(s)
            else:
                out.extend(loops.run(self, s, n, lv, (None, c), inc, body))
        for s in out:
            if s.flow is None:
                s.env = self.trim(s.env, env)
        return out

    # ------------------------------------------------------------------ helpers for predicates
    def eval_bool(self, st, fn):
        """Value of a side-effect free boolean computation as one formula over st.

        fn(state) -> [(state, Val)].  Fresh constants created on the way are existentially closed.
        """
        base = len(st.pc)
        mark = fresh_mark()
        s0 = st.copy()
        s0.log = []
        self.silent += 1
        try:
            res = fn(s0)
        finally:
            self.silent -= 1
        yes, no = [], []
        for s, v in res:
            if s.flow is not None:
                raise Unsupported('predicate may throw')
            if s.log:
                for e in s.log:
                    lv = e[1]
                    if not (lv.root[0] == 'var' and lv.root[1] not in st.vars):
                        raise Unsupported('predicate with side effects')
            v = self.conv(s, self.load(s, v), BOOL).p
            pc = s.pc[base:]
            yes.append((pand(pc + [v]), s))
            no.append((pand(pc + [z3.Not(v)]), s))
        fy = simp(por([f for f, _ in yes]))
        fn_ = simp(por([f for f, _ in no]))
        fy = self.close(fy, mark)
        fn_ = self.close(fn_, mark)
        return fy, fn_

    def close(self, f, mark, keep=()):
        """Existentially quantify the fresh constants newer than mark."""
        cs = consts_newer(f, mark, keep)
        if not cs:
            return f
        if any(not (c.sort() in (Int, Bool, Str)) for c in cs):
            raise Unsupported('predicate depends on auxiliary state')
        return z3.Exists(cs, f)

def consts_newer(f, mark, keep=()):
    seen = set()
    out = []
    stack = [f]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if const_no(e) > mark and not any(e.eq(k) for k in keep):
                out.append(e)
        else:
            stack.extend(e.children())
    out.sort(key=const_no)
    return out
