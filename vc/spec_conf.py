"""Contract of broker_config (C17): every option of an arbitrary document, over an abstract YAML tree.

A node of the document has a type (undefined, null, scalar, sequence, map), children by key and, if it is a scalar, a text
that may or may not be a number.  yaml-cpp is trusted to behave like this:
  node[key]          the child of that key; throws on a scalar and on an invalid node
  IsX(), bool(node)  the type; IsX() throws on an invalid node (the result of a constant lookup of a missing key)
  as<T>()            the text / the number if the scalar is a number in the range of T; throws otherwise
"""
import z3
from core import *
import core
from engine import Engine, Val, LV, St, Obligation
import spec_worker

FILES = ['src/config/broker_config.cpp']
YN = ('opq', 'YAML::Node')
UNDEF, NUL, SCALAR, SEQ, MAP = range(5)
ntype = z3.Function('y_type', Int, Int)
child = z3.Function('y_child', Int, Str, Bool, Int)     # node, key, constant lookup
path = z3.Function('y_path', Int, Str, Int)             # the place in the document
canon = z3.Function('y_canon', Int, Int)
text = z3.Function('y_text', Int, Str)
isnum = z3.Function('y_isnum', Int, Bool)
ival = z3.Function('y_int', Int, Int)

OPTS = [('', 'queue_manager', 's', 'single', 'get_queue_manager', None), ('clients', 'address', 's', '*', 'get_client_address', None), ('clients', 'port', 'u16', 0, 'get_client_port', None),
        ('workers', 'address', 's', '*', 'get_worker_address', None), ('workers', 'port', 'u16', 0, 'get_worker_port', None), ('workers', 'max_liveness', 'u64', 4, 'get_max_worker_liveness', None),
        ('workers', 'max_request_failures', 'u64', 3, 'get_max_request_failures', None), ('workers', 'ping_interval', 'u64', 1000, 'get_worker_ping_interval', None),
        ('monitor', 'address', 's', '127.0.0.1', 'get_monitor_address', None), ('monitor', 'port', 'u16', 7894, 'get_monitor_port', None),
        ('notifier', 'address', 's', '', 'get_notifier_config', 'address'), ('notifier', 'port', 'u16', 0, 'get_notifier_config', 'port'),
        ('notifier', 'username', 's', '', 'get_notifier_config', 'username'), ('notifier', 'password', 's', '', 'get_notifier_config', 'password'),
        ('logger', 'level', 's', 'debug', 'get_log_config', 'log_level'), ('logger', 'max-size', 'u64', 1048576, 'get_log_config', 'log_file_size'), ('logger', 'rotations', 'u64', 3, 'get_log_config', 'log_files_count')]
FILEOPT = ('logger', 'file')
MAXV = {'u16': 2 ** 16 - 1, 'u64': 2 ** 64 - 1}

def place(root, sec, name):
    p = path(root, lit(sec)) if sec else root
    return path(p, lit(name))
def given(root, sec, name):
    """The option is given: a scalar at its place, inside of a section that is a map."""
    c = ntype(place(root, sec, name)) == SCALAR
    return z3.And(ntype(path(root, lit(sec))) == MAP, c) if sec else c
def fits(n, k):
    return z3.And(isnum(n), ival(n) >= 0, ival(n) <= MAXV[k])

def axioms():
    n, k, c = z3.Int('n'), z3.Const('k', Str), z3.Bool('c')
    return [z3.ForAll([n, k, c], canon(child(n, k, c)) == path(canon(n), k), patterns=[child(n, k, c)]),
            z3.ForAll([n], z3.And(ntype(n) >= 0, ntype(n) <= 4), patterns=[ntype(n)])]

class Yaml:
    def __init__(self, e):
        self.e = e
        e.axioms += axioms()
        c = e.contracts
        c['opq:[]'] = self.index
        for nm, ty in (('IsNull', NUL), ('IsScalar', SCALAR), ('IsSequence', SEQ), ('IsMap', MAP)):
            c['opq:YAML::Node::' + nm] = lambda e_, s, o, vs, n, ty=ty: self.guard(s, self.h(s, o), lambda s2, h: Val(BOOL, ntype(canon(h)) == ty))
        c['opq:YAML::Node::Type'] = lambda e_, s, o, vs, n: self.guard(s, self.h(s, o), lambda s2, h: Val(I32, ntype(canon(h))))
        c['opq:YAML::Node::IsDefined'] = lambda e_, s, o, vs, n: [(s, Val(BOOL, ntype(canon(self.h(s, o))) != UNDEF))]
        c['opq:YAML::Node::operator bool'] = c['opq:YAML::Node::IsDefined']
        c['opq:YAML::Node::operator!'] = lambda e_, s, o, vs, n: [(s, Val(BOOL, ntype(canon(self.h(s, o))) == UNDEF))]
        c['opq:YAML::Node::as'] = self.as_
        c['opq:YAML::Node::Scalar'] = lambda e_, s, o, vs, n: self.guard(s, self.h(s, o), lambda s2, h: Val(STR, z3.If(ntype(canon(h)) == SCALAR, text(canon(h)), lit(''))))

    def h(self, st, o):
        v = self.e.load(st, o)
        if not z3.is_expr(v.p):
            raise Unsupported('YAML node')
        return v.p
    def zombie(self, h):
        """Result of a constant lookup of a missing key."""
        if z3.is_app(h) and h.decl().eq(child):
            return z3.And(h.arg(2), ntype(canon(h)) == UNDEF)
        if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(h.arg(0), self.zombie(h.arg(1)), self.zombie(h.arg(2)))
        if z3.is_const(h):
            return z3.BoolVal(False) if str(h) == 'document' else z3.Bool('y_zombie!' + str(h))
        raise Unsupported('YAML node')
    def cond(self, st, c, f, exc):
        out = []
        for s, yes in self.e.branch(st, c):
            if yes:
                out.append((s, f(s)))
            else:
                self.e.throw(s, exc)
                out.append((s, None))
        return out
    def guard(self, st, h, f):
        return self.cond(st, z3.Not(self.zombie(h)), lambda s: f(s, h), 'YAML::Exception')

    def index(self, e, st, o, vals, n):
        h = self.h(st, o)
        k = e.to_str(st, e.load(st, vals[0]))
        const = True
        callee = n.inner[0]
        for d in callee.walk():
            if d.kind == 'DeclRefExpr':
                const = (d.qtype or d.type or '').rstrip().endswith('const')
        ok = z3.And(z3.Not(self.zombie(h)), ntype(canon(h)) != SCALAR)
        return self.cond(st, ok, lambda s: Val(YN, child(h, k, z3.BoolVal(const))), 'YAML::Exception')

    def as_(self, e, st, o, vals, n):
        h = self.h(st, o)
        p = canon(h)
        t = e.T.parse(n.type)
        if t == STR:
            ok, v = ntype(p) == SCALAR, text(p)
        elif t[0] == 'int' and e.T.parse(n.type) is not None:
            lo, hi = irange(t)
            ok, v = z3.And(ntype(p) == SCALAR, isnum(p), ival(p) >= lo, ival(p) <= hi), ival(p)
        else:
            raise Unsupported('as<%s>' % (n.type,), n)
        if len(vals) == 1:
            d = e.conv(st, e.load(st, vals[0]), t)
            return [(st, Val(t, z3.If(ok, v, d.p)))]
        return self.cond(st, z3.And(z3.Not(self.zombie(h)), ok), lambda s: Val(t, v), 'YAML::Exception')

def irange(t):
    from engine import Engine
    k = t[1]
    if isinstance(k, tuple):
        return k
    s = str(k)
    w = int(''.join(ch for ch in s if ch.isdigit()))
    if w == 8:
        raise Unsupported('conversion to a character')
    return (0, 2 ** w - 1) if s.startswith('u') else (-2 ** (w - 1), 2 ** (w - 1) - 1)

def verify(prog):
    e = Engine(prog, 'broker_config::broker_config')
    e.phi = True
    y = Yaml(e)
    st = spec_worker.base_state(e)
    root = z3.Int('document')
    e.axioms.append(canon(root) == root)
    big = [place(root, s, n) for s, n, k, *_ in OPTS if k == 'u64']
    for b in big:
        pass
    e.assumptions.add('yaml-cpp: lookup, type tests and conversions behave as described in vc/spec_conf.py')
    e.assumptions.add('a ping interval is less than 2^60 milliseconds')
    spec_worker.vac(e, st)
    cls = 'broker_config'
    c = None
    for m in e.all_methods(cls):
        if m.kind == 'CXXConstructorDecl' and not m.get('isImplicit'):
            ps = [p for p in m.inner if p.kind == 'ParmVarDecl']
            if len(ps) == 1 and 'Node' in (ps[0].qtype or ''):
                c = e.prog.def_of.get(m.id) or m
    if c is None:
        raise Unsupported('constructor of broker_config from YAML::Node')
    t = ('cls', cls)
    e.T.fields(cls)
    lv = LV(('heap', e.tkey(t), num(60)), (), t)
    p = e.blank(t)
    if e.T.has_tag(cls):
        p['__tag'] = num(e.T.tag(cls))
    e.store(st, lv, p)
    res = e.init_object(st, cls, c, [e.newvar(st, YN, root, 'config')], lv, None)
    notmap = ntype(root) != MAP
    bad = z3.Or(*[z3.And(given(root, s, n), z3.Not(fits(place(root, s, n), k))) for s, n, k, *_ in OPTS if k != 's'])
    n = 0
    for s, _ in res:
        if s.flow is not None:
            if s.flow[0] != 'exc':
                raise Unsupported('flow %r' % (s.flow,))
            ty = s.flow[1]
            if ty.split('::')[-1] != 'config_error':
                e.oblige(s, z3.BoolVal(False), 'no other exception (%s) than a configuration error leaves the loading of a configuration' % ty, ('C17',), c, 'safety')
            else:
                e.oblige(s, z3.Or(notmap, bad), 'only documents that are no map or have a scalar that cannot be converted are refused', ('C17',), c, 'post')
            continue
        n += 1
        e.oblige(s, z3.Not(notmap), 'a document that is no map is refused', ('C17',), c, 'post')
        e.oblige(s, z3.Not(bad), 'a scalar that cannot be converted to the type of its option is refused', ('C17',), c, 'post')
        for sec, name, k, dflt, getter, fld in OPTS:
            v = get(e, s, lv, cls, getter, fld)
            pl = place(root, sec, name)
            g = given(root, sec, name)
            if k == 's':
                want = z3.If(g, text(pl), lit(dflt))
            else:
                want = z3.If(g, ival(pl), num(dflt))
            goal = v == want
            if name == 'ping_interval':
                goal = z3.Implies(z3.And(z3.Not(bad), ival(pl) < 2 ** 60), goal)
            e.oblige(s, z3.Implies(z3.Not(bad), goal), 'option %s.%s has the value given for it and otherwise its default' % (sec or 'top', name), ('C17',), c, 'post')
        g = given(root, *FILEOPT)
        tx = text(place(root, *FILEOPT))
        e.oblige(s, z3.Implies(z3.Not(bad), get(e, s, lv, cls, 'get_log_config', 'log_basename') == z3.If(g, sfilename(tx), lit('broker'))), 'option logger.file gives the name of the log', ('C17',), c, 'post')
        e.oblige(s, z3.Implies(z3.Not(bad), get(e, s, lv, cls, 'get_log_config', 'log_path') == z3.If(g, sparent(tx), lit('/var/log/recodex/'))), 'option logger.file gives the directory of the log', ('C17',), c, 'post')
    if n == 0:
        raise Unsupported('loading a configuration never succeeds')
    return e

def get(e, s, lv, cls, getter, fld):
    md = spec_worker.method(e.prog, cls, getter)
    res = e.call_vals(s.copy(), md, lv, [], None)
    if len(res) != 1 or res[0][0].flow is not None:
        raise Unsupported('getter ' + getter)
    s2, r = res[0]
    p = e.load(s2, r).p
    return p[fld] if fld else p
