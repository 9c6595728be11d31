"""Types, value shapes and the logical vocabulary of the verifier."""
import re
import z3

# The installed z3 binding does not keep the terms of a pattern alive; hold references for good.
_keep_patterns = []
_mp = z3.z3.MultiPattern
def _MultiPattern(*args):
    r = _mp(*args)
    _keep_patterns.append((args, r))
    return r
z3.MultiPattern = z3.z3.MultiPattern = _MultiPattern

_BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT,
           z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT}
def _badpat(t):
    if z3.is_quantifier(t):
        return True
    if z3.is_app(t):
        if t.decl().kind() in _BADPAT:
            return True
        return any(_badpat(c) for c in t.children())
    return False
def _consts(t, acc, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_const(t):
        acc.add(t.get_id())
    for c in t.children():
        _consts(c, acc, seen)
def _goodpat(p, vs):
    ts = p.children() if z3.is_pattern(p) else [p]
    if any(_badpat(t) or not z3.is_app(t) or t.num_args() == 0 for t in ts):
        return False
    acc, seen = set(), set()
    for t in ts:
        _consts(t, acc, seen)
    return all(v.get_id() in acc for v in vs)
_fa = z3.z3.ForAll
def _ForAll(vs, body, weight=1, qid='', skid='', patterns=(), no_patterns=()):
    vl = list(vs) if isinstance(vs, (list, tuple)) else [vs]
    return _fa(vl, body, patterns=[p for p in patterns if _goodpat(p, vl)])
z3.ForAll = z3.z3.ForAll = _ForAll

class Unsupported(Exception):
    def __init__(self, msg, node=None):
        self.node = node
        loc = ''
        if node is not None:
            loc = ' at %s:%s' % (node.file, node.line)
        super().__init__(msg + loc)

Str = z3.DeclareSort('Str')
Int = z3.IntSort()
Bool = z3.BoolSort()
U64 = 2 ** 64

BOOL = ('bool',)
STR = ('str',)
FUN = ('fun',)
VOID = ('void',)
NULLT = ('null',)
I32 = ('int', 'i32')
SIZE = ('int', 'u64')
I64 = ('int', 'i64')
CHAR = ('int', 'i8')
MS = ('int', 'i64')

_INTS = {
    'int': 'i32', 'unsigned int': 'u32', 'long': 'i64', 'unsigned long': 'u64', 'long long': 'i64',
    'unsigned long long': 'u64', 'short': 'i16', 'unsigned short': 'u16', 'char': 'i8', 'signed char': 'i8',
    'unsigned char': 'u8', 'unsigned': 'u32', 'size_t': 'u64', 'std::size_t': 'u64', 'std::uint16_t': 'u16',
    'uint16_t': 'u16', 'uint32_t': 'u32', 'uint64_t': 'u64', 'int64_t': 'i64', 'std::uint64_t': 'u64',
    'std::int64_t': 'i64', 'ssize_t': 'i64', 'std::ptrdiff_t': 'i64', 'ptrdiff_t': 'i64', 'size_type': 'u64',
    'std::uint32_t': 'u32', 'int32_t': 'i32', 'std::int32_t': 'i32', 'difference_type': 'i64', 'uint8_t': 'u8',
    'std::uint8_t': 'u8', 'wchar_t': 'i32',
}

def int_range(k):
    b = int(k[1:])
    if k[0] == 'u':
        return 0, 2 ** b - 1
    return -2 ** (b - 1), 2 ** (b - 1) - 1

def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out

def strip_cv(s):
    s = s.strip()
    while True:
        o = s
        for k in ('const ', 'volatile ', 'class ', 'struct ', 'typename ', 'enum ', 'mutable '):
            if s.startswith(k):
                s = s[len(k):].strip()
        for k in (' const', ' volatile', '&&', '&', '*const', ' __restrict'):
            if s.endswith(k):
                s = (s[:-len(k)] + ('*' if k == '*const' else '')).strip()
        if s == o:
            return s

VECS = ('vector', 'list', 'deque', 'queue', 'initializer_list', 'stack', 'forward_list', 'array')
MAPS = ('map', 'unordered_map')
SETS = ('set', 'unordered_set')
MMAPS = ('multimap', 'unordered_multimap')
PTRS = ('shared_ptr', 'unique_ptr', '__shared_ptr', 'weak_ptr', '__shared_ptr_access')

POLLITEM = ('struct', (('socket', ('int', _INTS['long'])), ('fd', ('int', _INTS['int'])), ('events', ('int', _INTS['short'])), ('revents', ('int', _INTS['short']))))

class Types:
    def __init__(self, prog):
        self.prog = prog
        self.typedefs = {}
        self.enums = set()
        for n in prog.by_id.values():
            if n.kind in ('TypedefDecl', 'TypeAliasDecl') and n.name:
                self.typedefs.setdefault(n.name, n.type)
            if n.kind == 'EnumDecl' and n.name:
                self.enums.add(n.name)
        self.cache = {}
        self._fields = {}
        self._shape = {}
        self.bases = {}
        self.derived = {}
        for c, n in prog.classes.items():
            bs = []
            for b in n.get('bases', []) or []:
                t = b.get('type', {})
                q = t.get('desugaredQualType') or t.get('qualType')
                k = self.clsname(q)
                if k:
                    bs.append(k)
            self.bases[c] = bs
            for b in bs:
                self.derived.setdefault(b, []).append(c)

    def clsname(self, q):
        q = strip_cv(q)
        q = re.sub(r'^vrf_repo::', '', q)
        base = q.split('<')[0]
        if q in self.prog.classes:
            return q
        if base in self.prog.classes:
            return base
        return None

    def root(self, c):
        while self.bases.get(c):
            c = self.bases[c][0]
        return c

    def subclasses(self, c):
        out = [c]
        for d in self.derived.get(c, []):
            out += self.subclasses(d)
        return out

    def is_sub(self, c, d):
        while True:
            if c == d:
                return True
            if not self.bases.get(c):
                return False
            c = self.bases[c][0]

    def parse(self, s):
        if s is None:
            return ('opq', '?')
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s] = t
        return t

    def _parse(self, s, depth=0):
        s = strip_cv(s)
        if depth > 12:
            return ('opq', s)
        if s.endswith('*'):
            inner = s[:-1].strip()
            if strip_cv(inner) == 'char':
                return STR
            return ('ptr', self._parse(inner, depth + 1))
        if s in ('bool', '_Bool'):
            return BOOL
        if s == 'void':
            return VOID
        if s in _INTS:
            return ('int', _INTS[s])
        if s in ('std::string', 'string') or s.startswith(('std::basic_string<char', 'basic_string<char', 'std::__cxx11::basic_string<char', 'std::basic_string_view<char', 'basic_string_view<char')) or s in ('std::string_view',):
            if '::' not in s.split('>')[-1] and not s.endswith(']'):
                return STR
        if s in ('std::nullptr_t', 'nullptr_t'):
            return NULLT
        if s in ('float', 'double', 'long double'):
            return ('opq', 'float')
        if re.match(r'^(?:boost|std)::filesystem::(?:__cxx11::)?path$', s) or s in ('fs::path', 'vrf_repo::fs::path'):
            return STR      # a path is its text
        if re.match(r'^(?:std::)?(?:__cxx11::)?(?:basic_)?o?stringstream(?:<char.*>)?$', s, re.S):
            return STR      # a string stream used for output is the text written to it
        if s in ('zmq_pollitem_t', 'zmq::pollitem_t', 'vrf_repo::zmq_pollitem_t', '::zmq_pollitem_t'):
            return POLLITEM
        m = re.match(r'^(?:(?:std|vrf_repo|__gnu_cxx|chrono|__cxx11|__1)::)*([A-Za-z_0-9:]+)<(.*)>$', s, re.S)
        if m:
            nm, args = m.group(1), m.group(2)
            last = nm.split('::')[-1]
            a = split_args(args)
            if last in VECS and '::' not in nm.replace('std::', ''):
                return ('vec', self._parse(a[0], depth + 1))
            if last in MAPS:
                return ('map', self._parse(a[0], depth + 1), self._parse(a[1], depth + 1))
            if last in SETS:
                return ('map', self._parse(a[0], depth + 1), BOOL)
            if last in MMAPS:
                return ('mmap', self._parse(a[0], depth + 1), self._parse(a[1], depth + 1))
            if last == 'pair':
                return ('struct', (('first', self._parse(a[0], depth + 1)), ('second', self._parse(a[1], depth + 1))))
            if last == 'tuple':
                return ('struct', tuple((str(i), self._parse(x, depth + 1)) for i, x in enumerate(a)))
            if last == 'optional':
                return ('struct', (('has', BOOL), ('val', self._parse(a[0], depth + 1))))
            if last in PTRS and strip_cv(a[0]) == 'char':
                return STR
            if last in PTRS:
                return ('ptr', self._parse(a[0], depth + 1))
            if last == 'function':
                return FUN
            if last in ('duration', 'time_point'):
                return MS
            if last in ('atomic', 'reference_wrapper'):
                return self._parse(a[0], depth + 1)
        m = re.match(r'^(.*)\[(\d+)\]$', s)
        if m and strip_cv(m.group(1)) == 'char':
            return STR
        if m:
            return ('vec', self._parse(m.group(1), depth + 1))
        q = re.sub(r'^vrf_repo::', '', s)
        if q in ('std::chrono::milliseconds', 'chrono::milliseconds', 'milliseconds', 'std::chrono::seconds',
                 'std::chrono::system_clock::time_point', 'std::chrono::steady_clock::time_point',
                 'std::chrono::system_clock::duration'):
            return MS
        c = self.clsname(q)
        if c:
            return ('cls', c)
        last = q.split('::')[-1]
        if '<' not in last and last in self.typedefs and strip_cv(self.typedefs[last]) != s:
            return self._parse(self.typedefs[last], depth + 1)
        if last in self.enums or 'level_enum' in last:
            return I32
        if s.startswith('(lambda') or '(lambda at' in s:
            return FUN
        return ('opq', s)

    # -- class fields ----------------------------------------------------
    def fields(self, c):
        """Field name -> (type, decl node) for the whole hierarchy of c's root."""
        r = self.root(c)
        if r in self._fields:
            return self._fields[r]
        out = {}
        self._fields[r] = out
        self.field_key = getattr(self, 'field_key', {})
        for k in self.subclasses(r):
            n = self.prog.classes[k]
            for f in n.inner:
                if f.kind == 'FieldDecl':
                    key = f.name or f.id
                    if key in out:
                        key = k + '.' + key
                    out[key] = (self.parse(f.type), f)
                    self.field_key[f.id] = key
        if len(self.subclasses(r)) > 1:
            out['__tag'] = (I32, None)
        return out

    def own_fields(self, c):
        res = []
        ch = [c]
        while self.bases.get(ch[0]):
            ch.insert(0, self.bases[ch[0]][0])
        fs = self.fields(c)
        names = set()
        for k in ch:
            for f in self.prog.classes[k].inner:
                if f.kind == 'FieldDecl':
                    res.append((self.field_key[f.id], self.parse(f.type), f))
        return res

    def tag(self, c):
        return sorted(self.subclasses(self.root(c))).index(c) + 1

    def has_tag(self, c):
        return '__tag' in self.fields(c)

    # -- shapes -----------------------------------------------------------
    def shape(self, t):
        if t in self._shape:
            return self._shape[t]
        r = self._mkshape(t)
        self._shape[t] = r
        return r

    def _mkshape(self, t):
        k = t[0]
        if k == 'bool':
            return Bool
        if k in ('int', 'ptr', 'fun', 'opq', 'null', 'void'):
            return Int
        if k == 'str':
            return Str
        if k == 'struct':
            return {n: self.shape(x) for n, x in t[1]}
        if k == 'cls':
            return {n: self.shape(x[0]) for n, x in self.fields(t[1]).items()}
        if k == 'vec':
            return {'len': Int, 'arr': lift(Int, self.shape(t[1]))}
        if k == 'mmap':
            return {'len': Int, 'arr': {'first': lift(Int, self.shape(t[1])), 'second': lift(Int, self.shape(t[2]))}}
        if k == 'map':
            ks = self.shape(t[1])
            if isinstance(ks, dict):
                raise Unsupported('map with a structured key')
            return {'dom': z3.ArraySort(ks, Bool), 'val': lift(ks, self.shape(t[2]))}
        if k == 'iter':
            return Int
        raise Unsupported('no shape for %r' % (t,))

def elem_type(t):
    if t[0] == 'vec':
        return t[1]
    if t[0] == 'mmap':
        return ('struct', (('first', t[1]), ('second', t[2])))
    if t[0] == 'map':
        return ('struct', (('first', t[1]), ('second', t[2])))
    raise Unsupported('element type of %r' % (t,))

# ---------------------------------------------------------------- payloads
def lift(I, sh):
    if isinstance(sh, dict):
        return {k: lift(I, v) for k, v in sh.items()}
    return z3.ArraySort(I, sh)

_cnt = [0]
_created = []

def fresh_const(sort, name='k'):
    _cnt[0] += 1
    c = z3.Const('%s!%d' % (name, _cnt[0]), sort)
    return c

def fresh_mark():
    return _cnt[0]

def const_no(c):
    n = c.decl().name()
    i = n.rfind('!')
    if i < 0:
        return -1
    try:
        return int(n[i + 1:])
    except ValueError:
        return -1

def fresh(sh, name='v'):
    if isinstance(sh, dict):
        return {k: fresh(v, name + '.' + k) for k, v in sh.items()}
    return fresh_const(sh, name)

def pmap(f, *ps):
    if isinstance(ps[0], dict):
        return {k: pmap(f, *[p[k] for p in ps]) for k in ps[0]}
    return f(*ps)

def leaves(p, path=()):
    if isinstance(p, dict):
        for k, v in p.items():
            yield from leaves(v, path + (k,))
    else:
        yield path, p

_BASIC_ARR = ()

def sel_leaf(a, i):
    # read over write simplification for syntactically equal indices
    d = a.decl().kind() if z3.is_app(a) else None
    while d == z3.Z3_OP_STORE:
        b, j, v = a.arg(0), a.arg(1), a.arg(2)
        if j.eq(i):
            return v
        if (z3.is_int_value(j) and z3.is_int_value(i)) or (is_lit(j) and is_lit(i)):
            a = b
            d = a.decl().kind() if z3.is_app(a) else None
            continue
        break
    if d == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    if KNOWN and z3.is_int_value(i):
        for b, j, v in KNOWN:
            if b.eq(a) and j == i.as_long():
                return v
    return z3.Select(a, i)

# cells of constant arrays whose value is also asserted: [(array, index, value)]
KNOWN = []

def sel(p, i):
    return pmap(lambda a: sel_leaf(a, i), p)

def sto(p, i, v):
    if isinstance(p, dict):
        return {k: sto(p[k], i, v[k]) for k in p}
    return z3.Store(p, i, v)

def pite(c, a, b):
    if a is b:
        return a
    return pmap(lambda x, y: x if x.eq(y) else z3.If(c, x, y), a, b)

def same(a, b):
    """Syntactic identity of payloads."""
    if a is b:
        return True
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, z3.ExprRef):
        return isinstance(b, z3.ExprRef) and a.eq(b)
    return a == b

def pand(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    if len(xs) == 1:
        return xs[0]
    return z3.And(*xs)

def por(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return z3.BoolVal(False)
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*xs)

# ---------------------------------------------------------------- strings
slen = z3.Function('slen', Str, Int)
sfind = z3.Function('sfind', Str, Str, Int, Int)      # index or npos
ssub = z3.Function('ssub', Str, Int, Int, Str)        # [from, to)
scat = z3.Function('scat', Str, Str, Str)
schr = z3.Function('schr', Str, Int, Int)
sofint = z3.Function('sofint', Int, Str)
stohex = z3.Function('stohex', Str, Str)
sfilename = z3.Function('sfilename', Str, Str)
sparent = z3.Function('sparent', Str, Str)
# numeric conversions of strings: outcome 0 = ok, 1 = invalid_argument, 2 = out_of_range
stoi_ok = z3.Function('stoi_ok', Str, Int, Int)
stoi_val = z3.Function('stoi_val', Str, Int, Int)
NPOS = U64 - 1

_lits = {}
_lit_of = {}

def lit(s):
    if s not in _lits:
        c = z3.Const('str:' + repr(s), Str)
        _lits[s] = c
        _lit_of[c.get_id()] = s
    return _lits[s]

def is_lit(t):
    return z3.is_const(t) and t.get_id() in _lit_of

def lit_val(t):
    return _lit_of.get(t.get_id())

def str_axioms():
    s = z3.Const('s', Str)
    a = z3.Const('a', Str)
    f = z3.Const('f', Int)
    t = z3.Const('t', Int)
    ax = []
    ls = list(_lits.items())
    if len(ls) > 1:
        ax.append(z3.Distinct(*[c for _, c in ls]))
    for k, c in ls:
        ax.append(slen(c) == len(k))
    ax.append(z3.ForAll([s], slen(s) >= 0, patterns=[slen(s)]))
    ax.append(z3.ForAll([s], slen(s) < 2 ** 62, patterns=[slen(s)]))
    if '' in _lits:
        ax.append(z3.ForAll([s], z3.Implies(slen(s) == 0, s == lit('')), patterns=[slen(s)]))
    ax.append(z3.ForAll([s, a, f], z3.Or(sfind(s, a, f) == NPOS, z3.And(f <= sfind(s, a, f), sfind(s, a, f) + slen(a) <= slen(s), sfind(s, a, f) < slen(s) + 1)), patterns=[sfind(s, a, f)]))
    ax.append(z3.ForAll([s, f, t], z3.Implies(z3.And(0 <= f, f <= t, t <= slen(s)), slen(ssub(s, f, t)) == t - f), patterns=[ssub(s, f, t)]))
    ax.append(z3.ForAll([s, t], z3.Implies(t == slen(s), ssub(s, 0, t) == s), patterns=[ssub(s, 0, t)]))
    ax.append(z3.ForAll([s, a], slen(scat(s, a)) == slen(s) + slen(a), patterns=[scat(s, a)]))
    return ax

nullstr = z3.Const('null char pointer', Str)

def cat(a, b):
    """Concatenation normalised to a right-nested chain with merged literals."""
    parts = flat(a) + flat(b)
    out = []
    for p in parts:
        if is_lit(p) and lit_val(p) == '':
            continue
        if out and is_lit(out[-1]) and is_lit(p):
            out[-1] = lit(lit_val(out[-1]) + lit_val(p))
        else:
            out.append(p)
    if not out:
        return lit('')
    r = out[-1]
    for p in reversed(out[:-1]):
        r = scat(p, r)
    return r

def flat(a):
    if z3.is_app(a) and a.num_args() == 2 and a.decl().eq(scat):
        return flat(a.arg(0)) + flat(a.arg(1))
    return [a]

def str_eq(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    if is_lit(a) and is_lit(b):
        return z3.BoolVal(lit_val(a) == lit_val(b))
    return a == b

def num(x):
    return z3.IntVal(x)

def ivar(name='j'):
    return fresh_const(Int, name)

def forall(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if z3.is_true(body):
        return body
    kw = {}
    if pats:
        kw['patterns'] = pats
    return z3.ForAll(list(vs), body, **kw)

def exists(vs, body):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    vs = list(vs)
    if not vs or z3.is_false(body) or z3.is_true(body):
        return body
    return z3.Exists(vs, body)


def named(p, st=None, name='n', out=None):
    """Give array-valued leaves a name (constant), so that they can be used in triggers."""
    def f(a):
        if z3.is_const(a) or not z3.is_array(a):
            return a
        x = a
        while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT:
            x = x.arg(0)
        if z3.is_const(x):
            return a
        # an application rather than a constant: z3 would eliminate a constant (and with it the trigger)
        _cnt[0] += 1
        c = z3.Function('%s!%d' % (name, _cnt[0]), Int, a.sort())(num(0))
        out.append(c == a)
        return c
    return pmap(f, p)
