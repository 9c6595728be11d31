"""Contract of broker_handler::on_request, for every message in every state that satisfies the handler's invariant.

The queue manager is seen through the contract of spec_qm (pre/post), whose implementations are verified there.
Everything the handler sends goes through the `respond` callback; a monitor attached to it states, for every message
sent, what must be true at that moment, and records what the postconditions need.
"""
import z3
from core import *
import core
import engine
from engine import Engine, Val, LV, St, Obligation, Closure, simp
import spec_qm
import loops

FILES = ['src/handlers/broker_handler.cpp', 'src/worker_registry.cpp', 'src/worker.cpp', 'src/notifier/reactor_status_notifier.cpp',
         'src/handlers/status_notifier_handler.cpp', 'src/reactor/command_holder.cpp', 'src/reactor/message_container.cpp', 'src/broker_connect.cpp', 'src/config/broker_config.cpp']

WK, RQ = spec_qm.WK, spec_qm.RQ
MC = ('cls', 'message_container')
IA, BA = spec_qm.IA, spec_qm.BA
BBA = z3.ArraySort(Int, BA)
OUTT = ('vec', MC)
CH = spec_qm.CH
VEC = ('vec', STR)

# job id and payload of a request as the interface of job_request_data shows them are read by running its (real) accessors

class QAbs(spec_qm.Abs):
    pass

GH = ('W', 'cur', 'Q', 'E', 'ord', 'n', 'H')
QSORTS = (('W', BA), ('cur', IA), ('Q', BA), ('E', BBA), ('ord', IA), ('n', Int), ('H', IA))

def qabs(e, st):
    g = {k: e.gget(st, 'q' + k) for k in GH}
    a = spec_qm.Abs(lambda w: g['W'][w], lambda w: g['cur'][w], lambda r: g['Q'][r], lambda w, r: g['E'][w][r], lambda r: g['ord'][r])
    a.g = g
    a.H = lambda r: g['H'][r]
    # the job r is waiting or assigned
    a.held = lambda r: z3.Or(a.Q(r), z3.And(a.W(a.H(r)), a.cur(a.H(r)) == r, r != 0))
    return a

def fresh_q(e, st, keep=()):
    for k, s in QSORTS:
        if k not in keep:
            e.gset(st, 'q' + k, fresh_const(s, 'q' + k))

def absinv(e, st, a):
    """What every state of a queue manager satisfies, over the abstract state (proved of both implementations in spec_qm)."""
    w, r = z3.Int('w!a'), z3.Int('r!a')
    return [
        z3.ForAll([w], z3.Implies(a.W(w), w != 0), patterns=[a.W(w)]),
        z3.ForAll([r], z3.Implies(a.Q(r), r != 0), patterns=[a.Q(r)]),
        z3.ForAll([w], z3.Implies(z3.And(a.W(w), a.cur(w) != 0), z3.And(a.H(a.cur(w)) == w, z3.Not(a.Q(a.cur(w))))), patterns=[a.cur(w)]),
        z3.ForAll([w, r], z3.Implies(a.E(w, r), z3.And(a.W(w), a.Q(r), CH(e, st, w, r))), patterns=[a.E(w, r)]),
        z3.ForAll([r], z3.Implies(a.Q(r), z3.Exists([w], a.E(w, r))), patterns=[a.Q(r)]),
    ]

class Env:
    """One verification run: symbolic handler object, registry, queue manager, configuration and message."""
    def __init__(self, prog, name):
        self.e = e = Engine(prog, name)
        self.prog = prog
        e.env = self
        self.st = st = St()
        st.vars['g:alloc'] = z3.Int('alloc0')
        st.vars['g:clock'] = z3.Int('clock0')
        for k, s in QSORTS:
            st.vars['g:q' + k] = z3.Const('q%s0' % k, s)
        e.assume(st, st.vars['g:alloc'] >= 100)
        self.install()

    # ---------------------------------------------------------------- contracts of what the handler calls
    def install(self):
        e = self.e
        spec_qm.worker_contracts(e)
        for op in spec_qm.OPS:
            e.contracts['queue_manager_interface::' + op] = (lambda e_, s, this, vals, n, op=op: self.qm_call(s, op, vals, n))
        e.contracts['fn:string_to_hex'] = lambda e_, s, this, vals, n: [(s, Val(STR, stohex(e_.load(s, vals[0]).p)))]
        e.contracts['fn:create_null_logger'] = lambda e_, s, this, vals, n: [(s, Val(('ptr', ('opq', 'spdlog::logger')), num(9)))]
        desc = z3.Function('descr', Str, Str, Str)
        def c_desc(e_, s, this, vals, n):
            i = e_.load(s, this.f('identity', STR)).p
            d = e_.load(s, this.f('description', STR)).p
            return [(s, Val(STR, desc(i, d)))]
        e.contracts['worker::get_description'] = c_desc
        e.contracts['ctor:worker'] = self.worker_ctor
        e.contracts['clock'] = lambda e_, s, this, vals, n: [(s, Val(MS, spec_qm.clock(e_, s, n)))]

    def worker_ctor(self, e, st, this, vals, n):
        """Contract of worker::worker (verified in spec_worker)."""
        t = {k: ty for k, ty, _ in e.T.own_fields('worker')}
        h = e.load(st, vals[2])
        e.store(st, this.f('identity', STR), e.load(st, vals[0]))
        e.store(st, this.f('hwgroup', STR), e.load(st, vals[1]))
        e.store(st, this.f('description', STR), Val(STR, lit('')))
        e.store(st, this.f('liveness', SIZE), Val(SIZE, num(0)))
        for k, ty in t.items():
            if ty == ('mmap', STR, STR):
                e.store(st, this.f(k, ty), h)
        return [(st, None)]

    def qm_call(self, st, op, vals, n):
        e = self.e
        a = qabs(e, st)
        x = {}
        for k, v in zip(spec_qm.OPS[op], vals):
            x[k] = e.load(st, v).p
        if op == 'add_worker' and 'c' not in x:
            x['c'] = num(0)
        for name, tags, f in spec_qm.pre(op, a, x):
            e.oblige(st, f, '%s: %s' % (op, name), tags, n, 'pre')
        al = e.gget(st, 'alloc')
        ret = None
        old = st.copy()
        if op == 'enqueue_request':
            t = ('cls', 'enqueue_result')
            p = fresh(e.T.shape(t), 'enq')
            ks = {k: ty for k, ty, _ in e.T.own_fields('enqueue_result')}
            x['assigned_to'] = p[[k for k, ty in ks.items() if ty[0] == 'ptr'][0]]
            x['enqueued'] = p[[k for k, ty in ks.items() if ty == BOOL][0]]
            e.assume(st, z3.And(x['assigned_to'] >= 0, x['assigned_to'] <= al))
            ret = Val(t, p)
        elif op == 'worker_terminated':
            vt = ('vec', ('ptr', RQ))
            p = fresh(e.T.shape(vt), 'gone')
            e.assume(st, z3.And(p['len'] >= 0, p['len'] < 2 ** 60))
            ret = e.alloc(st, vt, p)
            x['vecp'], x['vec'] = ret.p, p
        elif op == 'get_queued_request_count':
            x['ret'] = fresh_const(Int, 'count')
            e.assume(st, z3.And(x['ret'] >= 0, x['ret'] < 2 ** 60))
            ret = Val(SIZE, x['ret'])
        else:
            x['ret'] = fresh_const(Int, 'rq')
            ret = Val(('ptr', RQ), x['ret'])
        if op not in ('get_current_request', 'get_queued_request_count'):
            fresh_q(e, st)
        b = qabs(e, st)
        w, r = z3.Int('w!q'), z3.Int('r!q')
        for name, tags, f, vs, pats in spec_qm.post(op, a, b, x, lambda ww, rr: CH(e, st, ww, rr), w, r):
            e.assume(st, self.quant(f, vs, b, a, pats))
        if op == 'get_queued_request_count':
            e.assume(st, x['ret'] == a.g['n'])
        if op not in ('get_current_request', 'get_queued_request_count'):
            for f in absinv(e, st, b):
                e.assume(st, f)
        if op in ('assign_request', 'worker_finished', 'add_worker', 'enqueue_request'):
            # a newly assigned job has to be sent
            wk = x['assigned_to'] if op == 'enqueue_request' else z3.If(x['ret'] != 0, x['w'], num(0))
            e.oblige(st, z3.Or(wk == 0, e.gget(st, 'pend') == 0), 'the previously assigned job has been sent before the next one is assigned', ('C02', 'C01'), n, 'monitor')
            e.gset(st, 'pend', z3.If(wk != 0, wk, e.gget(st, 'pend')))
        self.after_qm(st, op, a, b, x, n)
        return [(st, ret)]

    def quant(self, f, vs, b, a, pats):
        if not vs:
            return f
        if pats:
            return z3.ForAll(vs, f, patterns=pats)
        # patterns: the abstract functions applied to the bound variables
        ps = []
        names = [str(v) for v in vs]
        if len(vs) == 1:
            v = vs[0]
            cand = [b.W(v), a.W(v), b.cur(v), a.cur(v)] if str(v).startswith('w') else [b.Q(v), a.Q(v)]
        else:
            cand = [b.E(vs[0], vs[1]), a.E(vs[0], vs[1])] if str(vs[0]).startswith('w') else []
        import stl
        cand = [c for c in cand if stl.occurs(c, f)]
        return z3.ForAll(vs, f, patterns=cand) if cand else z3.ForAll(vs, f)

    def after_qm(self, st, op, a, b, x, n):
        if op == 'enqueue_request':
            e = self.e
            e.gset(st, 'enq', x['r'])
            e.gset(st, 'enqok', x['enqueued'])
            e.gset(st, 'nEnq', e.gget(st, 'nEnq') + 1)

# ====================================================================== the handler
# triggers only (true everywhere): they keep the quantifiers of header sets from feeding each other
LOOKJ, LOOKE = z3.Function('lookj', Int, Bool), z3.Function('looke', Int, Bool)
LOOKAX = z3.ForAll([z3.Int('x!l')], LOOKE(z3.Int('x!l')), patterns=[LOOKE(z3.Int('x!l'))])
KEYW, KEYC, KEYT, KEYM, KEYS = 'workers', 'clients', 'timer', 'monitor', 'status_notifier'

def find_ctor(e, cls, nargs):
    for m in e.all_methods(cls):
        if m.kind == 'CXXConstructorDecl' and len([p for p in m.inner if p.kind == 'ParmVarDecl']) == nargs:
            return e.prog.def_of.get(m.id) or m
    raise Unsupported('constructor of %s with %d parameters' % (cls, nargs))

def rsel(arr, j):
    """arr[j] with the stores expanded, and the term that may serve as pattern."""
    if z3.is_store(arr):
        x, p = rsel(arr.arg(0), j)
        return z3.If(j == arr.arg(1), arr.arg(2), x), p
    return arr[j], arr[j]

def ground_selects(g):
    """Array reads without bound variables inside quantifiers of g (as hints: the solver sees them only when it instantiates)."""
    out, seen = [], {}
    def go(x):
        # -> does x contain a bound variable?
        if x.get_id() in seen:
            return seen[x.get_id()]
        if z3.is_var(x):
            r = True
        elif z3.is_quantifier(x):
            go(x.body())
            r = True
        else:
            r = any([go(c) for c in x.children()])
            if not r and z3.is_select(x) and x.sort().kind() != z3.Z3_ARRAY_SORT:
                out.append(x)
        seen[x.get_id()] = r
        return r
    go(g)
    return out[:12]

class Handler(Env):
    """on_request for one class of messages (key and command)."""
    def __init__(self, prog, name):
        super().__init__(prog, name)
        e, st = self.e, self.st
        self.HT = ('cls', 'broker_handler')
        self.this = LV(('heap', e.tkey(self.HT), num(50)), (), self.HT)
        self.reg_ref, self.cfg_ref, self.qm_ref = num(51), num(52), num(53)
        self.max_live, self.max_fail, self.interval = z3.Int('max_liveness'), z3.Int('max_failures'), z3.Int('ping_interval')
        for k, v in (('get_max_worker_liveness', self.max_live), ('get_max_request_failures', self.max_fail)):
            e.contracts['broker_config::' + k] = lambda e_, s, this, vals, n, v=v: [(s, Val(SIZE, v))]
            e.assume(st, z3.And(v >= 0, v < 2 ** 60))
        e.contracts['broker_config::get_worker_ping_interval'] = lambda e_, s, this, vals, n: [(s, Val(MS, self.interval))]
        e.assume(st, z3.And(self.interval > -2 ** 60, self.interval < 2 ** 60))
        for g in ('pend', 'nOK', 'nFail', 'nErr', 'nMon', 'nCl', 'nWk', 'enq', 'nEnq', 'verdict'):
            st.vars['g:' + g] = num(0)
        st.vars['g:out'] = {'len': num(0), 'arr': fresh(lift(Int, e.T.shape(MC)), 'out')}
        for g in ('rep', 'mF', 'mA'):
            st.vars['g:' + g] = z3.K(Int, z3.BoolVal(False))
        for g in ('lastid', 'lastmsg', 'lastmon'):
            st.vars['g:' + g] = lit('')
        st.vars['g:enqok'] = z3.BoolVal(False)
        self.construct()

    def construct(self):
        """Run the real constructor (this registers the commands), then forget everything that changes over time."""
        e, st = self.e, self.st
        e.T.fields('broker_handler')
        p = e.blank(self.HT)
        if e.T.has_tag('broker_handler'):
            p['__tag'] = num(e.T.tag('broker_handler'))
        e.store(st, self.this, p)
        vals = [Val(('ptr', ('cls', 'broker_config')), self.cfg_ref), Val(('ptr', ('cls', 'worker_registry')), self.reg_ref),
                Val(('ptr', ('cls', 'queue_manager_interface')), self.qm_ref), Val(NULLT, num(0))]
        res = e.init_object(st, 'broker_handler', find_ctor(e, 'broker_handler', 4), vals, self.this, None)
        if len(res) != 1 or res[0][0].flow is not None:
            raise Unsupported('constructor of broker_handler has several outcomes')
        self.st = st = res[0][0]
        self.init_state = st.copy()
        self.mut, self.fixed = [], []
        for k, t, f in e.T.own_fields('broker_handler'):
            if t[0] == 'bool' or t[0] == 'int' or (t[0] == 'map' and t[2] != FUN):
                self.mut.append((k, t))
                e.store(st, self.this.f(k, t), fresh(e.T.shape(t), 'h.' + k))
            else:
                self.fixed.append((k, t))
        bools = [k for k, t in self.mut if t == BOOL]
        timers = [(k, t) for k, t in self.mut if t[0] == 'map' and t[1] == ('ptr', WK) and t[2][0] == 'int']
        stats = [(k, t) for k, t in self.mut if t[0] == 'map' and t[1] == STR and t[2][0] == 'int']
        if len(bools) != 1 or len(timers) != 1 or len(stats) != 1:
            raise Unsupported('state of broker_handler not identified')
        self.frozen_f, self.timers_f, self.stats_f = (bools[0], BOOL), timers[0], stats[0]
        if len(self.mut) != 3:
            raise Unsupported('unknown state in broker_handler: %s' % [k for k, _ in self.mut])

    # ---------------------------------------------------------------- access to the state
    def fld(self, st, kt):
        return self.e.load(st, self.this.f(*kt)).p
    def frozen(self, st):
        return self.fld(st, self.frozen_f)
    def timer(self, st, w):
        m = self.fld(st, self.timers_f)
        return z3.If(m['dom'][w], m['val'][w], num(0))
    def stat(self, st, name):
        m = self.fld(st, self.stats_f)
        return z3.If(m['dom'][lit(name)], m['val'][lit(name)], num(0))
    def reg(self, st):
        t = ('cls', 'worker_registry')
        fs = [(k, ty) for k, ty, _ in self.e.T.own_fields('worker_registry') if ty == ('vec', ('ptr', WK))]
        if len(fs) != 1:
            raise Unsupported('worker list of the registry not identified')
        return self.e.load(st, LV(('heap', self.e.tkey(t), self.reg_ref), (fs[0][0],) and (), t).f(*fs[0])).p
    def acc(self, st, meth, r):
        """Value of an accessor of the data of request r, obtained by running the real accessor."""
        e = self.e
        key = meth
        s = st.copy()
        x = z3.Int('acc!r')
        dt = ('cls', 'job_request_data')
        lv = LV(('heap', e.tkey(RQ), x), (), RQ).f('data', dt)
        ds = [d for d in e.prog.find('job_request_data::' + meth) if e.prog.body(d) is not None]
        e.silent += 1
        try:
            res = e.call_vals(s, ds[0], lv, [], None)
        finally:
            e.silent -= 1
        if len(res) != 1:
            raise Unsupported('accessor ' + meth)
        p = e.load(res[0][0], res[0][1]).p
        return pmap(lambda q: z3.substitute(q, (x, r)), p)
    def jid(self, st, r):
        return self.acc(st, 'get_job_id', r)
    def complete(self, st, r):
        return self.acc(st, 'is_complete', r)
    def jdata(self, st, r):
        return self.acc(st, 'get', r)
    def rfield(self, st, k, r):
        return sel(self.e.heap_of(st, self.e.tkey(RQ))[k], r)
    def fc(self, st, r):
        return self.rfield(st, 'failure_count', r)
    def wfield(self, st, k, w):
        return sel(self.e.heap_of(st, self.e.tkey(WK))[k], w)
    def ident(self, st, w):
        return self.wfield(st, 'identity', w)

    # ---------------------------------------------------------------- invariant of the handler
    def inv(self, st, post):
        e = self.e
        a = qabs(e, st)
        reg = self.reg(st)
        names = []
        reg = pmap(simp, reg) if post else named(reg, None, 'reg', names)
        w, r, i, k = z3.Int('w!i'), z3.Int('r!i'), z3.Int('i!i'), z3.Int('k!i')
        inr = lambda i: z3.And(0 <= i, i < reg['len'])
        al = e.gget(st, 'alloc')
        wpos = fresh_const(IA, 'wpos')
        wa = reg['arr']
        out = []
        def c(name, tags, f):
            out.append((name, tags, f))
        if not post:
            for f in names:
                c('', (), f)
            c('', (), z3.And(reg['len'] >= 0, reg['len'] < 2 ** 60))
            c('', (), z3.ForAll([w], z3.Implies(a.W(w), z3.And(inr(wpos[w]), wa[wpos[w]] == w)), patterns=[a.W(w)]))
            c('', (), z3.ForAll([i, k], z3.Implies(z3.And(inr(i), inr(k), self.ident(st, wa[i]) == self.ident(st, wa[k])), i == k), patterns=[z3.MultiPattern(wa[i], wa[k])]))
        else:
            c('every worker of the queue manager is in the registry', ('C19', 'C01'), z3.ForAll([w], z3.Implies(a.W(w), z3.Or(simp(z3.And(reg['len'] > 0, wa[reg['len'] - 1] == w)), z3.Exists([i], z3.And(inr(i), rsel(wa, i)[0] == w), patterns=[rsel(wa, i)[1]])))))
            c('no two registered workers have the same identity', ('C19', 'C02'), z3.ForAll([i, k], z3.Implies(z3.And(inr(i), inr(k), i < k), self.ident(st, wa[i]) != self.ident(st, wa[k]))))
        self.regnames = names
        c('every worker of the registry is in the queue manager', ('C19', 'C01', 'C02'), z3.ForAll([i], z3.Implies(inr(i), z3.And(wa[i] != 0, a.W(wa[i]))), patterns=[wa[i]]))
        c('no idle worker while a job waits for it', ('C10',), z3.ForAll([w, r], z3.Implies(a.E(w, r), a.cur(w) != 0), patterns=[a.E(w, r)]))
        c('waiting jobs have known content', ('C08', 'C12'), z3.ForAll([r], z3.Implies(a.Q(r), self.complete(st, r)), patterns=[a.Q(r)]))
        c('a worker satisfies the headers of the job it processes', ('C03',), z3.ForAll([w], z3.Implies(z3.And(a.W(w), a.cur(w) != 0, self.complete(st, a.cur(w))), CH(e, st, w, a.cur(w))), patterns=[a.cur(w)]))
        for nm, held, pat, v in (('waiting', lambda q: a.Q(q), lambda q: a.Q(q), r), ('assigned', None, None, w)):
            q = r if nm == 'waiting' else a.cur(w)
            h = a.Q(r) if nm == 'waiting' else z3.And(a.W(w), a.cur(w) != 0)
            pt = a.Q(r) if nm == 'waiting' else a.cur(w)
            c('%s jobs have failed fewer times than the limit' % nm, ('C08',), z3.ForAll([v], z3.Implies(h, z3.And(self.fc(st, q) >= 0, self.fc(st, q) < 2 ** 60, z3.Or(self.fc(st, q) == 0, self.fc(st, q) < self.max_fail))), patterns=[pt]))
            d = self.jdata(st, q)
            c('%s jobs carry the evaluation command and their id' % nm, ('C12',), z3.ForAll([v], z3.Implies(z3.And(h, self.complete(st, q)), z3.And(d['len'] >= 2, d['arr'][0] == lit('eval'), d['arr'][1] == self.jid(st, q))), patterns=[pt]))
            c('%s jobs exist' % nm, ('C13',), z3.ForAll([v], z3.Implies(h, z3.And(q > 0, q <= al)), patterns=[pt]))
        c('registered workers exist', ('C13',), z3.ForAll([w], z3.Implies(a.W(w), z3.And(w > 0, w <= al)), patterns=[a.W(w)]))
        c('the liveness of a registered worker is at most the maximum and not exhausted', ('C09',), z3.ForAll([w], z3.Implies(a.W(w), z3.And(self.wfield(st, 'liveness', w) <= self.max_live, z3.Or(self.max_live == 0, self.wfield(st, 'liveness', w) >= 1))), patterns=[a.W(w)]))
        m = self.fld(st, self.timers_f)
        c('timers belong to existing workers', ('C09',), z3.ForAll([w], z3.Implies(m['dom'][w], z3.And(w > 0, w <= al)), patterns=[m['dom'][w]]))
        return out

    # ---------------------------------------------------------------- monitor of everything that is sent
    def respond(self, e, st, vals, n):
        m = e.load(st, vals[0]).p
        key, idn, d = m['key'], m['identity'], m['data']
        ln, f = d['len'], (lambda i: sel_leaf(d['arr'], num(i)))
        e.lib.push(st, LV(('var', 'g:out'), (), OUTT), m)
        g = lambda k: e.gget(st, k)
        L = lit
        isk = lambda k: simp(str_eq(key, L(k)))
        known = z3.Or(*[isk(k) for k in (KEYW, KEYC, KEYM, KEYS)])
        e.oblige(st, known, 'messages are sent to workers, clients, the monitor or the status notifier only', ('C15', 'C05'), n, 'monitor')
        def imp(c, fm, name, tags):
            if not z3.is_false(c):
                e.oblige(st, z3.Implies(c, fm), name, tags, n, 'monitor')
        def upd(k, c, v):
            if not z3.is_false(c):
                o = g(k)
                e.gset(st, k, simp(z3.If(c, v, o)) if not z3.is_true(c) else v)
        # clients
        c = isk(KEYC)
        imp(c, z3.And(self.m['key'] == L(KEYC), idn == self.m['identity']), 'a client is only sent replies to its own message', ('C05',))
        if not z3.is_false(c) and self.cname == 'eval':
            one = z3.And(ln == 1, f(0) == L('ack'))
            acc_, rej = simp(z3.And(ln == 1, f(0) == L('accept'))), simp(z3.And(ln == 2, f(0) == L('reject')))
            imp(c, z3.If(g('nCl') == 0, one, z3.Or(acc_, rej)), 'the first reply to an evaluation request is the acknowledgement, the second one the verdict', ('C05',))
            upd('verdict', simp(z3.And(c, acc_)), num(1))
            upd('verdict', simp(z3.And(c, rej)), num(2))
        upd('nCl', c, g('nCl') + 1)
        # workers
        c = isk(KEYW)
        ctl = z3.And(ln == 1, z3.Or(f(0) == L('pong'), f(0) == L('intro')))
        pend = g('pend')
        a = qabs(e, st)
        job = simp(z3.And(c, z3.Not(ctl)))
        if not z3.is_false(job):
            imp(job, z3.And(pend != 0, idn == self.ident(st, pend)), 'a job is sent exactly to the worker it was just assigned to', ('C02', 'C01', 'C03'))
            r = a.cur(pend)
            jd = self.jdata(st, r)
            j = z3.Int('j!m')
            imp(job, z3.And(self.complete(st, r), ln == jd['len'], z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), sel_leaf(d['arr'], j) == jd['arr'][j]))), 'the message sent to a worker is the content of the job assigned to it', ('C12', 'C02', 'C08'))
            upd('pend', job, num(0))
            upd('nWk', job, g('nWk') + 1)
        # status notifier
        c = isk(KEYS)
        if not z3.is_false(c):
            err = z3.And(ln == 4, f(0) == L('type'), f(1) == L('error'), f(2) == L('message'))
            stt = z3.And(f(0) == L('type'), f(1) == L('job-status'), f(2) == L('id'), f(4) == L('status'))
            okm = z3.And(ln == 6, stt, f(5) == L('OK'))
            flm = z3.And(ln == 8, stt, f(5) == L('FAILED'), f(6) == L('message'))
            err, okm, flm = simp(err), simp(okm), simp(flm)
            imp(c, z3.Or(err, okm, flm), 'notifications of the frontend are an error, or the status OK or FAILED of a job', ('C07', 'C18'))
            term = simp(z3.And(c, z3.Or(okm, flm)))
            if not z3.is_false(term):
                r = z3.Int('r!m')
                h0 = self.held0
                old = g('rep')
                imp(term, z3.Exists([r], z3.And(h0[r], self.jid(self.st0, r) == f(3), z3.Not(old[r]))), 'a final status is reported for a job of the broker that has none yet', ('C07', 'C01'))
                new = fresh_const(BA, 'rep')
                st.pc.append(z3.ForAll([r], new[r] == z3.Or(old[r], z3.And(term, h0[r], self.jid(self.st0, r) == f(3))), patterns=[new[r]] + ([old[r]] if z3.is_const(old) else []) + [h0[r]]))
                e.gset(st, 'rep', new)
                self.after_term(st, term, f(3), n)
                okc = simp(z3.And(c, okm))
                if not z3.is_false(okc):
                    imp(okc, z3.And(self.m['key'] == L(KEYW), self.cmd == L('done'), self.ok), 'success is reported only for a successful result of the worker processing the job', ('C07',))
                upd('nOK', okc, g('nOK') + 1)
                upd('nFail', simp(z3.And(c, flm)), g('nFail') + 1)
                upd('lastid', term, f(3))
                upd('lastmsg', simp(z3.And(c, flm)), f(7))
            upd('nErr', simp(z3.And(c, err)), g('nErr') + 1)
        # monitor
        c = isk(KEYM)
        if not z3.is_false(c):
            imp(c, idn == self.mon_ident(), 'monitor messages carry the identity of the monitor', ('C20',))
            upd('nMon', c, g('nMon') + 1)
            upd('lastmon', c, f(0))
            if not self.progress:
                two = z3.And(ln == 2, z3.Or(f(1) == L('FAILED'), f(1) == L('ABORTED')))
                imp(c, two, 'the monitor is told FAILED or ABORTED with a job id', ('C20',))
                r = z3.Int('r!m')
                if self.track:
                    imp(c, z3.Exists([r], z3.And(self.held0[r], self.jid(self.st0, r) == f(0))), 'the monitor is told about jobs of the broker only', ('C20',))
                for gk, word in (('mF', 'FAILED'), ('mA', 'ABORTED')):
                    cc = simp(z3.And(c, f(1) == L(word)))
                    if z3.is_false(cc):
                        continue
                    old = g(gk)
                    new = fresh_const(BA, gk)
                    cond = z3.And(cc, self.held0[r], self.jid(self.st0, r) == f(0))
                    imp(z3.And(cc, self.held0_any(f(0))), z3.ForAll([r], z3.Implies(cond, z3.Not(old[r]))), 'the monitor is told %s once' % word, ('C20',))
                    st.pc.append(z3.ForAll([r], new[r] == z3.Or(old[r], cond), patterns=[new[r], self.held0[r]] + ([old[r]] if z3.is_const(old) else [])))
                    e.gset(st, gk, new)
        return [(st, Val(VOID, num(0)))]

    track = False
    def after_term(self, st, term, idt, n):
        pass

    def held0_any(self, idt):
        return z3.BoolVal(True)

    def mon_ident(self):
        return lit('recodex-monitor')

    # ---------------------------------------------------------------- one run
    def start(self, key, cmd):
        """Assume the invariant and an arbitrary message of the given kind (cmd None: any other command)."""
        e, st = self.e, self.st
        self.m = m = fresh(e.T.shape(MC), 'msg')
        self.dn = d = m['data']
        e.assume(st, z3.And(d['len'] >= 0, d['len'] < 2 ** 60))
        self.f = lambda i: d['arr'][num(i) if isinstance(i, int) else i]
        self.progress = key == KEYW and cmd == 'progress'
        self.cname = cmd
        if key is not None:
            m['key'] = lit(key)
        else:
            for k in (KEYW, KEYC, KEYT):
                e.assume(st, m['key'] != lit(k))
        self.cmd = self.f(0)
        if cmd == '':
            e.assume(st, d['len'] == 0)
        elif key in (KEYW, KEYC):
            e.assume(st, d['len'] >= 1)
            if cmd is not None:
                core.KNOWN.append((d['arr'], 0, lit(cmd)))
                e.assume(st, d['arr'][0] == lit(cmd))
                self.dn = d
                self.f = lambda i: sel_leaf(d['arr'], num(i) if isinstance(i, int) else i)
                self.cmd = lit(cmd)
            else:
                for c in (('init', 'done', 'ping', 'progress') if key == KEYW else ('eval', 'get-runtime-stats', 'freeze', 'unfreeze')):
                    e.assume(st, self.f(0) != lit(c))
        self.a = a = qabs(e, st)
        for f in absinv(e, st, a):
            e.assume(st, f)
        for _, _, f in self.inv(st, False):
            e.assume(st, f)
        w, r = z3.Int('w!s'), z3.Int('r!s')
        # jobs held when the message arrives
        self.held0 = h0 = z3.Const('held0', BA)
        e.assume(st, z3.ForAll([r], h0[r] == a.held(r), patterns=[h0[r]]))
        e.assume(st, z3.ForAll([r], z3.Implies(a.Q(r), h0[r]), patterns=[a.Q(r)]))
        e.assume(st, z3.ForAll([w], z3.Implies(z3.And(a.W(w), a.cur(w) != 0), h0[a.cur(w)]), patterns=[a.cur(w)]))
        self.st0 = st.copy()
        r2 = z3.Int('r2!s')
        e.assume(st, z3.ForAll([r, r2], z3.Implies(z3.And(h0[r], h0[r2], self.jid(st, r) == self.jid(st, r2)), r == r2), patterns=[z3.MultiPattern(h0[r], h0[r2])]))
        e.assumptions.add('clients give different ids to jobs that are in the broker at the same time')
        # the registered worker that sent the message, if any
        self.snd = snd = z3.Int('sender')
        ident = lambda x: self.ident(st, x)
        e.assume(st, z3.Or(snd == 0, z3.And(a.W(snd), ident(snd) == m['identity'])))
        e.assume(st, z3.Implies(snd == 0, z3.ForAll([w], z3.Implies(a.W(w), ident(w) != m['identity']), patterns=[a.W(w)])))
        e.assume(st, z3.ForAll([w], z3.Implies(z3.And(a.W(w), ident(w) == m['identity']), w == snd), patterns=[a.W(w)]))
        c0 = a.cur(snd)
        self.c0 = c0
        valid = z3.And(snd != 0, d['len'] >= 3, c0 != 0, self.f(1) == self.jid(st, c0))
        self.ok = z3.And(valid, self.f(2) == lit('OK'))
        self.ie = z3.And(valid, self.f(2) == lit('INTERNAL_ERROR'), d['len'] == 4)
        self.fl = z3.And(valid, self.f(2) == lit('FAILED'), d['len'] == 4)
        # the empty frame that ends the headers (of an evaluation request or a registration)
        j = z3.Int('j!s')
        self.wf, self.kd = z3.Bool('wellformed'), z3.Int('delimiter')
        e.assume(st, z3.Implies(self.wf, z3.And(2 <= self.kd, self.kd < d['len'], self.f(self.kd) == lit(''))))
        e.assume(st, z3.Implies(z3.Not(self.wf), self.kd == d['len']))
        e.assume(st, z3.ForAll([j], z3.Implies(z3.And(2 <= j, j < self.kd), self.f(j) != lit('')), patterns=[self.f(j)]))
        if cmd in ('eval', 'init'):
            e.loop_specs.append(self.loop_spec)
            e.axioms.append(LOOKAX)
        self.st0 = st.copy()
        e.obligations.append(Obligation('the precondition is satisfiable', ('VAC',), list(st.pc), z3.BoolVal(False), '', e.name, 'vacuity'))

    def call(self):
        e, st = self.e, self.st
        ds = [d for d in self.prog.find('broker_handler::on_request') if self.prog.body(d) is not None]
        if not ds:
            raise Unsupported('broker_handler::on_request not found')
        self.entry = ds[0]
        mv = e.newvar(st, MC, self.m, 'message')
        cb = Val(FUN, Closure(py=self.respond, name='respond'))
        cbv = e.newvar(st, FUN, e.closure_id(cb.p), 'respond')
        return e.call_vals(st, ds[0], self.this, [mv, cbv], None)

    def run(self, key, cmd):
        e = self.e
        self.start(key, cmd)
        res = self.call()
        n = 0
        for s, v in res:
            if s.flow is not None:
                e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves the message handler' % (s.flow[1],), ('C13',), None, 'safety')
                continue
            n += 1
            self.post(s, key, cmd)
        if n == 0:
            e.oblige(self.st0, z3.BoolVal(False), 'the handler returns', ('C13',), None, 'post')
        return e

    # ---------------------------------------------------------------- postconditions
    def ob(self, s, name, tags, f, extra=()):
        """One obligation per conjunct; leading universal quantifiers become constants."""
        e = self.e
        base = list(s.pc)
        todo = [(f, list(extra))]
        while todo:
            g, hyp = todo.pop(0)
            if z3.is_and(g):
                todo = [(x, hyp) for x in g.children()] + todo
                continue
            s2 = s.copy()
            s2.pc = base + list(hyp)
            sks = []
            if z3.is_quantifier(g) and g.is_forall():
                sks = [fresh_const(g.var_sort(i), 'sk') for i in range(g.num_vars())]
                g = z3.substitute_vars(g.body(), *reversed(sks))
            for c in sks:
                for q in self.hints(s, c) + ground_selects(g):
                    s2.pc.append(z3.Function('look_%s' % str(q.sort()), q.sort(), Bool)(q))
            e.oblige(s2, g, name, tags, self.entry, 'post')

    def hints(self, s, c):
        a, b = self.a, qabs(self.e, s)
        if c.sort() != Int:
            return []
        r0 = self.reg0
        out = [a.W(c), b.W(c), a.cur(c), b.cur(c), a.Q(c), b.Q(c), self.held0[c]]
        wa, wb = self.reg(self.st0)['arr'], self.reg(s)['arr']
        n1 = self.reg(s)['len']
        out += [wa[c], wa[c + 1], wb[c], wb[n1 - 1], a.W(wa[c]), a.W(wa[c + 1])]
        return out

    def post(self, s, key, cmd):
        e, m, a, st0 = self.e, self.m, self.a, self.st0
        self.reg0 = self.reg(st0)
        b = qabs(e, s)
        w, r = z3.Int('w!p'), z3.Int('r!p')
        g = lambda k: e.gget(s, k)
        al0 = e.gget(st0, 'alloc')
        ob = lambda name, tags, f, extra=(): self.ob(s, name, tags, f, extra)
        # jobs held afterwards
        h1 = fresh_const(BA, 'held1')
        s.pc.append(z3.ForAll([r], h1[r] == b.held(r), patterns=[h1[r]]))
        s.pc.append(z3.ForAll([r], z3.Implies(b.Q(r), h1[r]), patterns=[b.Q(r)]))
        s.pc.append(z3.ForAll([w], z3.Implies(z3.And(b.W(w), b.cur(w) != 0), h1[b.cur(w)]), patterns=[b.cur(w)]))
        h0 = self.held0
        self.h1 = h1
        rep, mF, mA = g('rep'), g('mF'), g('mA')
        # --- what holds after every message
        ob('every assigned job has been sent', ('C01', 'C02', 'C10'), g('pend') == 0)
        ob('no job is lost: it is still held or its final status was reported', ('C01',), z3.ForAll([r], z3.Implies(h0[r], z3.Or(h1[r], rep[r])), patterns=[h0[r]]), [self.hh(r)] if False else ())
        ob('a job whose final status was reported is not held any more', ('C07', 'C01'), z3.ForAll([r], z3.Implies(rep[r], z3.Not(h1[r])), patterns=[rep[r]]))
        for nm, tags, f in self.inv(s, True):
            ob('after the message: ' + nm, tags, f)
        for k, t in self.fixed:
            x0, x1 = self.fld(st0, (k, t)), self.fld(s, (k, t))
            if not same(x0, x1):
                ob('the configuration of the handler (%s) does not change' % k, ('C13', 'C15'), z3.And(*[p == q for (_, p), (_, q) in zip(leaves(x0), leaves(x1))]))
        for fld_, tags in (('headers', ('C03', 'C12')), ('data', ('C12', 'C08'))):
            x0, x1 = e.heap_of(st0, e.tkey(RQ))[fld_], e.heap_of(s, e.tkey(RQ))[fld_]
            if not same(x0, x1):
                ob('jobs keep their ' + fld_, tags, z3.ForAll([r], z3.Implies(h0[r], z3.And(*[p[r] == q[r] for (_, p), (_, q) in zip(leaves(x0), leaves(x1))]))))
        for k in ('identity', 'hwgroup', 'description') + tuple(k for k, t, _ in e.T.own_fields('worker') if t == ('mmap', STR, STR)):
            x0, x1 = e.heap_of(st0, e.tkey(WK))[k], e.heap_of(s, e.tkey(WK))[k]
            if not same(x0, x1):
                ob('registered workers keep their %s' % k, ('C19', 'C03'), z3.ForAll([w], z3.Implies(a.W(w), z3.And(*[p[w] == q[w] for (_, p), (_, q) in zip(leaves(x0), leaves(x1))]))))
        # --- frames
        if not (key == KEYC and cmd in ('freeze', 'unfreeze')):
            ob('the frozen flag is unchanged', ('C06',), self.frozen(s) == self.frozen(st0))
        if key in (KEYW, KEYT, None) or cmd in ('', None):
            ob('no client is sent anything', ('C05',), g('nCl') == 0)
        if not (key == KEYC and cmd == 'eval'):
            ob('no job is created', ('C05', 'C06', 'C02'), z3.ForAll([r], z3.Implies(h1[r], z3.Or(h0[r], self.declared(s, r, key, cmd))), patterns=[h1[r]]))
        if key != KEYT and not (key == KEYW and cmd == 'init'):
            ob('the registered workers are unchanged', ('C19', 'C09'), z3.ForAll([w], a.W(w) == b.W(w)))
        self.stats_post(s, key, cmd, ob)
        self.live_post(s, key, cmd, ob, a, b)
        getattr(self, 'post_' + {KEYW: 'w_', KEYC: 'c_', KEYT: 't_', None: 'x_'}[key] + {None: 'other', '': 'other'}.get(cmd, cmd or '').replace('-', '_'))(s, ob, g, a, b, st0)

    def declared(self, s, r, key, cmd):
        return z3.BoolVal(False) if not (key == KEYW and cmd == 'init') else z3.And(r > self.e.gget(self.st0, 'alloc'), z3.Not(self.complete(s, r)))

    def same_q(self, s, ob, tags, name):
        a, b = self.a, qabs(self.e, s)
        w, r = z3.Int('w!p'), z3.Int('r!p')
        return z3.And(z3.ForAll([w], z3.Implies(a.W(w), b.cur(w) == a.cur(w)), patterns=[b.cur(w), a.cur(w)]), z3.ForAll([r], b.Q(r) == a.Q(r), patterns=[b.Q(r)]))

    def same_fc(self, s, but=None):
        r = z3.Int('r!p')
        x0, x1 = self.e.heap_of(self.st0, self.e.tkey(RQ))['failure_count'], self.e.heap_of(s, self.e.tkey(RQ))['failure_count']
        if same(x0, x1):
            return z3.BoolVal(True)
        c = self.held0[r] if but is None else z3.And(self.held0[r], r != but)
        return z3.ForAll([r], z3.Implies(c, x0[r] == x1[r]), patterns=[self.held0[r]])

    def stats_post(self, s, key, cmd, ob):
        if key == KEYW and cmd == 'done':
            ok, bad = self.ok, z3.Or(self.ie, self.fl)
        else:
            ok = bad = z3.BoolVal(False)
        st0 = self.st0
        lim = z3.And(*[z3.And(self.stat(st0, k) >= 0, self.stat(st0, k) < 2 ** 60) for k in ('evaluated-jobs', 'failed-jobs')])
        ob('the number of evaluated jobs counts accepted successful results', ('C16',), self.stat(s, 'evaluated-jobs') == self.stat(st0, 'evaluated-jobs') + z3.If(ok, 1, 0), [lim])
        ob('the number of failed jobs counts accepted failure results', ('C16',), self.stat(s, 'failed-jobs') == self.stat(st0, 'failed-jobs') + z3.If(bad, 1, 0), [lim])
        if key != KEYT:
            for k in ('queued-jobs', 'worker-count', 'idle-worker-count', 'jobs-in-progress'):
                ob('the statistic %s changes only with the timer' % k, ('C16',), self.stat(s, k) == self.stat(st0, k))
            m0, m1 = self.fld(st0, self.stats_f), self.fld(s, self.stats_f)
            if not same(m0['dom'], m1['dom']):
                k = z3.Const('k!p', Str)
                ob('no other statistics appear', ('C16',), z3.ForAll([k], m1['dom'][k] == z3.Or(m0['dom'][k], k == lit('evaluated-jobs'), k == lit('failed-jobs'))), [z3.And(m0['dom'][lit('evaluated-jobs')], m0['dom'][lit('failed-jobs')])])

    def live_post(self, s, key, cmd, ob, a, b):
        """Any message of a registered worker restarts its count and nothing else does."""
        if key == KEYT:
            return
        w = z3.Int('w!p')
        l0, l1 = self.wfield(self.st0, 'liveness', w), self.wfield(s, 'liveness', w)
        if key == KEYW and cmd != '':
            snd = self.snd
            if cmd != 'init':
                ob('a message restarts the count of its sender', ('C09',), z3.Implies(snd != 0, z3.And(self.wfield(s, 'liveness', snd) == self.max_live, self.timer(s, snd) == 0)))
        else:
            snd = num(0)
        ob('the liveness of other workers is unchanged', ('C09',), z3.ForAll([w], z3.Implies(z3.And(a.W(w), b.W(w), w != snd), z3.And(l1 == l0, self.timer(s, w) == self.timer(self.st0, w)))))

    def quiet(self, s, ob, g, tags, what, extra=()):
        ob(what + ': nothing is sent', tags, self.outlen(s) == 0, extra)
        ob(what + ': no job or worker is affected', tags, z3.And(self.same_q(s, ob, tags, what), self.same_fc(s)), extra)

    def outlen(self, s):
        return self.e.gget(s, 'out')['len']
    def out(self, s, i):
        return sel(self.e.gget(s, 'out')['arr'], num(i) if isinstance(i, int) else i)
    def is_msg(self, o, key, idn, frames):
        return z3.And(o['key'] == lit(key), o['identity'] == idn, o['data']['len'] == len(frames), *[o['data']['arr'][num(i)] == (lit(x) if isinstance(x, str) else x) for i, x in enumerate(frames) if x is not None])

    # workers
    def post_w_other(self, s, ob, g, a, b, st0):
        self.quiet(s, ob, g, ('C13', 'C07'), 'an unknown message of a worker is ignored')
    def post_w_ping(self, s, ob, g, a, b, st0):
        i = self.m['identity']
        ob('a ping gets exactly one answer', ('C19',), self.outlen(s) == 1)
        ob('a ping is answered with pong to a registered worker and with intro otherwise', ('C19',), z3.If(self.snd != 0, self.is_msg(self.out(s, 0), KEYW, i, ['pong']), self.is_msg(self.out(s, 0), KEYW, i, ['intro'])))
        ob('a ping affects no job', ('C07', 'C01', 'C02'), z3.And(self.same_q(s, ob, (), ''), self.same_fc(s)))
    def post_w_progress(self, s, ob, g, a, b, st0):
        o = self.out(s, 0)
        j = z3.Int('j!p')
        ob('a progress message is forwarded exactly once', ('C20',), self.outlen(s) == 1)
        ob('a progress message is forwarded to the monitor with all its arguments', ('C20',), z3.And(o['key'] == lit(KEYM), o['data']['len'] == self.dn['len'] - 1, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.dn['len'] - 1), o['data']['arr'][j] == self.dn['arr'][j + 1]))))
        ob('a progress message affects no job', ('C07', 'C01', 'C02'), z3.And(self.same_q(s, ob, (), ''), self.same_fc(s)))
    def post_w_done(self, s, ob, g, a, b, st0):
        ok, ie, fl, c0 = self.ok, self.ie, self.fl, self.c0
        h1 = self.h1
        fc0, fc1 = self.fc(st0, c0), self.fc(s, c0)
        comp = self.complete(st0, c0)
        none = z3.Not(z3.Or(ok, ie, fl))
        self.quiet(s, ob, g, ('C07',), 'an invalid result is ignored', [none])
        ob('a successful result is reported exactly once as OK with its job id', ('C07',), z3.And(g('nOK') == 1, g('nFail') == 0, g('lastid') == self.f(1)), [ok])
        ob('a failure of the job is reported exactly once as FAILED with the message of the worker', ('C07',), z3.And(g('nOK') == 0, g('nFail') == 1, g('lastid') == self.f(1), g('lastmsg') == self.f(3)), [fl])
        ob('a finished job is over', ('C07', 'C01', 'C02'), z3.Not(h1[c0]), [z3.Or(ok, fl)])
        ob('an internal failure is no success', ('C07',), g('nOK') == 0, [ie])
        ob('an internal failure counts as one failed attempt', ('C08',), fc1 == fc0 + 1, [ie])
        ob('other jobs are not charged with a failed attempt', ('C08',), self.same_fc(s, c0))
        ob('a job of unknown content is reported FAILED once', ('C08',), z3.And(g('nFail') == 1, g('lastid') == self.f(1), z3.Not(h1[c0])), [ie, z3.Not(comp)])
        ob('a job that failed too often is reported FAILED once and given up', ('C08',), z3.And(g('nFail') == 1, g('lastid') == self.f(1), z3.Not(h1[c0])), [ie, comp, fc0 + 1 >= self.max_fail])
        ob('a job that may be retried is offered to the workers again', ('C08', 'C01'), z3.And(h1[c0], g('nFail') == 0), [ie, comp, fc0 + 1 < self.max_fail])
        give = z3.And(ie, comp, fc0 + 1 >= self.max_fail)
        ob('the monitor is told when the broker gives a job up, and nothing else', ('C20', 'C08'), z3.And(z3.If(give, z3.And(g('nMon') == 1, g('mF')[c0]), g('nMon') == 0)))
        ob('no error is reported', ('C07',), g('nErr') == 0)
    def post_w_init(self, s, ob, g, a, b, st0):
        pass
    # clients
    def post_c_other(self, s, ob, g, a, b, st0):
        self.quiet(s, ob, g, ('C05', 'C13'), 'an unknown message of a client is ignored')
    def post_x_other(self, s, ob, g, a, b, st0):
        self.quiet(s, ob, g, ('C15', 'C13'), 'a message with an unknown key is ignored')
    def post_c_freeze(self, s, ob, g, a, b, st0, val=True):
        ob('the frozen flag is set by freeze and cleared by unfreeze', ('C06',), self.frozen(s) == z3.BoolVal(val))
        ob('freeze and unfreeze get exactly one reply', ('C05',), z3.And(self.outlen(s) == 1, self.is_msg(self.out(s, 0), KEYC, self.m['identity'], ['ack'])))
        ob('freeze and unfreeze affect no job', ('C06',), z3.And(self.same_q(s, ob, (), ''), self.same_fc(s)))
    def post_c_unfreeze(self, s, ob, g, a, b, st0):
        self.post_c_freeze(s, ob, g, a, b, st0, False)
    def post_c_get_runtime_stats(self, s, ob, g, a, b, st0):
        o = self.out(s, 0)
        ob('a statistics request gets exactly one reply', ('C05', 'C16'), z3.And(self.outlen(s) == 1, o['key'] == lit(KEYC), o['identity'] == self.m['identity']))
        ob('a statistics request affects no job', ('C05',), z3.And(self.same_q(s, ob, (), ''), self.same_fc(s)))
    def post_t_(self, s, ob, g, a, b, st0):
        pass
    # headers: frame j is name=value, split at the first equals sign
    def eqpos(self, j):
        return sfind(self.f(j), lit('='), num(0))
    def has_eq(self, j):
        return self.eqpos(j) != NPOS
    def hname(self, j):
        return ssub(self.f(j), num(0), self.eqpos(j))
    def hvalue(self, j):
        return ssub(self.f(j), self.eqpos(j) + 1, slen(self.f(j)))
    def is_meta(self, x):
        return z3.And(slen(x) >= 5, ssub(x, num(0), num(5)) == lit('meta.'))
    def hdr_forms(self, h, upto):
        """The container h holds exactly the headers of the frames before upto (as a set)."""
        j, i = z3.Int('j!h'), z3.Int('i!h')
        fi, se = h['arr']['first'], h['arr']['second']
        use = (lambda j: z3.And(self.has_eq(j), z3.Not(self.is_meta(self.hname(j))))) if self.cname == 'eval' else self.has_eq
        mj, mi = LOOKJ(j), fi[i]
        return (z3.ForAll([j], z3.Implies(z3.And(mj, 2 <= j, j < upto, use(j)), z3.Exists([i], z3.And(0 <= i, i < h['len'], fi[i] == self.hname(j), se[i] == self.hvalue(j)))), patterns=[mj]),
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < h['len']), z3.Exists([j], z3.And(LOOKE(j), 2 <= j, j < upto, z3.Or(z3.Not(self.has_eq(j)), z3.And(use(j), fi[i] == self.hname(j), se[i] == self.hvalue(j)))), patterns=[LOOKE(j)])), patterns=[mi]))
    def hdr_ok(self, h, ob, tags, extra=()):
        f1, f2 = self.hdr_forms(h, self.kd)
        ob('every header of the message is taken over, split at the first equals sign', tags, f1, extra)
        ob('there are no other headers than those of the message', tags, f2, extra)
    def loop_spec(self, e, n, entry, h, cursors, W, backs, cands):
        """Invariants of a loop that collects the headers of the message."""
        out = []
        ks = []
        for r, k, fs in W:
            if r == 'var' and not fs or fs == ('len',) or fs == ('arr',):
                p = h.vars.get(k)
                if isinstance(p, dict) and set(p) == {'len', 'arr'} and isinstance(p['arr'], dict) and set(p['arr']) == {'first', 'second'} and k not in ks:
                    x = p['arr']
                    if all(isinstance(x[q], z3.ExprRef) and x[q].sort() == z3.ArraySort(Int, Str) for q in x):
                        ks.append(k)
        for c in cursors:
            out.append(loops.Cand('not beyond the end of the headers', lambda s, c=c: c.cur(s) <= self.kd))
            if ks:
                out.append(loops.Cand('look', lambda s, c=c: LOOKE(c.cur(s))))
            for k in ks:
                out.append(loops.Cand('headers of earlier frames are in %s' % k, lambda s, c=c, k=k: self.hdr_forms(s.vars[k], c.cur(s))[0]))
                out.append(loops.Cand('%s holds only headers of earlier frames' % k, lambda s, c=c, k=k: self.hdr_forms(s.vars[k], c.cur(s))[1]))
        for c in cands:
            if ks and out and (c.name in ['origin of elements added to %s' % k for k in ks] or c.name == 'effects of earlier iterations'):
                c.unless = tuple(q.name for q in out[2:4])
        return out

    def post_c_eval(self, s, ob, g, a, b, st0):
        wf, kd, dn = self.wf, self.kd, self.dn
        fz = self.frozen(st0)
        h0, h1 = self.held0, self.h1
        r, j = z3.Int('r!p'), z3.Int('j!p')
        idn = self.f(1)
        q = g('enq')
        live = z3.And(wf, z3.Not(fz))
        ob('an evaluation request is acknowledged', ('C05',), g('nCl') >= 1)
        ob('a truncated evaluation request gets no verdict', ('C05', 'C13'), g('nCl') == 1, [z3.Not(wf)])
        ob('a well-formed evaluation request gets exactly one verdict', ('C05',), z3.And(g('nCl') == 2, g('verdict') >= 1), [wf])
        none = z3.And(g('nEnq') == 0, g('nWk') == 0, self.same_q(s, ob, (), ''), self.same_fc(s))
        ob('a truncated evaluation request creates no job', ('C05', 'C13'), none, [z3.Not(wf)])
        ob('a frozen broker rejects evaluation requests and takes no job', ('C06',), z3.And(g('verdict') == 2, none), [wf, fz])
        ob('nothing is said to the monitor about a request that is truncated or rejected by a frozen broker', ('C20',), g('nMon') == 0, [z3.Not(live)])
        ob('an unfrozen broker offers the job to the workers once', ('C06', 'C05', 'C02', 'C03'), g('nEnq') == 1, [live])
        ob('the verdict is accept exactly if the job was taken over', ('C05', 'C06', 'C03'), g('verdict') == z3.If(g('enqok'), 1, 2), [live])
        ob('an accepted job is held by the broker', ('C01', 'C05'), h1[q], [live, g('verdict') == 1])
        ob('a rejected job is not held by the broker', ('C05', 'C02'), z3.Not(h1[q]), [live, g('verdict') == 2])
        ob('no other job is created', ('C05', 'C02', 'C06'), z3.ForAll([r], z3.Implies(h1[r], z3.Or(h0[r], z3.And(live, r == q))), patterns=[h1[r]]))
        ob('the monitor is told FAILED exactly if there is no capable worker', ('C20',), z3.If(g('enqok'), g('nMon') == 0, z3.And(g('nMon') == 1, g('lastmon') == idn)), [live])
        ob('the frontend is told nothing about a new job', ('C07', 'C01'), z3.And(g('nOK') == 0, g('nFail') == 0, g('nErr') == 0))
        ob('other jobs are not charged with a failed attempt', ('C08',), self.same_fc(s))
        new = [live]
        ob('the job is a new one without failures, with the id given by the client', ('C12', 'C08'), z3.And(q > self.e.gget(st0, 'alloc'), self.complete(s, q), self.jid(s, q) == idn, self.fc(s, q) == 0), new)
        pd = self.jdata(s, q)
        ob('the content of the job is the command, the id and the frames after the empty one', ('C12',), z3.And(pd['len'] == 2 + dn['len'] - kd - 1, pd['arr'][0] == lit('eval'), pd['arr'][1] == idn,
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < dn['len'] - kd - 1), pd['arr'][2 + j] == self.f(kd + 1 + j)))), new)
        self.hdr_ok(sel(self.e.heap_of(s, self.e.tkey(RQ))['headers'], q), ob, ('C12', 'C03'), new)

def verify(prog, key, cmd):
    h = Handler(prog, 'broker_handler.%s.%s' % (key, 'empty' if cmd == '' else cmd or 'other'))
    return h.run(key, cmd)
