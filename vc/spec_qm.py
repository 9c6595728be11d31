"""Contract of queue_manager_interface, its two implementations, and the contract as the handler sees it.

Abstract state of a queue manager (what the interface promises; every clause is stated over it):
  W(w)    w is registered            cur(w)   request being processed by w (0 = idle)
  Q(r)    r is waiting               E(w,r)   r waits for w: it is what w may be given when it becomes free
  ord(r)  position in the order of arrival of a waiting request
"""
import z3
from core import *
import core
from engine import Engine, Val, LV, St, Obligation

WK = ('cls', 'worker')
RQ = ('cls', 'request')
IA = z3.ArraySort(Int, Int)
BA = z3.ArraySort(Int, Bool)
SA = z3.ArraySort(Int, Str)

# capability predicate: the result of worker::check_headers (proved to be a function of the worker and
# of the header set in spec_worker; the worker's capabilities never change after construction)
CHf = z3.Function('CH', Int, Int, SA, SA, Bool)
CH1 = z3.Function('CH1', Int, Str, Str, Bool)

def ch_payload(w, h):
    return CHf(w, h['len'], h['arr']['first'], h['arr']['second'])

def CH(e, st, w, r):
    """Worker w satisfies all headers of request r."""
    h = e.heap_of(st, RQ)['headers']
    return ch_payload(w, sel(h, r))

def c_check_headers(e, st, this, vals, n):
    w = this.root[2]
    h = e.load(st, vals[0]).p
    return [(st, Val(BOOL, ch_payload(w, h)))]

def c_check_header(e, st, this, vals, n):
    w = this.root[2]
    a, b = e.load(st, vals[0]).p, e.load(st, vals[1]).p
    if not getattr(e, '_ch1', False):
        e._ch1 = True
        w_, l, f, s = z3.Int('w'), z3.Int('l'), z3.Const('f', SA), z3.Const('s', SA)
        j = z3.Int('j')
        e.axioms.append(z3.ForAll([w_, l, f, s], CHf(w_, l, f, s) == z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l), CH1(w_, f[j], s[j])), patterns=[f[j]]), patterns=[CHf(w_, l, f, s)]))
    return [(st, Val(BOOL, CH1(w, a, b)))]

def worker_contracts(e):
    e.contracts['worker::check_headers'] = c_check_headers
    e.contracts['worker::check_header'] = c_check_header

class Abs:
    """An abstract queue-manager state; the fields are Python functions producing formulas."""
    def __init__(self, W, cur, Q, E, ord_):
        self.W, self.cur, self.Q, self.E, self.ord = W, cur, Q, E, ord_

# ------------------------------------------------------------------ the contract
def pre(op, a, x):
    """Preconditions: [(name, tags, formula)]; x: dict of argument terms, 'fresh' : request -> not held."""
    def held(r):
        w = z3.Int('w!h')
        return z3.Or(a.Q(r), z3.Exists([w], z3.And(a.W(w), a.cur(w) == r)))
    if op == 'add_worker':
        return [('the worker is not null', ('C13',), x['w'] != 0), ('the worker is not registered yet', ('C19', 'C02'), z3.Not(a.W(x['w']))),
                ('the current job is not held already', ('C02',), z3.Or(x['c'] == 0, z3.Not(held(x['c']))))]
    if op == 'enqueue_request':
        return [('the request is not null', ('C13',), x['r'] != 0), ('the request is not held already', ('C02',), z3.Not(held(x['r'])))]
    if op == 'assign_request':
        return [('the worker is registered', ('C01', 'C02'), a.W(x['w'])), ('the worker is free', ('C01', 'C02', 'C07'), a.cur(x['w']) == 0)]
    if op in ('worker_finished', 'worker_cancelled', 'get_current_request', 'worker_terminated'):
        return [('the worker is registered', ('C01', 'C02'), a.W(x['w']))]
    return []

def post(op, a, b, x, CHr, wv, rv):
    """Postconditions [(name, tags, formula)].  a/b: pre/post abstract state, x: arguments and results,
    CHr(w, r): capability, wv/rv: bound-variable terms."""
    out = []
    def c(name, tags, f, vs=None, pats=None):
        out.append((name, tags, f, vs or [], pats))
    w, r = wv, rv
    SET = ('C01', 'C02', 'C03')
    if op in ('enqueue_request', 'assign_request', 'worker_finished', 'worker_cancelled', 'get_current_request', 'get_queued_request_count'):
        c('the set of registered workers is unchanged', SET + ('C10', 'C09', 'C16'), b.W(w) == a.W(w), [w])
    if op in ('get_current_request', 'get_queued_request_count', 'worker_cancelled'):
        c('the waiting jobs are unchanged', SET, b.Q(r) == a.Q(r), [r])
        c('the jobs waiting for each worker are unchanged', ('C10', 'C11'), b.E(w, r) == a.E(w, r), [w, r])
    if op in ('get_current_request', 'get_queued_request_count'):
        c('current jobs are unchanged', SET, z3.Implies(a.W(w), b.cur(w) == a.cur(w)), [w])
    if op == 'get_current_request':
        c('returns the current job', ('C01', 'C02', 'C07', 'C13', 'C16'), x['ret'] == a.cur(x['w']))
    if op == 'worker_cancelled':
        c('returns the cancelled job', ('C01', 'C07', 'C13', 'C08'), x['ret'] == a.cur(x['w']))
        c('only the current job of the worker is released', SET, z3.Implies(a.W(w), b.cur(w) == z3.If(w == x['w'], num(0), a.cur(w))), [w])
    if op in ('assign_request', 'worker_finished'):
        R = x['ret']
        c('a returned job was waiting for the worker', ('C01', 'C02'), z3.Or(R == 0, a.Q(R)))
        c('a returned job was one of those the worker may be given', ('C10', 'C11'), z3.Or(R == 0, a.E(x['w'], R)))
        c('the worker satisfies the headers of the job it is given', ('C03',), z3.Or(R == 0, CHr(x['w'], R)))
        c('the returned job becomes the current job and no other current job changes', SET + ('C07',), z3.Implies(a.W(w), b.cur(w) == z3.If(w == x['w'], R, a.cur(w))), [w])
        c('exactly the returned job leaves the queue', SET, b.Q(r) == z3.And(a.Q(r), r != R), [r])
        c('the jobs waiting for each worker are unchanged but for the returned one', ('C10', 'C11'), b.E(w, r) == z3.And(a.E(w, r), r != R), [w, r])
        c('nothing is returned only if nothing waits for the worker', ('C10',), z3.Or(R != 0, z3.Not(a.E(x['w'], r))), [r])
        c('the returned job is the first one that arrived among those waiting for the worker', ('C11',), z3.Or(R == 0, z3.Implies(a.E(x['w'], r), a.ord(R) <= a.ord(r))), [r])
    if op == 'add_worker':
        R = x['ret']
        c('exactly the new worker becomes registered', SET + ('C10', 'C19'), b.W(w) == z3.Or(a.W(w), w == x['w']), [w])
        c('nothing is assigned to a worker that reports a current job', ('C02', 'C14'), z3.Or(x['c'] == 0, R == 0))
        c('a returned job was waiting', ('C01', 'C02'), z3.Or(R == 0, a.Q(R)))
        c('the worker satisfies the headers of the job it is given', ('C03',), z3.Or(R == 0, CHr(x['w'], R)))
        c('the current job of the new worker is the reported or returned one; no other changes', SET, z3.Implies(b.W(w), b.cur(w) == z3.If(w == x['w'], z3.If(x['c'] != 0, x['c'], R), a.cur(w))), [w])
        c('exactly the returned job leaves the queue', SET, b.Q(r) == z3.And(a.Q(r), r != R), [r])
        c('the jobs waiting for other workers are unchanged but for the returned one', ('C10', 'C11'), z3.Implies(w != x['w'], b.E(w, r) == z3.And(a.E(w, r), r != R)), [w, r])
        c('the new worker stays idle only if nothing waits for it', ('C10',), z3.Or(R != 0, x['c'] != 0, z3.Not(b.E(x['w'], r))), [r])
        c('the returned job is the first one that arrived among those the worker could be given', ('C11',), z3.Or(R == 0, z3.Implies(b.E(x['w'], r), a.ord(R) <= a.ord(r))), [r])
    if op == 'enqueue_request':
        A, B, R = x['assigned_to'], x['enqueued'], x['r']
        c('a job is assigned only to a registered idle worker', ('C01', 'C02'), z3.Or(A == 0, z3.And(B, a.W(A), a.cur(A) == 0)))
        c('the worker satisfies the headers of the job it is given', ('C03',), z3.Or(A == 0, CHr(A, R)))
        c('the job becomes the current job of the chosen worker and no other current job changes', SET + ('C07',), z3.Implies(a.W(w), b.cur(w) == z3.If(z3.And(w == A, A != 0), R, a.cur(w))), [w])
        c('the job waits exactly if it is accepted and not assigned; other waiting jobs stay', SET, b.Q(r) == z3.Or(a.Q(r), z3.And(r == R, B, A == 0)), [r])
        c('a job is turned away only if no registered worker satisfies its headers', ('C03',), z3.Or(B, z3.Implies(a.W(w), z3.Not(CHr(w, R)))), [w])
        c('the jobs waiting for each worker are unchanged but for the new one', ('C10', 'C11'), z3.Implies(r != R, b.E(w, r) == a.E(w, r)), [w, r])
        c('the new job waits for busy workers only', ('C10',), z3.Implies(z3.And(b.W(w), b.E(w, R)), a.cur(w) != 0), [w])
    if op == 'worker_terminated':
        v = x['vec']
        k, k2 = z3.Int('k!p'), z3.Int('k!p2')
        el = lambda i: v['arr'][i]
        rng = lambda i: z3.And(0 <= i, i < v['len'])
        gone = lambda q: z3.Or(z3.And(q == a.cur(x['w']), q != 0), z3.And(a.Q(q), z3.Not(b.Q(q))))
        c('exactly that worker is removed', SET + ('C10', 'C09'), b.W(w) == z3.And(a.W(w), w != x['w']), [w])
        c('the list of removed jobs exists', ('C13',), x['vecp'] != 0)
        if 'al' in x:
            c('the list of removed jobs is a new object', ('C01', 'C02'), x['vecp'] > x['al'])
        c('current jobs of other workers are unchanged', SET, z3.Implies(b.W(w), b.cur(w) == a.cur(w)), [w])
        c('no job starts waiting', SET, z3.Implies(b.Q(r), a.Q(r)), [r])
        c('only jobs that leave the queue manager are returned', ('C01', 'C02', 'C07', 'C13'), z3.Implies(rng(k), gone(el(k))), [k], [el(k)])
        c('every job that leaves the queue manager is returned', ('C01',), z3.Implies(gone(r), z3.Exists([k], z3.And(rng(k), el(k) == r))), [r])
        c('no job is returned twice', ('C02', 'C07'), z3.Implies(z3.And(rng(k), rng(k2), el(k) == el(k2)), k == k2), [k, k2])
        c('the jobs waiting for other workers are unchanged but for the returned ones', ('C10', 'C11'), z3.Implies(w != x['w'], b.E(w, r) == z3.And(a.E(w, r), b.Q(r))), [w, r])
    return out

OPS = {'add_worker': ('w', 'c'), 'assign_request': ('w',), 'worker_terminated': ('w',), 'enqueue_request': ('r',),
       'get_queued_request_count': (), 'get_current_request': ('w',), 'worker_finished': ('w',), 'worker_cancelled': ('w',)}
PTRT = {'w': ('ptr', WK), 'c': ('ptr', RQ), 'r': ('ptr', RQ)}

# ------------------------------------------------------------------ implementations
def find_field(e, cls, pred, what):
    fs = [(k, t) for k, t, f in e.T.own_fields(cls) if pred(t)]
    if len(fs) != 1:
        raise Unsupported('%s: field for %s not identified (%d candidates)' % (cls, what, len(fs)))
    return fs[0]

class Impl:
    def __init__(self, e, cls):
        self.e, self.cls = e, cls
        self.t = ('cls', cls)
        self.ref = z3.Int('this!qm')
        self.this = LV(('heap', e.tkey(self.t), self.ref), (), self.t)
    def fld(self, st, k, t):
        return self.e.load(st, self.this.f(k, t)).p

def isptr(t, c):
    return t[0] == 'ptr' and t[1] == ('cls', c)

class Single(Impl):
    name = 'single_queue_manager'
    def __init__(self, e, cls):
        super().__init__(e, cls)
        def isentry(t):
            return t[0] == 'vec' and t[1][0] in ('cls', 'struct')
        self.jobs = find_field(e, cls, isentry, 'waiting jobs')
        self.wj = find_field(e, cls, lambda t: t[0] == 'map' and isptr(t[1], 'worker') and isptr(t[2], 'request'), 'current jobs')
        self.ws = find_field(e, cls, lambda t: t[0] == 'vec' and isptr(t[1], 'worker'), 'workers')
        et = self.jobs[1][1]
        fs = [(k, t) for k, t, _ in e.T.own_fields(et[1])] if et[0] == 'cls' else list(et[1])
        self.rk = [k for k, t in fs if isptr(t, 'request')]
        self.tk = [k for k, t in fs if t[0] == 'int']
        if len(self.rk) != 1 or len(self.tk) != 1:
            raise Unsupported('fields of a queue entry not identified')
        self.rk, self.tk = self.rk[0], self.tk[0]
    def view(self, st, tag, ordf):
        j, m, ws = self.fld(st, *self.jobs), self.fld(st, *self.wj), self.fld(st, *self.ws)
        names = []
        j, m, ws = [named(y, None, 'n' + tag, names) for y in (j, m, ws)]
        Qs = fresh_const(BA, 'Q' + tag)
        v = Abs(lambda w: m['dom'][w], lambda w: m['val'][w], lambda r: Qs[r], None, ordf)
        v.E = lambda w, r: z3.And(v.W(w), v.Q(r), CH(self.e, st, w, r))
        v.j, v.m, v.ws = j, m, ws
        v.rq, v.at = j['arr'][self.rk], j['arr'][self.tk]
        pos = fresh_const(IA, 'pos' + tag)
        v.pos = pos
        i, r = z3.Int('i!v'), z3.Int('r!v')
        # definition of Q as the set of requests in the vector
        v.defs = names + [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < j['len']), Qs[v.rq[i]]), patterns=[v.rq[i]]),
                  z3.ForAll([r], z3.Implies(Qs[r], z3.And(0 <= pos[r], pos[r] < j['len'], v.rq[pos[r]] == r)), patterns=[Qs[r]]),
                  j['len'] >= 0, j['len'] < 2 ** 60, ws['len'] >= 0, ws['len'] < 2 ** 60]
        return v
    def rep(self, st, v, post):
        """Representation invariant: [(name, tags, formula)]."""
        i, k, w, w2, r = z3.Int('i!v'), z3.Int('k!v'), z3.Int('w!v'), z3.Int('w2!v'), z3.Int('r!v')
        ws, m, j = v.ws, v.m, v.j
        inr = lambda i, l: z3.And(0 <= i, i < l)
        wpos, holder, capw = (fresh_const(IA, 'wpos'), fresh_const(IA, 'holder'), fresh_const(IA, 'capw'))
        v.wpos = wpos
        out = []
        out.append(('listed workers have a job slot and are distinct', ('C02', 'C03', 'C10'), z3.And(
            z3.ForAll([i], z3.Implies(inr(i, ws['len']), z3.And(m['dom'][ws['arr'][i]], ws['arr'][i] != 0)), patterns=[ws['arr'][i]]),
            z3.ForAll([i, k], z3.Implies(z3.And(inr(i, ws['len']), inr(k, ws['len']), i < k), ws['arr'][i] != ws['arr'][k])))))
        if post:
            out.append(('every worker with a job slot is listed', ('C02', 'C03', 'C10'), z3.ForAll([w], z3.Implies(m['dom'][w], z3.Exists([i], z3.And(inr(i, ws['len']), ws['arr'][i] == w))))))
        else:
            out.append(('', (), z3.ForAll([w], z3.Implies(m['dom'][w], z3.And(inr(wpos[w], ws['len']), ws['arr'][wpos[w]] == w)), patterns=[m['dom'][w]])))
        out.append(('waiting jobs are distinct', ('C02', 'C01'), z3.And(
            z3.ForAll([i], z3.Implies(inr(i, j['len']), v.rq[i] != 0), patterns=[v.rq[i]]),
            z3.ForAll([i, k], z3.Implies(z3.And(inr(i, j['len']), inr(k, j['len']), i < k), v.rq[i] != v.rq[k])))))
        out.append(('no waiting job is also being processed', ('C02', 'C01'), z3.ForAll([w], z3.Implies(z3.And(m['dom'][w], m['val'][w] != 0), z3.Not(v.Q(m['val'][w]))), patterns=[m['val'][w]])))
        if post:
            out.append(('no job is processed by two workers', ('C02',), z3.ForAll([w, w2], z3.Implies(z3.And(m['dom'][w], m['dom'][w2], m['val'][w] != 0, m['val'][w] == m['val'][w2]), w == w2))))
            out.append(('every waiting job has a registered worker that could run it', ('C03',), z3.ForAll([i], z3.Implies(inr(i, j['len']), z3.Exists([w], z3.And(m['dom'][w], CH(self.e, st, w, v.rq[i])))))))
        else:
            out.append(('', (), z3.ForAll([w], z3.Implies(z3.And(m['dom'][w], m['val'][w] != 0), holder[m['val'][w]] == w), patterns=[m['val'][w]])))
            out.append(('', (), z3.ForAll([r], z3.Implies(v.Q(r), z3.And(m['dom'][capw[r]], CH(self.e, st, capw[r], r))), patterns=[v.Q(r)])))
        out.append(('waiting jobs are kept in order of arrival', ('C11',), z3.ForAll([i, k], z3.Implies(z3.And(inr(i, j['len']), inr(k, j['len']), i < k), z3.And(v.at[i] <= v.at[k], v.ord(v.rq[i]) < v.ord(v.rq[k]))), patterns=[z3.MultiPattern(v.rq[i], v.rq[k])])))
        out.append(('arrival times lie in the past', ('C11',), z3.ForAll([i], z3.Implies(inr(i, j['len']), v.at[i] <= self.e.gget(st, 'clock')), patterns=[v.at[i]])))
        return out

    def hints(self, a, b, x, sk):
        """Ground terms that make the solver look at the right positions (no logical content)."""
        out = []
        for c in sk:
            out += [b.ws['arr'][a.wpos[c]], b.ws['arr'][a.wpos[c] - 1], b.ws['arr'][b.ws['len'] - 1], b.ws['arr'][0], b.ws['arr'][a.wpos[c] + 1]]
            p, q = a.pos[c], b.pos[c]
            out += [b.rq[p], b.rq[p - 1], a.rq[q], a.rq[q + 1], b.rq[b.j['len'] - 1], a.rq[c], a.rq[c + 1], a.Q(c), b.Q(c)]
            out += [a.Q(b.rq[c]), a.Q(a.rq[c]), b.rq[c]]
        return out

class Multi(Impl):
    name = 'multi_queue_manager'
    def __init__(self, e, cls):
        super().__init__(e, cls)
        self.qs = find_field(e, cls, lambda t: t[0] == 'map' and isptr(t[1], 'worker') and t[2][0] == 'vec', 'queues')
        self.wj = find_field(e, cls, lambda t: t[0] == 'map' and isptr(t[1], 'worker') and isptr(t[2], 'request'), 'current jobs')
        self.ws = find_field(e, cls, lambda t: t[0] == 'vec' and isptr(t[1], 'worker'), 'worker rotation')
    def view(self, st, tag, ordf):
        q, m, ws = self.fld(st, *self.qs), self.fld(st, *self.wj), self.fld(st, *self.ws)
        names = []
        q, m, ws = [named(y, None, 'n' + tag, names) for y in (q, m, ws)]
        Qs = fresh_const(BA, 'Q' + tag)
        own, pos = fresh_const(IA, 'own' + tag), fresh_const(IA, 'pos' + tag)
        v = Abs(lambda w: m['dom'][w], lambda w: m['val'][w], lambda r: Qs[r], None, ordf)
        v.q, v.m, v.ws, v.own, v.pos = q, m, ws, own, pos
        v.ql = lambda w: q['val']['len'][w]
        v.qa = lambda w, i: q['val']['arr'][w][i]
        # r waits for w: r is in the queue of w
        v.E = lambda w, r: z3.And(v.W(w), v.Q(r), own[r] == w)
        i, r, w = z3.Int('i!v'), z3.Int('r!v'), z3.Int('w!v')
        v.defs = names + [z3.ForAll([w, i], z3.Implies(z3.And(q['dom'][w], 0 <= i, i < v.ql(w)), Qs[v.qa(w, i)]), patterns=[v.qa(w, i)]),
                  z3.ForAll([r], z3.Implies(Qs[r], z3.And(q['dom'][own[r]], 0 <= pos[r], pos[r] < v.ql(own[r]), v.qa(own[r], pos[r]) == r)), patterns=[Qs[r]]),
                  z3.ForAll([w], z3.And(v.ql(w) >= 0, v.ql(w) < 2 ** 60), patterns=[v.ql(w)]), ws['len'] >= 0, ws['len'] < 2 ** 60]
        return v
    def rep(self, st, v, post):
        i, k, w, w2, r = z3.Int('i!v'), z3.Int('k!v'), z3.Int('w!v'), z3.Int('w2!v'), z3.Int('r!v')
        ws, m, q = v.ws, v.m, v.q
        inr = lambda i, l: z3.And(0 <= i, i < l)
        wpos, holder = fresh_const(IA, 'wpos'), fresh_const(IA, 'holder')
        v.wpos = wpos
        out = []
        out.append(('workers have both a queue and a job slot', ('C02', 'C01', 'C16'), z3.ForAll([w], q['dom'][w] == m['dom'][w], patterns=[q['dom'][w], m['dom'][w]])))
        out.append(('workers of the rotation are registered and distinct', ('C02', 'C03', 'C01'), z3.And(
            z3.ForAll([i], z3.Implies(inr(i, ws['len']), z3.And(m['dom'][ws['arr'][i]], ws['arr'][i] != 0)), patterns=[ws['arr'][i]]),
            z3.ForAll([i, k], z3.Implies(z3.And(inr(i, ws['len']), inr(k, ws['len']), i < k), ws['arr'][i] != ws['arr'][k])))))
        if post:
            out.append(('every registered worker is in the rotation', ('C03',), z3.ForAll([w], z3.Implies(m['dom'][w], z3.Exists([i], z3.And(inr(i, ws['len']), ws['arr'][i] == w))))))
            out.append(('waiting jobs are distinct', ('C02', 'C01'), z3.And(
                z3.ForAll([w, i], z3.Implies(z3.And(q['dom'][w], inr(i, v.ql(w))), v.qa(w, i) != 0)),
                z3.ForAll([w, w2, i, k], z3.Implies(z3.And(q['dom'][w], q['dom'][w2], inr(i, v.ql(w)), inr(k, v.ql(w2)), v.qa(w, i) == v.qa(w2, k)), z3.And(w == w2, i == k))))))
            out.append(('no job is processed by two workers', ('C02',), z3.ForAll([w, w2], z3.Implies(z3.And(m['dom'][w], m['dom'][w2], m['val'][w] != 0, m['val'][w] == m['val'][w2]), w == w2))))
        else:
            out.append(('', (), z3.ForAll([w], z3.Implies(m['dom'][w], z3.And(inr(wpos[w], ws['len']), ws['arr'][wpos[w]] == w)), patterns=[m['dom'][w]])))
            out.append(('', (), z3.ForAll([w, i], z3.Implies(z3.And(q['dom'][w], inr(i, v.ql(w))), z3.And(v.qa(w, i) != 0, v.own[v.qa(w, i)] == w, v.pos[v.qa(w, i)] == i)), patterns=[v.qa(w, i)])))
            out.append(('', (), z3.ForAll([w], z3.Implies(z3.And(m['dom'][w], m['val'][w] != 0), holder[m['val'][w]] == w), patterns=[m['val'][w]])))
        out.append(('no waiting job is also being processed', ('C02', 'C01'), z3.ForAll([w], z3.Implies(z3.And(m['dom'][w], m['val'][w] != 0), z3.Not(v.Q(m['val'][w]))), patterns=[m['val'][w]])))
        out.append(('the worker in whose queue a job waits could run it', ('C03',), z3.ForAll([w, i], z3.Implies(z3.And(q['dom'][w], inr(i, v.ql(w))), CH(self.e, st, w, v.qa(w, i))), patterns=[v.qa(w, i)])))
        out.append(('each queue is kept in order of arrival', ('C11',), z3.ForAll([w, i, k], z3.Implies(z3.And(q['dom'][w], inr(i, v.ql(w)), inr(k, v.ql(w)), i < k), v.ord(v.qa(w, i)) < v.ord(v.qa(w, k))), patterns=[z3.MultiPattern(v.qa(w, i), v.qa(w, k))])))
        return out

    def hints(self, a, b, x, sk):
        out = []
        for c in sk:
            out += [b.ws['arr'][a.wpos[c]], b.ws['arr'][a.wpos[c] - 1], b.ws['arr'][b.ws['len'] - 1], b.ws['arr'][0], b.ws['arr'][a.wpos[c] + 1]]
            out += [b.qa(a.own[c], a.pos[c]), b.qa(a.own[c], a.pos[c] - 1), a.qa(b.own[c], b.pos[c]), a.qa(b.own[c], b.pos[c] + 1), a.Q(c), b.Q(c)]
            for k in ('w',):
                if k in x:
                    out += [a.qa(x[k], b.pos[c] + 1), b.qa(x[k], a.pos[c] - 1)]
            out += [b.qa(c, b.ql(c) - 1)]
            for d in sk:
                out += [a.qa(c, d), a.qa(c, d + 1), b.qa(c, d)]
        return out

def helpers_rep(impl, st):
    """Helper objects owned by the queue manager exist."""
    out = []
    for k, t, f in impl.e.T.own_fields(impl.cls):
        if t[0] == 'ptr':
            out.append(('helper object %s exists' % k, ('C13',), impl.fld(st, k, t) != 0))
    return out

IMPLS = {'single': Single, 'multi': Multi}

def impl_class(prog, e, which):
    base = {'single': 'single_queue_manager', 'multi': 'multi_queue_manager'}[which]
    cs = [c for c in prog.classes if c.split('<')[0] == base]
    if not cs:
        raise Unsupported('class %s not found' % base)
    return cs[0]

def make(prog, which, op, tags=None):
    e = Engine(prog, '%s::%s' % (IMPLS[which].name, op), tags)
    worker_contracts(e)
    return e

def clock(e, st, n):
    t = fresh_const(Int, 'now')
    e.assume(st, t >= e.gget(st, 'clock'))
    e.gset(st, 'clock', t)
    e.assumptions.add('the system clock does not go backwards between two enqueue operations (order of arrival of the single queue)')
    return t

def verify(prog, which, op, tags=None):
    """Verify one method of one implementation against the contract; returns the engine."""
    e = make(prog, which, op, tags)
    impl = IMPLS[which](e, impl_class(prog, e, which))
    st = St()
    st.vars['g:alloc'] = z3.Int('alloc0')
    st.vars['g:clock'] = z3.Int('clock0')
    e.contracts['clock'] = lambda e_, s, this, vals, n: [(s, Val(MS, clock(e_, s, n)))]
    ord0 = fresh_const(IA, 'ord')
    x, vals = {}, []
    for k in OPS[op]:
        x[k] = z3.Int(k + '!arg')
        vals.append(Val(PTRT[k], x[k]))
    al = st.vars['g:alloc']
    a = impl.view(st, '0', lambda r: ord0[r])
    w, r = z3.Int('w!q'), z3.Int('r!q')
    e.assume(st, al >= 1)
    e.assume(st, z3.And(impl.ref > 0, impl.ref <= al))
    for f in a.defs:
        e.assume(st, f)
    for _, _, f in impl.rep(st, a, False) + helpers_rep(impl, st):
        e.assume(st, f)
    for _, _, f in pre(op, a, x):
        e.assume(st, f)
    # arguments and held objects exist
    for k in x:
        e.assume(st, z3.And(x[k] >= 0, x[k] <= al))
    ents = prog.find('%s::%s' % (impl.cls, op))
    ents = [d for d in ents if prog.body(d) is not None] or ents
    if not ents:
        raise Unsupported('%s::%s not found' % (impl.cls, op))
    st0 = st.copy()
    # vacuity: the precondition must be satisfiable
    o = Obligation('the precondition is satisfiable', ('VAC',), list(st.pc), z3.BoolVal(False), '', e.name, 'vacuity')
    e.obligations.append(o)
    res = e.call_vals(st, ents[0], impl.this, vals, None)
    nret = 0
    for s, v in res:
        if s.flow is not None:
            e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves the function' % (s.flow[1],), ('C13',), None, 'safety')
            continue
        nret += 1
        if op == 'enqueue_request':
            v = e.load(s, v)
            ks = {k: t for k, t, _ in e.T.own_fields(v.t[1])}
            pk = [k for k, t in ks.items() if t[0] == 'ptr'][0]
            bk = [k for k, t in ks.items() if t == BOOL][0]
            x['assigned_to'], x['enqueued'] = v.p[pk], v.p[bk]
            ord1 = lambda q: z3.If(z3.And(q == x['r'], z3.Not(a.Q(q))), num(10 ** 9), ord0[q]) if False else ord0[q]
            # a job that starts to wait is the last to have arrived
            mx = fresh_const(Int, 'ordnew')
            e.assume(s, z3.ForAll([r], z3.Implies(a.Q(r), ord0[r] < mx), patterns=[a.Q(r)]))
            ordf = lambda q, mx=mx: z3.If(q == x['r'], mx, ord0[q])
        else:
            ordf = lambda q: ord0[q]
            if op == 'worker_terminated':
                v = e.load(s, v)
                x['vecp'], x['al'] = v.p, al
                x['vec'] = e.load(s, LV(('heap', e.tkey(v.t[1]), v.p), (), v.t[1])).p
            elif v is not None and op != 'get_queued_request_count':
                v = e.load(s, v)
                x['ret'] = v.p
            elif op == 'get_queued_request_count':
                x['ret'] = e.load(s, v).p
        b = impl.view(s, '1', ordf)
        for f in b.defs:
            e.assume(s, f)
        s0 = s
        base = list(s.pc)
        def ob(name, tg, f, vs=None, pats=None):
            s1 = s0.copy()
            s1.pc = list(base)
            for g in (f.children() if z3.is_and(f) and not vs else [f]):
                s2 = s1.copy()
                sks = []
                if vs:
                    sks = [fresh_const(q.sort(), 'sk') for q in vs]
                    g = z3.substitute(g, *zip(vs, sks))
                elif z3.is_quantifier(g) and g.is_forall():
                    sks = [fresh_const(g.var_sort(i), 'sk') for i in range(g.num_vars())]
                    g = z3.substitute_vars(g.body(), *reversed(sks))
                for q in impl.hints(a, b, x, sks):
                    s2.pc.append(z3.Function('look_%s' % str(q.sort()), q.sort(), Bool)(q))
                e.oblige(s2, g, name, tg, ents[0], 'post')
        for name, tg, f, vs, pats in post(op, a, b, x, lambda ww, rr: CH(e, s, ww, rr), w, r):
            ob('%s: %s' % (op, name), tg, f, vs)
        for name, tg, f in impl.rep(s, b, True) + helpers_rep(impl, s):
            ob('%s keeps the invariant: %s' % (op, name), tg, f)
        if op == 'get_queued_request_count':
            count_post(e, impl, s, b, x, ob)
    if nret == 0:
        e.oblige(st0, z3.BoolVal(False), '%s can return' % op, ('C01',), None, 'post')
    return e

def count_post(e, impl, s, b, x, ob):
    if isinstance(impl, Single):
        ob('get_queued_request_count: returns the number of waiting jobs', ('C16',), x['ret'] == b.j['len'])
