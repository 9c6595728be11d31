"""Contracts of the status notifications (C18): status_notifier_handler::on_request, get_http_query, curl_post.

libcurl is assumed: curl_easy_escape percent-encodes (an injective text without '&' and '='), curl_easy_perform performs
the request that the options describe and returns CURLE_OK exactly if it succeeded (HTTP errors included if FAILONERROR
is set); strings given as options are copied, except for the POST fields, which must live until the request is performed.
"""
import z3
from core import *
import core
from engine import Engine, Val, LV, St, Obligation, simp
import loops
import spec_worker
from spec_sock import this_of

FILES = ['src/handlers/status_notifier_handler.cpp', 'src/helpers/curl.cpp', 'src/reactor/message_container.cpp']
MC = ('cls', 'message_container')
PM = ('map', STR, STR)
TAG = ('C18',)
SA = z3.ArraySort(Str, Bool)
VA = z3.ArraySort(Str, Str)

def enum(nm):
    return z3.Const('enum:' + nm, Int)

def same_map(a, b):
    k = z3.Const('k!m', Str)
    return z3.And(z3.ForAll([k], a['dom'][k] == b['dom'][k]), z3.ForAll([k], z3.Implies(a['dom'][k], a['val'][k] == b['val'][k])))

class Pos:
    def __init__(self, key, cur):
        self.key, self.cur = key, cur

def positions(hd, W, cursors):
    """Expressions over the variables of the loop that may be the position in the list of pairs."""
    out, seen = [], set()
    for r, k, fs in W:
        if r != 'var' or k.startswith('g:') or fs or k in seen:
            continue
        seen.add(k)
        q = hd.vars.get(k)
        if isinstance(q, loops.IterV) and q.kind == 'vec':
            out.append(Pos(k, lambda s, k=k: s.vars[k].idx))
        elif isinstance(q, z3.ExprRef) and q.sort() == Int:
            out.append(Pos(k, lambda s, k=k: s.vars[k]))
            out.append(Pos('2*' + k, lambda s, k=k: 2 * s.vars[k]))
    for c in cursors:
        if c.key not in seen:
            out.append(Pos(c.key, c.cur))
    return out

# ---------------------------------------------------------------- the handler
def verify_handler(prog):
    e = Engine(prog, 'status_notifier_handler::on_request')
    st = spec_worker.base_state(e)
    d = spec_worker.method(prog, 'status_notifier_handler', 'on_request')
    lv = this_of(e, 'status_notifier_handler', st)
    m = fresh(e.T.shape(MC), 'm')
    D, L = m['data']['arr'], m['data']['len']
    h = z3.Int('pairs')
    e.assume(st, z3.And(h >= 0, h < 2 ** 58, L == 2 * h))
    e.assumptions.add('a notification consists of name/value pairs (reactor_status_notifier sends nothing else)')
    LT = e.T.fields('status_notifier_handler').get('logger_')
    if LT is not None:
        e.assume(st, e.load(st, lv.f('logger_', LT[0])).p > 0)
        e.assumptions.add('logger_ was given an object by whoever created the handler')
    CT = e.T.fields('status_notifier_handler')['config_'][0]
    cfg = e.load(st, lv.f('config_', CT))
    if CT[0] == 'ptr':
        cfg = e.load(st, e.deref(st, cfg))
    if not isinstance(cfg.p, dict):
        # a reference to the configuration
        raise Unsupported('configuration of the notifier')
    cfg = cfg.p
    # ---- what the notification says: the pairs are read in order, a later pair of the same name wins
    T, I = z3.Function('n_type', Int, Str), z3.Function('n_id', Int, Str)
    PD, PV = z3.Function('n_dom', Int, SA), z3.Function('n_val', Int, VA)
    dfn = z3.Function('n_def', Int, Bool)
    p = z3.Int('p!n')
    ty, idl = lit('type'), lit('id')
    st.pc.append(z3.And(T(0) == lit(''), I(0) == lit(''), PD(0) == z3.K(Str, z3.BoolVal(False))))
    par = z3.And(D[p] != ty, D[p] != idl)
    st.pc.append(z3.ForAll([p], z3.And(dfn(p), T(p + 2) == z3.If(D[p] == ty, D[p + 1], T(p)), I(p + 2) == z3.If(D[p] == idl, D[p + 1], I(p)),
                                       PD(p + 2) == z3.If(par, z3.Store(PD(p), D[p], z3.BoolVal(True)), PD(p)),
                                       PV(p + 2) == z3.If(par, z3.Store(PV(p), D[p], D[p + 1]), PV(p))), patterns=[dfn(p)]))
    t_, i_ = T(L), I(L)
    a = cfg['address']
    url = z3.If(t_ == lit(''), z3.If(i_ == lit(''), a, cat(cat(a, lit('/')), i_)),
                z3.If(i_ == lit(''), cat(cat(a, lit('/')), t_), cat(cat(cat(cat(a, lit('/')), t_), lit('/')), i_)))
    want = {'dom': PD(L), 'val': PV(L)}
    st.vars['g:tries'] = num(0)
    st.vars['g:ok'] = z3.BoolVal(False)
    def post(e_, s, this, vals, n):
        v = [e.load(s, x) for x in vals] + [Val(STR, lit(''))] * (5 - len(vals))
        e.oblige(s, z3.Not(e.gget(s, 'ok')), 'a notification that was accepted is not posted again', TAG, n, 'post')
        e.oblige(s, e.gget(s, 'tries') < 4, 'at most four attempts', TAG, n, 'post')
        e.oblige(s, e.to_str(s, v[0]) == url, 'the notification is posted to the configured address, its type and the job id', TAG, n, 'post')
        e.oblige(s, v[1].p == cfg['port'], 'the notification is posted to the configured port', TAG, n, 'post')
        mp = v[2].p
        e.oblige(s, z3.ForAll([kk], mp['dom'][kk] == want['dom'][kk]), 'exactly the items of the notification are parameters', TAG, n, 'post')
        e.oblige(s, z3.ForAll([kk], z3.Implies(want['dom'][kk], mp['val'][kk] == want['val'][kk])), 'the parameters have the values of the notification', TAG, n, 'post')
        e.oblige(s, z3.And(v[3].p == cfg['username'], v[4].p == cfg['password']), 'the configured credentials are used', TAG, n, 'post')
        e.gset(s, 'tries', e.gget(s, 'tries') + 1)
        out = []
        for s1, good in e.branch(s, z3.Not(fresh_const(Bool, 'postfail'))):
            if good:
                e.gset(s1, 'ok', z3.BoolVal(True))
                out.append((s1, Val(STR, fresh_const(Str, 'reply'))))
            else:
                e.throw(s1, 'curl_exception')
                out.append((s1, None))
        return out
    kk = z3.Const('k!p', Str)
    e.contracts['fn:curl_post'] = post
    e.contracts['helpers::curl_post'] = post
    e.contracts['ext:sleep_for'] = lambda e_, s, this, vals, n: [(s, Val(VOID, num(0)))]
    def spec(e_, n, entry, hd, cursors, W, backs, cands):
        out = []
        for c in positions(hd, W, cursors):
            out.append(loops.Cand('%s is even' % c.key, lambda s, c=c: z3.And(c.cur(s) % 2 == 0, 0 <= c.cur(s), c.cur(s) <= L)))
            out.append(loops.Cand('%s unfolds' % c.key, lambda s, c=c: dfn(c.cur(s))))
            for r, k, fs in W:
                if r != 'var' or k.startswith('g:') or fs:
                    continue
                q = hd.vars.get(k)
                if isinstance(q, z3.ExprRef) and q.sort() == Str:
                    out.append(loops.Cand('%s is the type so far (%s)' % (k, c.key), lambda s, c=c, k=k: s.vars[k] == T(c.cur(s))))
                    out.append(loops.Cand('%s is the id so far (%s)' % (k, c.key), lambda s, c=c, k=k: s.vars[k] == I(c.cur(s))))
                elif isinstance(q, dict) and 'dom' in q and isinstance(q.get('val'), z3.ExprRef) and q['val'].sort() == VA:
                    out.append(loops.Cand('%s has the names so far (%s)' % (k, c.key), lambda s, c=c, k=k: s.vars[k]['dom'] == PD(c.cur(s))))
                    kq = z3.Const('k!q', Str)
                    out.append(loops.Cand('%s has the values so far (%s)' % (k, c.key), lambda s, c=c, k=k: z3.ForAll([kq], z3.Implies(PD(c.cur(s))[kq], s.vars[k]['val'][kq] == PV(c.cur(s))[kq]), patterns=[s.vars[k]['val'][kq]])))
        g = e.gget
        for c in cursors:
            out.append(loops.Cand('attempts and %s' % c.key, lambda s, c=c: g(s, 'tries') + c.cur(s) == g(entry, 'tries') + c.cur(entry)))
            out.append(loops.Cand('attempts are %s' % c.key, lambda s, c=c: g(s, 'tries') - c.cur(s) == g(entry, 'tries') - c.cur(entry)))
        for r, k, fs in W:
            if r == 'var' and not fs and isinstance(hd.vars.get(k), z3.ExprRef) and hd.vars[k].sort() == Int and not k.startswith('g:'):
                out.append(loops.Cand('attempts left: %s' % k, lambda s, k=k: z3.And(g(s, 'tries') + s.vars[k] == g(entry, 'tries') + entry.vars[k], s.vars[k] >= 0)))
                out.append(loops.Cand('attempts made: %s' % k, lambda s, k=k: g(s, 'tries') - s.vars[k] == g(entry, 'tries') - entry.vars[k]))
        out.append(loops.Cand('not accepted yet', lambda s: z3.Not(g(s, 'ok'))))
        return out
    e.loop_specs.append(spec)
    spec_worker.vac(e, st)
    c = 0
    for s, r in e.call_vals(st, d, lv, [e.newvar(st, MC, m, 'message'), Val(FUN, num(0))], None):
        if s.flow is not None:
            e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves the notification handler' % (s.flow[1],), TAG, d, 'post')
            continue
        c += 1
        e.oblige(s, z3.Or(e.gget(s, 'ok'), e.gget(s, 'tries') == 4), 'a failing post is repeated until it succeeds or four attempts were made', TAG, d, 'post')
    if not c:
        raise Unsupported('on_request never returns')
    return e

# ---------------------------------------------------------------- the request body
enc = z3.Function('url_encoded', Str, Str)
def function(prog, name):
    ds = [x for x in prog.by_id.values() if x.kind == 'FunctionDecl' and x.name == name and prog.body(x) is not None]
    if not ds:
        raise Unsupported('%s not found' % name)
    return ds[0]

def escape(e_, s, this, vals, n):
    v = e_.load(s, vals[1])
    ln = e_.intp(s, e_.load(s, vals[2]))
    if v.t != STR:
        raise Unsupported('escape of %r' % (v.t,), n)
    e_.lib.strlen_fact(s, v.p)
    e_.oblige(s, ln == slen(v.p), 'the whole text is encoded', TAG, n, 'post')
    s.pc.append(z3.And(enc(v.p) != nullstr, slen(enc(v.p)) >= 0))
    return [(s, Val(STR, enc(v.p)))]

def verify_query(prog):
    e = Engine(prog, 'helpers::get_http_query')
    st = spec_worker.base_state(e)
    d = function(prog, 'get_http_query')
    e.contracts['ext:curl_easy_escape'] = escape
    e.contracts['ext:curl_free'] = lambda e_, s, this, vals, n: [(s, Val(VOID, num(0)))]
    e.assumptions.add('names and values are shorter than 2^31 characters; curl_easy_escape does not run out of memory')
    m = fresh(e.T.shape(PM), 'params')
    x = e.newvar(st, PM, m, 'params')
    K, n_ = e.lib.enumerate(st, x) if hasattr(e.lib, 'enumerate') else e.lib.enum(st, x)
    Q = z3.Function('query', Int, Str)
    dfn = z3.Function('q_def', Int, Bool)
    i = z3.Int('i!q')
    kt = lambda j: sel_leaf(K, j)
    jl = z3.Int('j!l')
    e.assume(st, z3.ForAll([jl], z3.And(slen(kt(jl)) < 2 ** 31, slen(m['val'][kt(jl)]) < 2 ** 31), patterns=[kt(jl)]))
    item = lambda j: cat(cat(enc(kt(j)), lit('=')), enc(m['val'][kt(j)]))
    st.pc.append(Q(0) == lit(''))
    st.pc.append(z3.ForAll([i], z3.And(dfn(i), slen(Q(i)) >= 0, Q(i + 1) == z3.If(i <= 0, item(i), qcat(Q(i), item(i)))), patterns=[dfn(i)]))
    assoc(e)
    def spec(e_, n, entry, hd, cursors, W, backs, cands):
        out = []
        for c in cursors:
            out.append(loops.Cand('%s unfolds' % c.key, lambda s, c=c: dfn(c.cur(s))))
            for r, kx, fs in W:
                if r != 'var' or kx.startswith('g:') or fs:
                    continue
                q = hd.vars.get(kx)
                if isinstance(q, z3.ExprRef) and q.sort() == Str:
                    out.append(loops.Cand('%s is the query so far (%s)' % (kx, c.key), lambda s, c=c, kx=kx: s.vars[kx] == Q(c.cur(s))))
                    out.append(loops.Cand('%s is empty at the beginning only (%s)' % (kx, c.key), lambda s, c=c, kx=kx: z3.And(slen(s.vars[kx]) >= 0, (slen(s.vars[kx]) > 0) == (c.cur(s) > 0), (s.vars[kx] == lit('')) == (c.cur(s) <= 0))))
                if isinstance(q, z3.ExprRef) and q.sort() == Bool:
                    out.append(loops.Cand('%s tells the first item (%s)' % (kx, c.key), lambda s, c=c, kx=kx: s.vars[kx] == (c.cur(s) <= 0)))
                    out.append(loops.Cand('%s tells later items (%s)' % (kx, c.key), lambda s, c=c, kx=kx: s.vars[kx] == (c.cur(s) > 0)))
        return out
    e.loop_specs.append(spec)
    spec_worker.vac(e, st)
    c = 0
    for s, r in e.call_vals(st, d, None, [x], None):
        if s.flow is not None:
            e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves get_http_query' % (s.flow[1],), TAG, d, 'post')
            continue
        c += 1
        e.oblige(s, e.load(s, r).p == Q(n_), 'the body joins the encoded names and values of all parameters', TAG, d, 'post')
    if not c:
        raise Unsupported('never returns')
    return e

def qcat(a, b):
    r = b
    return scat(a, scat(lit('&'), r))

def assoc(e):
    a, b, c = z3.Consts('a!s b!s c!s', Str)
    e.axioms.append(z3.ForAll([a, b, c], scat(scat(a, b), c) == scat(a, scat(b, c)), patterns=[scat(scat(a, b), c)]))

# ---------------------------------------------------------------- the request
NEUTRAL = {'WRITEFUNCTION', 'WRITEDATA', 'FOLLOWLOCATION', 'HTTP_VERSION', 'VERBOSE', 'USERAGENT', 'TIMEOUT', 'CONNECTTIMEOUT', 'TIMEOUT_MS', 'CONNECTTIMEOUT_MS', 'NOSIGNAL', 'ERRORBUFFER', 'TCP_KEEPALIVE', 'MAXREDIRS', 'HEADERFUNCTION', 'HEADERDATA'}
TEXT = {'URL': 'url', 'POSTFIELDS': 'body', 'COPYPOSTFIELDS': 'body', 'USERPWD': 'userpwd', 'USERNAME': 'user', 'PASSWORD': 'pass'}
NUMB = {'PORT': 'port', 'HTTPAUTH': 'auth', 'FAILONERROR': 'fail', 'POST': 'ispost', 'SSL_VERIFYPEER': 'peer', 'SSL_VERIFYHOST': 'host', 'POSTFIELDSIZE': 'size', 'POSTFIELDSIZE_LARGE': 'size'}

def verify_post(prog):
    e = Engine(prog, 'helpers::curl_post')
    st = spec_worker.base_state(e)
    d = function(prog, 'curl_post')
    args = [('url', STR), ('port', ('int', 'i64')), ('params', PM), ('username', STR), ('passwd', STR)]
    vals = {}
    lvs = []
    for nm, t in args:
        vals[nm] = fresh(e.T.shape(t), nm)
        lvs.append(e.newvar(st, t, vals[nm], nm))
        if t == STR:
            e.lib.strlen_fact(st, vals[nm])
    query = z3.Const('query', Str)
    e.lib.strlen_fact(st, query)
    def getq(e_, s, this, vs, n):
        mp = e.load(s, vs[0]).p
        e.oblige(s, same_map(mp, vals['params']), 'the body is made of the parameters', TAG, n, 'post')
        return [(s, Val(STR, query))]
    e.contracts['fn:get_http_query'] = getq
    e.contracts['helpers::get_http_query'] = getq
    none = z3.Const('option not set', Str)
    for o in sorted(set(TEXT.values())):
        st.vars['g:o_' + o] = none
    for o in sorted(set(NUMB.values())):
        st.vars['g:o_' + o] = num(-7)
    st.vars['g:done'] = num(0)
    st.vars['g:code'] = num(0)
    st.vars['g:live'] = num(0)
    H = ('ptr', VOID)
    e.assume(st, enum('CURLE_OK') == 0)
    def init(e_, s, this, vs, n):
        x = fresh_const(Int, 'handle')
        s.pc.append(x >= 0)
        e.oblige(s, e.gget(s, 'live') == 0, 'one handle is used', TAG, n, 'post')
        e.gset(s, 'live', x)
        return [(s, Val(H, x))]
    def setopt(e_, s, this, vs, n):
        o = simp(e.intp(s, e.load(s, vs[1])))
        nm = o.decl().name() if z3.is_const(o) else ''
        if not nm.startswith('enum:CURLOPT_'):
            raise Unsupported('option of a request that is not a constant', n)
        nm = nm[len('enum:CURLOPT_'):]
        if nm in NEUTRAL:
            return [(s, Val(I32, num(0)))]
        v = vs[2]
        if nm in TEXT:
            v = e.load(s, v)
            if v.t[0] == 'null':
                e.gset(s, 'o_' + TEXT[nm], none)
            elif v.t != STR:
                raise Unsupported('text option', n)
            else:
                e.gset(s, 'o_' + TEXT[nm], v.p)
        elif nm in NUMB:
            e.gset(s, 'o_' + NUMB[nm], e.intp(s, e.load(s, v)))
        else:
            raise Unsupported('option %s of a request' % nm, n)
        return [(s, Val(I32, num(0)))]
    def perform(e_, s, this, vs, n):
        g = lambda k: e.gget(s, 'o_' + k)
        e.oblige(s, e.gget(s, 'live') != 0, 'a request needs a handle', TAG, n, 'post')
        e.oblige(s, e.gget(s, 'done') == 0, 'the request is performed once', TAG, n, 'post')
        e.oblige(s, g('url') == vals['url'], 'the request goes to the given address', TAG, n, 'post')
        e.oblige(s, g('port') == vals['port'], 'the request goes to the given port', TAG, n, 'post')
        e.oblige(s, g('body') == query, 'the parameters are the body of the request', TAG, n, 'post')
        e.oblige(s, z3.Or(g('size') < 0, g('size') == slen(query)), 'the whole body is sent', TAG, n, 'post')
        e.oblige(s, g('ispost') != 0, 'the request is a POST request', TAG, n, 'post')
        anyc = z3.Or(vals['username'] != lit(''), vals['passwd'] != lit(''))
        e.oblige(s, z3.Implies(anyc, z3.Or(g('userpwd') == cat(cat(vals['username'], lit(':')), vals['passwd']),
                                           z3.And(g('userpwd') == none, g('user') == vals['username'], g('pass') == vals['passwd']))), 'the credentials are those given', TAG, n, 'post')
        e.oblige(s, z3.Implies(anyc, z3.Or(g('auth') == 1, g('auth') == -7)), 'the credentials are sent', TAG, n, 'post')
        e.oblige(s, g('fail') == 1, 'HTTP errors count as failures', TAG, n, 'post')
        e.gset(s, 'done', num(1))
        c = fresh_const(Int, 'curlcode')
        s.pc.append(z3.And(c >= 0, c < 200))
        e.gset(s, 'code', c)
        return [(s, Val(I32, c))]
    C = e.contracts
    C['ext:curl_easy_init'] = init
    C['ext:curl_easy_setopt'] = setopt
    C['ext:curl_easy_perform'] = perform
    C['ext:curl_easy_cleanup'] = lambda e_, s, this, vs, n: [(s, Val(VOID, num(0)))]
    C['ext:curl_easy_getinfo'] = lambda e_, s, this, vs, n: [(s, Val(I32, fresh_const(Int, 'info')))]
    C['ext:curl_easy_strerror'] = lambda e_, s, this, vs, n: [(s, Val(STR, fresh_const(Str, 'errtext')))]
    spec_worker.vac(e, st)
    c = 0
    for s, r in e.call_vals(st, d, None, lvs, None):
        if s.flow is not None:
            e.oblige(s, z3.BoolVal('curl_exception' in str(s.flow[1])), 'failures are reported by curl_exception', TAG, d, 'post')
            e.oblige(s, z3.Or(e.gget(s, 'live') == 0, z3.And(e.gget(s, 'done') == 1, e.gget(s, 'code') != 0)), 'a request that succeeded is not reported as failed', TAG, d, 'post')
            continue
        c += 1
        e.oblige(s, z3.And(e.gget(s, 'done') == 1, e.gget(s, 'code') == 0), 'a request that failed is not reported as successful', TAG, d, 'post')
    if not c:
        raise Unsupported('never returns')
    return e
