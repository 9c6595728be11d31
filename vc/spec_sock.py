"""Contracts of the functions that put messages on ZeroMQ sockets and take them off (C14).

A monitor on zmq::socket_t records the frames given to send: frames flagged ZMQ_SNDMORE continue the message under
construction, a frame without the flag completes it.  Received frames come from an arbitrary stream of multipart
messages.  Every operation may fail with zmq::error_t.
"""
import z3
from core import *
import core
from engine import Engine, Val, LV, St, Obligation, simp
import loops
import spec_worker

FILES = ['src/reactor/router_socket_wrapper.cpp', 'src/reactor/socket_wrapper_base.cpp', 'src/reactor/message_container.cpp', 'src/reactor/reactor.cpp']
MC = ('cls', 'message_container')
VEC = ('vec', STR)
SNDMORE = 2
inF = z3.Const('inF', z3.ArraySort(Int, Str))       # frames that arrive
inM = z3.Const('inMore', z3.ArraySort(Int, Bool))

class Zmq:
    def __init__(self, prog, name):
        self.e = e = Engine(prog, name)
        e.strict_opq = ('zmq::message_t', 'zmq::const_buffer', 'zmq::mutable_buffer')
        e.gsdata = self.gsdata
        e.filt_kw = dict(rlimit=300000, cfgs=('noext',))
        e.rl_houdini = 500000
        c = e.contracts
        c['opq:zmq::socket_t::send'] = self.send
        c['opq:socket_base::send'] = self.send
        c['opq:zmq::socket_t::recv'] = self.recv
        c['opq:socket_base::recv'] = self.recv
        c['opq:zmq::message_t::data'] = lambda e_, s, o, vs, n: [(s, Val(STR, inF[self.frame(s, o)]))]
        c['opq:zmq::message_t::size'] = lambda e_, s, o, vs, n: [(s, Val(SIZE, slen(inF[self.frame(s, o)])))]
        c['opq:zmq::message_t::more'] = lambda e_, s, o, vs, n: [(s, Val(BOOL, inM[self.frame(s, o)]))]
        c['opq:zmq::message_t::to_string'] = lambda e_, s, o, vs, n: [(s, Val(STR, inF[self.frame(s, o)]))]
        c['opq:zmq::message_t::str'] = c['opq:zmq::message_t::to_string']
        for k in ('rebuild', 'move', 'copy', 'swap'):
            c['opq:zmq::message_t::' + k] = self.unsup
        self.st = st = spec_worker.base_state(e)
        st.vars['g:cur'] = {'len': num(0), 'arr': z3.Const('cur0', z3.ArraySort(Int, Str))}
        st.vars['g:last'] = {'len': num(0), 'arr': z3.Const('last0', z3.ArraySort(Int, Str))}
        st.vars['g:nmsg'] = num(0)
        st.vars['g:err'] = z3.BoolVal(False)
        self.pos0 = z3.Int('pos0')
        st.vars['g:pos'] = self.pos0
        st.vars['g:start'] = self.pos0
        st.vars['g:due'] = z3.BoolVal(False)
        # the stream: frame pos0 begins a message
        e.assume(st, self.pos0 >= 1)
        e.assume(st, z3.Not(inM[self.pos0 - 1]))
        e.assumptions.add('libzmq: send and recv transport the frames of multipart messages completely and in order; either may fail with zmq::error_t')
        e.loop_specs.append(self.loop_spec)
        install_last(self)
        self.frames = None
        self.starting = None
        self.total = None
        self.recv_forms = []

    def unsup(self, e, st, o, vs, n):
        raise Unsupported('use of zmq::message_t', n)
    def gsdata(self, st, s, k):
        k = simp(k)
        if k.eq(slen(s)):
            return s
        return z3.If(k == slen(s), s, ssub(s, num(0), k))
    def frame(self, st, o):
        v = self.e.load(st, o)
        if not z3.is_expr(v.p):
            raise Unsupported('zmq message')
        return v.p

    def maybe_fail(self, st):
        e = self.e
        out = []
        for s, ok in e.branch(st, z3.Not(fresh_const(Bool, 'zmqfail'))):
            if not ok:
                e.gset(s, 'err', z3.BoolVal(True))
                e.throw(s, 'zmq::error_t')
            out.append((s, ok))
        return out

    def send(self, e, st, o, vals, n):
        vs = [x for x in vals]
        v = e.load(st, vs[0])
        if v.t != STR or not isinstance(v.p, z3.ExprRef) or len(vs) < 2:
            raise Unsupported('this form of zmq send', n)
        ln = e.intp(st, e.load(st, vs[1]))
        fl = e.intp(st, e.load(st, vs[2])) if len(vs) > 2 else num(0)
        out = []
        for s, ok in self.maybe_fail(st):
            if not ok:
                out.append((s, None))
                continue
            fr = self.gsdata(s, v.p, ln)
            e.oblige(s, z3.And(ln >= 0, ln <= slen(v.p)), 'no bytes beyond the end of a frame are sent', ('C13', 'C14'), n, 'safety')
            more = simp((fl / SNDMORE) % 2 == 1)
            cur = e.gget(s, 'cur')
            full = {'len': cur['len'] + 1, 'arr': z3.Store(cur['arr'], cur['len'], fr)}
            last = e.gget(s, 'last')
            ite = lambda c, a, b: a if z3.is_true(c) else b if z3.is_false(c) else z3.If(c, a, b)
            e.gset(s, 'last', {k: ite(more, last[k], full[k]) for k in full})
            e.gset(s, 'cur', {'len': ite(more, full['len'], num(0)), 'arr': full['arr']})
            e.gset(s, 'nmsg', simp(e.gget(s, 'nmsg') + ite(more, num(0), num(1))))
            out.append((s, Val(SIZE, ln)))
        return out

    def recv(self, e, st, o, vals, n):
        a = vals[0]
        if isinstance(a, tuple) and a[0] == 'addr':
            a = a[1]
        if not isinstance(a, LV) or a.t[0] != 'opq' or 'message_t' not in a.t[1]:
            raise Unsupported('this form of zmq recv', n)
        out = []
        for s, ok in self.maybe_fail(st):
            if not ok:
                out.append((s, None))
                continue
            p = e.gget(s, 'pos')
            for s1, first in (e.branch(s, z3.Not(inM[p - 1])) if self.starting else [(s, False)]):
                if first:
                    self.starting(s1, p, n)
                e.store(s1, a, Val(a.t, p))
                e.gset(s1, 'pos', p + 1)
                out.append((s1, Val(BOOL, z3.BoolVal(True))))
        return out

    # ---------------------------------------------------------------- loop invariants
    def sent_forms(self, s, cnt):
        """cnt frames of the message have been given to the socket."""
        e = self.e
        cur, last, nm = e.gget(s, 'cur'), e.gget(s, 'last'), e.gget(s, 'nmsg')
        x = z3.Int('x!f')
        T = self.total
        done = cnt == T
        return [('messages completed', nm == self.nmsg0 + z3.If(done, 1, 0)),
                ('frames under construction', cur['len'] == z3.If(done, 0, cnt)),
                ('content under construction', z3.Implies(z3.Not(done), z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < cnt), cur['arr'][x] == self.frames(x)), patterns=[cur['arr'][x]]))),
                ('completed message', z3.Implies(done, z3.And(last['len'] == T, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < T), last['arr'][x] == self.frames(x)), patterns=[last['arr'][x]])))),
                ('no more frames than the message has', z3.And(0 <= cnt, cnt <= T))]

    def loop_spec(self, e, n, entry, h, cursors, W, backs, cands):
        out = []
        if self.frames is not None:
            for c in cursors:
                for k in range(self.heads + 1):
                    for q, nm in enumerate(('messages completed', 'frames under construction', 'content under construction', 'completed message', 'no more frames than the message has')):
                        out.append(loops.Cand('%s: cursor %s + %d' % (nm, c.key, k), lambda s, c=c, k=k, q=q: self.sent_forms(s, c.cur(s) + k)[q][1]))
        for nm, f in self.recv_forms:
            out.append(loops.Cand(nm, f))
        return out

    def sent_post(self, s, d, name, tags=('C14',)):
        e = self.e
        fs = self.sent_forms(s, self.total)
        e.oblige(s, fs[0][1], name + ' emits exactly one message', tags, d, 'post')
        e.oblige(s, fs[1][1], name + ' leaves no message unfinished', tags, d, 'post')
        e.oblige(s, fs[3][1], name + ' emits all frames of the message in order', tags, d, 'post')

def new_message(z, nm='m'):
    e = z.e
    m = fresh(e.T.shape(MC), nm)
    e.assume(z.st, z3.And(m['data']['len'] >= 0, m['data']['len'] < 2 ** 60))
    for k in ('key', 'identity'):
        e.lib.strlen_fact(z.st, m[k])
    return m

def strlens(z, m):
    j = z3.Int('j!l')
    z.e.assume(z.st, z3.ForAll([j], slen(m['data']['arr'][j]) >= 0, patterns=[m['data']['arr'][j]]))

def expect(z, heads, m):
    """The message consists of the given leading frames and the data of m."""
    z.heads = len(heads)
    z.total = len(heads) + m['data']['len']
    def fr(x):
        r = m['data']['arr'][x - len(heads)]
        for i in reversed(range(len(heads))):
            r = z3.If(x == i, heads[i], r)
        return r
    z.frames = fr
    z.nmsg0 = num(0)

def this_of(e, cls, st):
    t = ('cls', cls)
    e.T.fields(cls)
    return LV(('heap', e.tkey(t), num(70)), (), t)

def verify_send(prog):
    z = Zmq(prog, 'router_socket_wrapper::send_message')
    e, st = z.e, z.st
    m = new_message(z)
    strlens(z, m)
    expect(z, [m['identity']], m)
    lv = this_of(e, 'router_socket_wrapper', st)
    d = spec_worker.method(prog, 'router_socket_wrapper', 'send_message')
    spec_worker.vac(e, st)
    n = 0
    for s, r in e.call_vals(st, d, lv, [e.newvar(st, MC, m, 'source')], None):
        if s.flow is not None:
            e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves send_message' % (s.flow[1],), ('C14', 'C13'), d, 'safety')
            continue
        n += 1
        ok = e.load(s, r).p
        s1 = s.copy()
        s1.pc.append(ok)
        z.sent_post(s1, d, 'a successful send')
        e.oblige(s, z3.Implies(e.gget(s, 'err'), z3.Not(ok)), 'a failure of the socket is reported to the sender', ('C14',), d, 'post')
        e.oblige(s, z3.Implies(z3.Not(ok), e.gget(s, 'err')), 'a send that the socket accepted is reported as successful', ('C14',), d, 'post')
        e.oblige(s, z3.Implies(z3.Not(ok), e.gget(s, 'nmsg') == 0), 'a failed send emits no complete message', ('C14',), d, 'post')
    if not n:
        raise Unsupported('send_message never returns')
    return e

def one_message(z, n):
    """n frames form the next message of the stream."""
    k = z3.Int('k!n')
    z.e.assume(z.st, z3.And(n >= 1, n < 2 ** 60))
    z.e.assume(z.st, z3.ForAll([k], z3.Implies(z3.And(z.pos0 <= k, k < z.pos0 + n), inM[k] == (k < z.pos0 + n - 1)), patterns=[inM[k]]))

def verify_receive(prog):
    z = Zmq(prog, 'router_socket_wrapper::receive_message')
    e, st = z.e, z.st
    n = z3.Int('frames')
    one_message(z, n)
    m = new_message(z)
    tgt = e.newvar(st, MC, m, 'target')
    z.recv_forms = stream_forms(z, tgt, 1, n)
    lv = this_of(e, 'router_socket_wrapper', st)
    d = spec_worker.method(prog, 'router_socket_wrapper', 'receive_message')
    spec_worker.vac(e, st)
    c = 0
    j = z3.Int('j!r')
    for s, r in e.call_vals(st, d, lv, [tgt], None):
        if s.flow is not None:
            e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves receive_message' % (s.flow[1],), ('C14', 'C13'), d, 'safety')
            continue
        c += 1
        ok = e.load(s, r).p
        t = e.load(s, tgt).p
        e.oblige(s, z3.Implies(e.gget(s, 'err'), z3.Not(ok)), 'a message that could not be received is reported as such', ('C14', 'C15'), d, 'post')
        e.oblige(s, z3.Implies(z3.Not(ok), e.gget(s, 'err')), 'a message that was received is reported as such', ('C14',), d, 'post')
        hyp = lambda f: z3.Implies(ok, f)
        e.oblige(s, hyp(t['identity'] == inF[z.pos0]), 'the identity is the first frame received', ('C14',), d, 'post')
        e.oblige(s, hyp(t['data']['len'] == n - 1), 'as many data frames are delivered as were received', ('C14',), d, 'post')
        e.oblige(s, hyp(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1), t['data']['arr'][j] == inF[z.pos0 + 1 + j]))), 'the data frames are delivered in order and unmodified', ('C14',), d, 'post')
        e.oblige(s, hyp(e.gget(s, 'pos') == z.pos0 + n), 'exactly one message is taken off the socket', ('C14',), d, 'post')
        e.oblige(s, hyp(t['key'] == m['key']), 'the key of the message is left to the caller', ('C14', 'C15'), d, 'post')
    if not c:
        raise Unsupported('receive_message never returns')
    return e

def stream_forms(z, tgt, heads, n=None, start=None):
    """Loop invariants of a loop that collects the frames of one message in tgt.data."""
    e = z.e
    j = z3.Int('j!s')
    st0 = start or (lambda s: z.pos0)
    def data(s):
        return e.load(s, tgt).p['data']
    out = [('one data frame per frame received', lambda s: data(s)['len'] == e.gget(s, 'pos') - st0(s) - heads),
           ('data frames are the frames received', lambda s: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < data(s)['len']), data(s)['arr'][j] == inF[st0(s) + heads + j]), patterns=[data(s)['arr'][j]])),
           ('frames received', lambda s: e.gget(s, 'pos') >= st0(s) + heads)]
    if n is not None:
        out.append(('not beyond the message', lambda s: e.gget(s, 'pos') <= z.pos0 + n))
    return out

def msgvars(z, W, h):
    return [k for r, k, fs in W if r == 'var' and not k.startswith('g:') and not fs and isinstance(h.vars.get(k), z3.ExprRef) and h.vars[k].sort() == Int]

def install_last(z):
    """A zmq::message_t assigned in the loop holds the frame received last."""
    e = z.e
    def spec(e_, n, entry, h, cursors, W, backs, cands):
        out = []
        if not any(k == 'g:pos' for r, k, fs in W if r == 'var'):
            return out
        for k in msgvars(z, W, h):
            out.append(loops.Cand('%s is the frame received last' % k, lambda s, k=k: s.vars[k] == e.gget(s, 'pos') - 1))
        return out
    e.loop_specs.append(spec)

# ---------------------------------------------------------------- asynchronous handlers (C14)
def verify_async_call(prog):
    z = Zmq(prog, 'asynchronous_handler_wrapper::operator()')
    e, st = z.e, z.st
    m = new_message(z)
    strlens(z, m)
    lv = this_of(e, 'asynchronous_handler_wrapper', st)
    uid = e.load(st, lv.f('unique_id_', STR)).p
    e.lib.strlen_fact(st, uid)
    expect(z, [uid, m['key'], m['identity']], m)
    d = spec_worker.method(prog, 'asynchronous_handler_wrapper', 'operator()')
    return run_emit(z, d, lv, [e.newvar(st, MC, m, 'message')], 'passing a message to an asynchronous handler')

def verify_send_response(prog):
    z = Zmq(prog, 'asynchronous_handler_wrapper::send_response')
    e, st = z.e, z.st
    m = new_message(z)
    strlens(z, m)
    lv = this_of(e, 'asynchronous_handler_wrapper', st)
    expect(z, [m['key'], m['identity']], m)
    d = spec_worker.method(prog, 'asynchronous_handler_wrapper', 'send_response')
    t = ('opq', 'zmq::socket_t')
    return run_emit(z, d, lv, [e.newvar(st, t, num(3), 'socket'), e.newvar(st, MC, m, 'message')], 'the response of an asynchronous handler')

def run_emit(z, d, lv, args, name):
    e, st = z.e, z.st
    spec_worker.vac(e, st)
    c = 0
    for s, r in e.call_vals(st, d, lv, args, None):
        if s.flow is not None:
            # a failing socket may be reported by an exception
            e.oblige(s, e.gget(s, 'err'), 'only a failure of the socket interrupts: ' + name, ('C14',), d, 'post')
            continue
        c += 1
        e.oblige(s, z3.Not(e.gget(s, 'err')), 'a failure of the socket does not go unnoticed: ' + name, ('C14',), d, 'post')
        z.sent_post(s, d, name)
    if not c:
        raise Unsupported('never returns')
    return e

TERM = 'TERMINATE'

def nonnull(e, st, lv, f):
    """A pointer member set by the constructor and never changed (assumption: the caller supplied an object)."""
    e.assumptions.add('%s was given an object by whoever created the wrapper' % f)
    t = e.T.fields(lv.t[1])[f][0]
    return e.load(st, lv.f(f, t)).p > 0

def stream_loops(z):
    """Loops over a stream of messages: they begin between two messages, or collect the frames of one in a local variable."""
    e = z.e
    def spec(e_, n, entry, h, cursors, W, backs, cands):
        out = []
        if not any(k == 'g:pos' for r, k, fs in W if r == 'var'):
            return out
        out.append(loops.Cand('between two messages', lambda s: z3.Not(inM[e.gget(s, 'pos') - 1])))
        out.append(loops.Cand('no message is outstanding', lambda s: z3.Not(e.gget(s, 'due'))))
        out.append(loops.Cand('no message under construction', lambda s: e.gget(s, 'cur')['len'] == 0))
        out.append(loops.Cand('positions', lambda s: z3.And(e.gget(s, 'pos') >= 1, e.gget(s, 'pos') > e.gget(s, 'start') - 1)))
        out.append(loops.Cand('socket worked', lambda s: z3.Not(e.gget(s, 'err'))))
        wv = {k for r, k, fs in W if r == 'var'}
        for k, p in h.vars.items():
            if k not in wv:
                continue
            if isinstance(p, dict) and isinstance(p.get('data'), dict) and 'arr' in p['data']:
                f = lambda s, k=k: s.vars[k]['data']
            elif isinstance(p, dict) and set(p) == {'len', 'arr'} and not k.startswith('g:') and isinstance(p['arr'], z3.ExprRef) and p['arr'].sort().range() == Str:
                f = lambda s, k=k: s.vars[k]
            else:
                continue
            j = z3.Int('j!s')
            for hd in (1, 2, 3):
                out.append(loops.Cand('%s: one element per frame received (%d)' % (k, hd), lambda s, f=f, hd=hd: f(s)['len'] == e.gget(s, 'pos') - e.gget(s, 'start') - hd))
                out.append(loops.Cand('%s: elements are the frames received (%d)' % (k, hd), lambda s, f=f, hd=hd: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < f(s)['len']), f(s)['arr'][j] == inF[e.gget(s, 'start') + hd + j]), patterns=[f(s)['arr'][j]])))
        return out
    e.loop_specs.append(spec)

def verify_thread(prog):
    z = Zmq(prog, 'asynchronous_handler_wrapper::handler_thread')
    e, st = z.e, z.st
    term = lit(TERM)
    d = spec_worker.method(prog, 'asynchronous_handler_wrapper', 'handler_thread')
    lv = this_of(e, 'asynchronous_handler_wrapper', st)
    e.assume(st, nonnull(e, st, lv, 'handler_'))
    stream_loops(z)
    def starting(s, p, n):
        e.oblige(s, z3.Not(e.gget(s, 'due')), 'no message to an asynchronous handler is dropped', ('C14', 'C15'), n, 'post')
        e.gset(s, 'start', p)
        e.gset(s, 'due', z3.And(inM[p], inF[p] != term))
        e.gset(s, 'req', inM[p])
    z.starting = starting
    def on_request(e_, s, this, vals, n):
        m = e.load(s, vals[0]).p
        p, q = e.gget(s, 'start'), e.gget(s, 'pos')
        j = z3.Int('j!q')
        tg = ('C14', 'C15')
        e.oblige(s, e.gget(s, 'due'), 'the asynchronous handler is invoked once per message', tg, n, 'post')
        e.oblige(s, z3.Not(inM[q - 1]), 'the message is complete when the asynchronous handler gets it', tg, n, 'post')
        e.oblige(s, m['key'] == inF[p], 'the asynchronous handler gets the key of the message', tg, n, 'post')
        e.oblige(s, m['identity'] == inF[p + 1], 'the asynchronous handler gets the identity of the message', tg, n, 'post')
        e.oblige(s, m['data']['len'] == q - p - 2, 'the asynchronous handler gets as many frames as were sent', tg, n, 'post')
        e.oblige(s, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < q - p - 2), m['data']['arr'][j] == inF[p + 2 + j])), 'the asynchronous handler gets the frames in order and unmodified', tg, n, 'post')
        e.gset(s, 'due', z3.BoolVal(False))
        # the handler may respond
        out = []
        r = fresh(e.T.shape(MC), 'resp')
        s.pc.append(z3.And(r['data']['len'] >= 0, r['data']['len'] < 2 ** 60))
        for k in ('key', 'identity'):
            e.lib.strlen_fact(s, r[k])
        jl = z3.Int('j!l')
        s.pc.append(z3.ForAll([jl], slen(r['data']['arr'][jl]) >= 0, patterns=[r['data']['arr'][jl]]))
        old = (z.frames, z.total)
        expect(z, [r['key'], r['identity']], r)
        z.nmsg0 = e.gget(s, 'nmsg')
        e.oblige(s, e.gget(s, 'cur')['len'] == 0, 'no message is under construction when a response is sent', ('C14',), n, 'post')
        rv = e.newvar(s, MC, r, 'response')
        try:
            for s1, v in e.invoke(s, e.load(s, vals[1]), [rv], n):
                if s1.flow is None:
                    z.sent_post(s1, n, 'the response of an asynchronous handler')
                out.append((s1, Val(VOID, num(0)) if s1.flow is None else None))
        finally:
            z.frames, z.total = old
        return out
    e.contracts['handler_interface::on_request'] = on_request
    st.vars['g:req'] = z3.BoolVal(False)
    spec_worker.vac(e, st)
    c = 0
    for s, r in e.call_vals(st, d, lv, [], None):
        if s.flow is not None:
            e.oblige(s, e.gget(s, 'err'), 'only a failure of the socket ends the thread of an asynchronous handler', ('C14', 'C15'), d, 'post')
            continue
        c += 1
        e.oblige(s, z3.Or(e.gget(s, 'err'), inF[e.gget(s, 'start')] == term), 'the thread of an asynchronous handler ends only when it is told to', ('C14', 'C15'), d, 'post')
        e.oblige(s, z3.Or(e.gget(s, 'err'), z3.Not(e.gget(s, 'due'))), 'no message to an asynchronous handler is dropped at the end', ('C14', 'C15'), d, 'post')
    if not c:
        raise Unsupported('handler_thread never returns')
    return e

# ---------------------------------------------------------------- the reactor (C15)
def msg_eq(a, b):
    j = z3.Int('j!e')
    return z3.And(a['key'] == b['key'], a['identity'] == b['identity'], a['data']['len'] == b['data']['len'],
                  z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < a['data']['len']), a['data']['arr'][j] == b['data']['arr'][j])))

def verify_wrapper(prog):
    """handler_wrapper::operator(): the handler gets the message, its responses go to the reactor."""
    z = Zmq(prog, 'handler_wrapper::operator()')
    e, st = z.e, z.st
    m = new_message(z)
    lv = this_of(e, 'handler_wrapper', st)
    e.assume(st, nonnull(e, st, lv, 'handler_'))
    h = e.load(st, lv.f('handler_', e.T.fields('handler_wrapper')['handler_'][0])).p
    d = spec_worker.method(prog, 'handler_wrapper', 'operator()')
    tg = ('C15',)
    st.vars['g:calls'] = num(0)
    st.vars['g:sent'] = num(0)
    want = []
    def on_request(e_, s, this, vals, n):
        e.gset(s, 'calls', e.gget(s, 'calls') + 1)
        e.oblige(s, this.root[2] == h, 'the handler that subscribed is invoked', tg, n, 'post')
        e.oblige(s, msg_eq(e.load(s, vals[0]).p, m), 'the handler gets the message unmodified', tg, n, 'post')
        r = fresh(e.T.shape(MC), 'resp')
        s.pc.append(z3.And(r['data']['len'] >= 0, r['data']['len'] < 2 ** 60))
        want.append(r)
        out = []
        k0 = e.gget(s, 'sent')
        for s1, v in e.invoke(s, e.load(s, vals[1]), [e.newvar(s, MC, r, 'response')], n):
            if s1.flow is None:
                e.oblige(s1, e.gget(s1, 'sent') == k0 + 1, 'every response of a handler is sent exactly once', tg, n, 'post')
            out.append((s1, Val(VOID, num(0)) if s1.flow is None else None))
        want.pop()
        return out
    def send(e_, s, this, vals, n):
        e.gset(s, 'sent', e.gget(s, 'sent') + 1)
        e.oblige(s, msg_eq(e.load(s, vals[0]).p, want[-1]) if want else z3.BoolVal(False), 'what is sent is the response of the handler', tg, n, 'post')
        return [(s, Val(VOID, num(0)))]
    e.contracts['handler_interface::on_request'] = on_request
    e.contracts['reactor::send_message'] = send
    spec_worker.vac(e, st)
    for s, r in e.call_vals(st, d, lv, [e.newvar(st, MC, m, 'message')], None):
        if s.flow is not None:
            e.oblige(s, z3.BoolVal(False), 'no exception leaves the wrapper of a handler', tg, d, 'post')
            continue
        e.oblige(s, e.gget(s, 'calls') == 1, 'the handler is invoked exactly once', tg, d, 'post')
        e.oblige(s, e.gget(s, 'sent') == 1, 'nothing but the responses of the handler is sent', tg, d, 'post')
    return e

class Reactor:
    """Ghost state of the reactor: how often each handler was invoked for the message at hand, how often each socket was sent it."""
    def __init__(self, z):
        self.z = z
        e, st = z.e, z.st
        self.e = e
        self.lv = lv = this_of(e, 'reactor', st)
        self.HT = e.T.fields('reactor')['handlers_'][0]
        self.ST = e.T.fields('reactor')['sockets_'][0]
        h = self.handlers(st)
        s_ = self.sockets(st)
        if self.HT[0] != 'mmap' or self.ST[0] != 'map' or not isinstance(h['arr'], dict):
            raise Unsupported('representation of the routing tables')
        self.h, self.s = h, s_
        i, j = z3.Ints('i!h j!h')
        k, v = h['arr']['first'], h['arr']['second']
        e.assume(st, z3.And(h['len'] >= 0, h['len'] < 2 ** 60))
        e.assume(st, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < h['len']), v[j] > 0), patterns=[v[j]]))
        # a handler is subscribed to an origin at most once (each subscription has its own entry)
        e.assume(st, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < h['len'], k[i] == k[j]), v[i] != v[j]), patterns=[z3.MultiPattern(v[i], v[j])]))
        x = z3.Const('x!s', Str)
        self.sockdom, self.sockval = s_['dom'], s_['val']
        e.assume(st, z3.ForAll([x], z3.Implies(self.sockdom[x], self.sockval[x] > 0), patterns=[self.sockval[x]]))
        e.assume(st, z3.ForAll([i], z3.And(slen(k[i]) >= 0), patterns=[k[i]]))
        z0 = z3.K(Int, num(0))
        st.vars['g:cnt'] = z0
        st.vars['g:sent'] = z0
        e.contracts['handler_wrapper::operator()'] = self.call
        e.contracts['socket_wrapper_base::send_message'] = self.send
        e.loop_specs.append(self.loop_spec)
        self.m = None
    def handlers(self, s):
        return self.e.load(s, self.lv.f('handlers_', self.HT)).p
    def sockets(self, s):
        return self.e.load(s, self.lv.f('sockets_', self.ST)).p
    def ptr(self, o):
        if o.root[0] != 'heap' or o.path:
            raise Unsupported('handler that is not behind a pointer')
        return o.root[2]
    def call(self, e, s, this, vals, n):
        e.oblige(s, msg_eq(e.load(s, vals[0]).p, self.m(s)), 'handlers get the message unmodified', ('C15',), n, 'post')
        h = self.ptr(this)
        c = e.gget(s, 'cnt')
        e.gset(s, 'cnt', z3.Store(c, h, c[h] + 1))
        return [(s, Val(VOID, num(0)))]
    def send(self, e, s, this, vals, n):
        e.oblige(s, msg_eq(e.load(s, vals[0]).p, self.m(s)), 'the socket is given the message unmodified', ('C15', 'C14'), n, 'post')
        h = self.ptr(this)
        c = e.gget(s, 'sent')
        e.gset(s, 'sent', z3.Store(c, h, c[h] + 1))
        return [(s, Val(BOOL, fresh_const(Bool, 'sendok')))]
    def subscribed(self, key, x):
        j = z3.Int('j!b')
        return z3.Exists([j], z3.And(0 <= j, j < self.h['len'], self.h['arr']['first'][j] == key, self.h['arr']['second'][j] == x))
    def delivered(self, s, key, cnt0, upto=None):
        """Subscribers of key (among the first upto entries) were invoked once, nobody else."""
        e = self.e
        j, x = z3.Int('j!d'), z3.Int('x!d')
        k, v = self.h['arr']['first'], self.h['arr']['second']
        cnt = e.gget(s, 'cnt')
        L = self.h['len'] if upto is None else upto
        w = z3.Function('wit!h', Int, Int)
        return [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.h['len'], k[j] == key), cnt[v[j]] == cnt0[v[j]] + z3.If(j < L, 1, 0)), patterns=[v[j]]),
                z3.ForAll([x], z3.Or(cnt[x] == cnt0[x], z3.Exists([j], z3.And(0 <= j, j < self.h['len'], k[j] == key, v[j] == x))), patterns=[cnt[x]])]
    def loop_spec(self, e, n, entry, h, cursors, W, backs, cands):
        out = []
        if not any(k == 'g:cnt' for r, k, fs in W if r == 'var') or self.m is None:
            return out
        c0 = e.gget(entry, 'cnt')
        for c in cursors:
            out.append(loops.Cand('delivered up to %s' % c.key, lambda s, c=c: self.delivered(s, self.m(s)['key'], c0, c.cur(s))[0]))
        out.append(loops.Cand('only subscribers', lambda s: self.delivered(s, self.m(s)['key'], c0)[1]))
        return out
    def frame(self, s, d):
        e = self.e
        h = self.handlers(s)
        e.oblige(s, z3.And(h['len'] == self.h['len'], h['arr']['first'] == self.h['arr']['first'], h['arr']['second'] == self.h['arr']['second']), 'the subscriptions stay as they are', ('C15',), d, 'post')
        q = self.sockets(s)
        e.oblige(s, z3.And(q['dom'] == self.sockdom, q['val'] == self.sockval), 'the sockets stay as they are', ('C15',), d, 'post')

def verify_process(prog, which):
    z = Zmq(prog, 'reactor::' + which)
    e, st = z.e, z.st
    R = Reactor(z)
    m = new_message(z)
    R.m = lambda s: m
    key = m['key']
    d = spec_worker.method(prog, 'reactor', which)
    spec_worker.vac(e, st)
    z0 = e.gget(st, 'cnt')
    x = z3.Int('x!p')
    c = 0
    for s, r in e.call_vals(st, d, R.lv, [e.newvar(st, MC, m, 'message')], None):
        if s.flow is not None:
            e.oblige(s, z3.BoolVal(False), 'no exception (%s) leaves %s' % (s.flow[1], which), ('C15', 'C13'), d, 'safety')
            continue
        c += 1
        R.frame(s, d)
        sent = e.gget(s, 'sent')
        dl = R.delivered(s, key, z0)
        if which == 'process_message':
            tos = z3.BoolVal(False)
        else:
            tos = R.sockdom[key]
        to = R.sockval[key]
        e.oblige(s, z3.Implies(z3.Not(tos), dl[0]), 'every subscribed handler gets the message exactly once', ('C15',), d, 'post')
        e.oblige(s, z3.Implies(z3.Not(tos), dl[1]), 'no other handler gets the message', ('C15',), d, 'post')
        e.oblige(s, z3.Implies(z3.Not(tos), z3.ForAll([x], sent[x] == 0)), 'no socket is sent a message meant for handlers', ('C15',), d, 'post')
        e.oblige(s, z3.Implies(tos, z3.And(z3.ForAll([x], sent[x] == z3.If(x == to, 1, 0)))), 'the message is sent once to the socket of its name and to no other', ('C15',), d, 'post')
        e.oblige(s, z3.Implies(tos, z3.ForAll([x], e.gget(s, 'cnt')[x] == 0)), 'a message to a socket is not given to handlers', ('C15',), d, 'post')
    if not c:
        raise Unsupported('never returns')
    return e

# ---------------------------------------------------------------- reactor::start_loop (C15, C14)
handle = z3.Function('zmq_handle', Int, Int)     # the libzmq socket behind a socket_wrapper_base
AH = z3.Int('async_handle')
PI = core.POLLITEM

def verify_loop(prog):
    z = Zmq(prog, 'reactor::start_loop')
    e, st = z.e, z.st
    R = Reactor(z)
    tg = ('C15',)
    d = spec_worker.method(prog, 'reactor', 'start_loop')
    x, y = z3.Ints('x!p y!p')
    e.assume(st, z3.ForAll([x, y], z3.Implies(handle(x) == handle(y), x == y), patterns=[z3.MultiPattern(handle(x), handle(y))]))
    e.assume(st, z3.ForAll([x], z3.And(handle(x) > 0, handle(x) != AH), patterns=[handle(x)]))
    # different names stand for different sockets
    a, b = z3.Consts('a!n b!n', Str)
    e.assume(st, z3.ForAll([a, b], z3.Implies(z3.And(R.sockdom[a], R.sockdom[b], R.sockval[a] == R.sockval[b]), a == b), patterns=[z3.MultiPattern(R.sockval[a], R.sockval[b])]))
    e.assumptions.add('every socket is added to the reactor under one name')
    K = lambda v: z3.K(Int, z3.BoolVal(v))
    st.vars['g:ready'] = K(False)
    st.vars['g:sock'] = num(0)          # socket the outstanding message came from
    st.vars['g:kind'] = num(0)          # 0: no message outstanding, 1: from a socket, 2: from an asynchronous handler
    st.vars['g:tick'] = z3.BoolVal(False)
    st.vars['g:polled'] = z3.BoolVal(False)
    st.vars['g:now'] = z3.Int('now0')
    st.vars['g:t0'] = z3.Int('t0')
    st.vars['g:t1'] = z3.Int('t1')
    st.vars['g:inits'] = z3.K(Int, num(0))
    st.vars['g:dm'] = fresh(e.T.shape(MC), 'dm')
    for k_ in ('ph', 'prev', 'pwit'):
        st.vars['g:' + k_] = z3.Const(k_ + '0', z3.ArraySort(Int, Int))
    st.vars['g:pL'] = num(0)
    timer = lit('timer')
    C = e.contracts

    def settled(s, n, what):
        e.oblige(s, e.gget(s, 'kind') == 0, 'every received message was handed on before ' + what, tg, n, 'post')
        e.oblige(s, z3.Not(e.gget(s, 'tick')), 'the timer handlers were told about the last poll before ' + what, tg, n, 'post')
        e.oblige(s, z3.ForAll([x], z3.Not(e.gget(s, 'ready')[x]), patterns=[e.gget(s, 'ready')[x]]), 'every socket that was ready was read before ' + what, tg, n, 'post')
    TF = e.T.fields('reactor').get('termination_flag_')
    def others(s):
        # handlers and other threads may ask the reactor to end
        if TF is not None:
            e.store(s, R.lv.f('termination_flag_', TF[0]), Val(TF[0], fresh(e.T.shape(TF[0]), 'term')))
    def clock(e_, s, this, vals, n):
        t = fresh_const(Int, 'now')
        s.pc.append(z3.And(t >= e.gget(s, 'now'), t < 2 ** 60))
        e.gset(s, 'now', t)
        # readings around the poll
        p = e.gget(s, 'polled')
        e.gset(s, 't0', t if z3.is_false(p) else z3.If(p, e.gget(s, 't0'), t))
        e.gset(s, 't1', z3.If(p, t, e.gget(s, 't1')))
        e.gset(s, 'polled', z3.BoolVal(False))
        return [(s, Val(MS, t))]
    def poll(e_, s, this, vals, n):
        lv = vals[0]
        if not isinstance(lv, LV) or lv.t != ('vec', PI):
            raise Unsupported('this form of zmq::poll', n)
        settled(s, n, 'the next poll')
        others(s)
        old = e.load(s, lv).p
        new = fresh_const(old['arr']['revents'].sort(), 'revents')
        arr = dict(old['arr'])
        arr['revents'] = new
        e.store(s, lv, Val(lv.t, {'len': old['len'], 'arr': arr}))
        j = z3.Int('j!p')
        L = old['len']
        h = old['arr']['socket']
        # every socket of the reactor is polled
        k = z3.Const('k!p', Str)
        e.oblige(s, z3.ForAll([k], z3.Implies(R.sockdom[k], z3.Exists([j], z3.And(0 <= j, j < L, h[j] == handle(R.sockval[k]))))), 'every socket of the reactor is polled', tg, n, 'post')
        e.oblige(s, z3.Exists([j], z3.And(0 <= j, j < L, h[j] == AH)), 'the socket of the asynchronous handlers is polled', tg, n, 'post')
        e.oblige(s, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), old['arr']['events'][j] % 2 == 1)), 'the sockets are polled for incoming messages', tg, n, 'post')
        i2 = z3.Int('i!p')
        e.oblige(s, z3.ForAll([i2, j], z3.Implies(z3.And(0 <= i2, i2 < j, j < L), h[i2] != h[j])), 'no socket is polled twice', tg, n, 'post')
        rdy = fresh_const(z3.ArraySort(Int, Bool), 'ready')
        wit = fresh_const(z3.ArraySort(Int, Int), 'item')
        hh = fresh_const(h.sort(), 'polled')
        s.pc.append(hh == h)
        s.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), hh[j] == h[j]), patterns=[hh[j]]))
        h = hh
        s.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), z3.And(new[j] >= 0, new[j] < 2 ** 15, wit[h[j]] == j, rdy[h[j]] == (new[j] % 2 == 1))), patterns=[new[j], h[j]]))
        s.pc.append(z3.ForAll([x], z3.Implies(rdy[x], z3.And(0 <= wit[x], wit[x] < L, h[wit[x]] == x)), patterns=[rdy[x]]))
        e.gset(s, 'ready', rdy)
        for k_, v_ in (('ph', h), ('prev', new), ('pL', L), ('pwit', wit)):
            e.gset(s, k_, v_)
        e.gset(s, 'tick', z3.BoolVal(True))
        e.gset(s, 'polled', z3.BoolVal(True))
        return [(s, Val(('int', (32, True)) if False else SIZE, fresh_const(Int, 'npoll')))]
    def rd(s, h, n):
        r = e.gget(s, 'ready')
        e.oblige(s, r[h], 'a socket is only read when a message is ready on it', tg, n, 'post')
        e.oblige(s, e.gget(s, 'kind') == 0, 'every received message is handed on', tg, n, 'post')
        e.gset(s, 'ready', z3.Store(r, h, z3.BoolVal(False)))
    def receive(e_, s, this, vals, n):
        p = R.ptr(this)
        rd(s, handle(p), n)
        t = e.load(s, vals[0]).p
        m = fresh(e.T.shape(MC), 'rcv')
        m['key'] = t['key']
        s.pc.append(z3.And(m['data']['len'] >= 0, m['data']['len'] < 2 ** 60))
        e.store(s, vals[0], Val(MC, m))
        out = []
        for s1, ok in e.branch(s, fresh_const(Bool, 'received')):
            if ok:
                e.gset(s1, 'kind', num(1))
                e.gset(s1, 'sock', p)
                e.gset(s1, 'dm', m)
            out.append((s1, Val(BOOL, z3.BoolVal(ok))))
        return out
    def starting(s, p, n):
        rd(s, AH, n)
        e.gset(s, 'start', p)
        e.gset(s, 'kind', num(2))
        # what send_response emits: the identity of the sender is prepended by libzmq
        s.pc.append(z3.And(inM[p], inM[p + 1]))
    def process(e_, s, this, vals, n):
        m = e.load(s, vals[0]).p
        kd = e.gget(s, 'kind')
        out = []
        for s1, fromsock in e.branch(s, kd == 1):
            if fromsock:
                dm = e.gget(s1, 'dm')
                e.oblige(s1, z3.And(R.sockdom[m['key']], R.sockval[m['key']] == e.gget(s1, 'sock')), 'a received message is labelled with the name of its socket', tg, n, 'post')
                e.oblige(s1, msg_eq(m, {'key': m['key'], 'identity': dm['identity'], 'data': dm['data']}), 'a received message is handed on unmodified', tg, n, 'post')
                e.gset(s1, 'kind', num(0))
            else:
                e.oblige(s1, e.gget(s1, 'kind') == 0, 'a message of an asynchronous handler is sent, not only handled', tg, n, 'post')
                e.oblige(s1, e.gget(s1, 'tick'), 'handlers are given received messages and one timer message per poll only', tg, n, 'post')
                e.oblige(s1, m['key'] == timer, 'the timer message has the timer key', tg, n, 'post')
                e.oblige(s1, z3.And(m['data']['len'] == 1, m['data']['arr'][0] == e.lib.itos(e.gget(s1, 't1') - e.gget(s1, 't0'))), 'the timer message tells the milliseconds the poll took', tg, n, 'post')
                e.gset(s1, 'tick', z3.BoolVal(False))
            others(s1)
            out.append((s1, Val(VOID, num(0))))
        return out
    def sendm(e_, s, this, vals, n):
        m = e.load(s, vals[0]).p
        p, q = e.gget(s, 'start'), e.gget(s, 'pos')
        j = z3.Int('j!q')
        t2 = ('C15', 'C14')
        e.oblige(s, e.gget(s, 'kind') == 2, 'only messages of asynchronous handlers are sent', tg, n, 'post')
        e.oblige(s, z3.Not(inM[q - 1]), 'the message of an asynchronous handler is taken off completely', t2, n, 'post')
        e.oblige(s, m['key'] == inF[p + 1], 'the message of an asynchronous handler keeps its key', t2, n, 'post')
        e.oblige(s, m['identity'] == inF[p + 2], 'the message of an asynchronous handler keeps its identity', t2, n, 'post')
        e.oblige(s, m['data']['len'] == q - p - 3, 'the message of an asynchronous handler keeps all its frames', t2, n, 'post')
        e.oblige(s, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < q - p - 3), m['data']['arr'][j] == inF[p + 3 + j])), 'the frames of the message of an asynchronous handler are in order and unmodified', t2, n, 'post')
        e.gset(s, 'kind', num(0))
        others(s)
        return [(s, Val(VOID, num(0)))]
    C['opq:zmq::socket_t::operator void *'] = lambda e_, s, o, vs, n: [(s, Val(('int', (64, True)), AH))]
    z.starting = starting
    def specs(e_, n, entry, h, cursors, W, backs, cands):
        out = []
        wv = {k for r, k, fs in W if r == 'var'}
        if not wv & {'g:ready', 'g:tick', 'g:kind'}:
            return out
        g = e.gget
        j = z3.Int('j!w')
        out.append(loops.Cand('nothing is outstanding', lambda s: g(s, 'kind') == 0))
        out.append(loops.Cand('no timer message is due', lambda s: z3.Not(g(s, 'tick'))))
        out.append(loops.Cand('no socket is ready', lambda s: z3.ForAll([x], z3.Not(g(s, 'ready')[x]), patterns=[g(s, 'ready')[x]])))
        out.append(loops.Cand('ready sockets are polled ones', lambda s: z3.ForAll([x], z3.Implies(g(s, 'ready')[x], z3.And(0 <= g(s, 'pwit')[x], g(s, 'pwit')[x] < g(s, 'pL'), g(s, 'ph')[g(s, 'pwit')[x]] == x)), patterns=[g(s, 'ready')[x]])))
        for c in cursors:
            out.append(loops.Cand('sockets read up to %s' % c.key, lambda s, c=c: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < g(s, 'pL')), g(s, 'ready')[g(s, 'ph')[j]] == z3.And(j >= c.cur(s), g(s, 'prev')[j] % 2 == 1)), patterns=[g(s, 'ph')[j]])))
        return out
    e.loop_specs.append(specs)
    def init(e_, s, this, vals, n):
        p = R.ptr(this)
        c = e.gget(s, 'inits')
        e.gset(s, 'inits', z3.Store(c, p, c[p] + 1))
        return [(s, Val(VOID, num(0)))]
    C['clock'] = clock
    C['ext:poll'] = poll
    C['socket_wrapper_base::receive_message'] = receive
    C['socket_wrapper_base::initialize'] = init
    C['socket_wrapper_base::get_pollitem'] = lambda e_, s, this, vals, n: [(s, Val(PI, {'socket': handle(R.ptr(this)), 'fd': num(0), 'events': num(1), 'revents': num(0)}))]
    C['reactor::process_message'] = process
    C['reactor::send_message'] = sendm
    stream_loops(z)
    spec_worker.vac(e, st)
    c = 0
    for s, r in e.call_vals(st, d, R.lv, [], None):
        if s.flow is not None:
            e.oblige(s, e.gget(s, 'err'), 'only a failure of a socket ends the loop of the reactor by an exception', ('C15', 'C13'), d, 'post')
            continue
        c += 1
        settled(s, d, 'the reactor ends')
    if not c:
        raise Unsupported('start_loop never returns')
    return e
