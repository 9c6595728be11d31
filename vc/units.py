"""Verification units: each is a function of the real code (or a group of them) with its contract."""
import extract, spec_qm, spec_handler, spec_worker, spec_conf, spec_sock, spec_notif, spec_remove

QM_FILES = (['src/queuing/multi_queue_manager.cpp', 'src/queuing/single_queue_manager.h'], 'template class single_queue_manager<>;')

GROUPS = {'qm': QM_FILES, 'handler': (spec_handler.FILES, ''), 'worker': (spec_worker.FILES, ''), 'conf': (spec_conf.FILES, ''), 'sock': (spec_sock.FILES, ''), 'notif': (spec_notif.FILES, '')}

class Unit:
    def __init__(self, name, group, fn, props, cost=1):
        self.name, self.group, self.fn, self.props, self.cost = name, group, fn, props, cost

UNITS = []
def unit(name, group, props, cost=1):
    def d(fn):
        UNITS.append(Unit(name, group, fn, set(props.split()), cost))
        return fn
    return d

for _which in ('single', 'multi'):
    for _op in spec_qm.OPS:
        UNITS.append(Unit('%s.%s' % (spec_qm.IMPLS[_which].name, _op), 'qm', (lambda prog, w=_which, o=_op: spec_qm.verify(prog, w, o)),
                          {'C01', 'C02', 'C03', 'C10', 'C11'} | ({'C16'} if _op == 'get_queued_request_count' else set()), 10 if _op == 'worker_terminated' else 3))

for _k, _c in ((spec_handler.KEYW, 'ping'), (spec_handler.KEYW, 'progress'), (spec_handler.KEYW, 'done'), (spec_handler.KEYW, None), (spec_handler.KEYW, ''),
               (spec_handler.KEYC, 'freeze'), (spec_handler.KEYC, 'unfreeze'), (spec_handler.KEYC, 'get-runtime-stats'), (spec_handler.KEYC, 'eval'), (spec_handler.KEYC, None), (spec_handler.KEYC, ''), (None, None), (None, '')):
    UNITS.append(Unit('broker_handler.%s.%s' % (_k, 'empty' if _c == '' else _c or 'other'), 'handler', (lambda prog, k=_k, c=_c: spec_handler.verify(prog, k, c)),
                      set('C01 C02 C03 C05 C06 C07 C08 C09 C10 C12 C13 C16 C19 C20'.split()), 6 if _c in ('done', 'eval', 'init') else 2))

for _c in spec_worker.KINDS:
    UNITS.append(Unit('worker.%s' % _c, 'worker', (lambda prog, c=_c: spec_worker.verify_matcher(prog, c)), {'C04'}, 1))
UNITS.append(Unit('worker.constructor', 'worker', spec_worker.verify_ctor, {'C04', 'C19', 'C03'}, 2))
UNITS.append(Unit('worker.check_header', 'worker', spec_worker.verify_check_header, {'C04'}, 1))
UNITS.append(Unit('worker.check_headers', 'worker', spec_worker.verify_check_headers, {'C04', 'C03'}, 1))
UNITS.append(Unit('worker.headers_equal', 'worker', spec_worker.verify_headers_equal, {'C19'}, 1))
UNITS.append(Unit('broker_config.load', 'conf', spec_conf.verify, {'C17'}, 2))
UNITS.append(Unit('router_socket_wrapper.send_message', 'sock', spec_sock.verify_send, {'C14'}, 2))
UNITS.append(Unit('router_socket_wrapper.receive_message', 'sock', spec_sock.verify_receive, {'C14', 'C15'}, 2))
UNITS.append(Unit('asynchronous_handler_wrapper.call', 'sock', spec_sock.verify_async_call, {'C14'}, 2))
UNITS.append(Unit('asynchronous_handler_wrapper.send_response', 'sock', spec_sock.verify_send_response, {'C14'}, 2))
UNITS.append(Unit('asynchronous_handler_wrapper.handler_thread', 'sock', spec_sock.verify_thread, {'C14', 'C15'}, 2))
UNITS.append(Unit('handler_wrapper.call', 'sock', spec_sock.verify_wrapper, {'C15'}, 1))
UNITS.append(Unit('reactor.process_message', 'sock', lambda prog: spec_sock.verify_process(prog, 'process_message'), {'C15'}, 1))
UNITS.append(Unit('reactor.send_message', 'sock', lambda prog: spec_sock.verify_process(prog, 'send_message'), {'C15'}, 1))
UNITS.append(Unit('reactor.start_loop', 'sock', spec_sock.verify_loop, {'C15', 'C14'}, 4))
UNITS.append(Unit('status_notifier_handler.on_request', 'notif', spec_notif.verify_handler, {'C18'}, 2))
UNITS.append(Unit('helpers.get_http_query', 'notif', spec_notif.verify_query, {'C18'}, 1))
UNITS.append(Unit('helpers.curl_post', 'notif', spec_notif.verify_post, {'C18'}, 1))
UNITS.append(Unit('broker_handler.remove_workers', 'handler', spec_remove.verify, set('C01 C02 C03 C07 C08 C09 C10 C12 C13 C19 C20'.split()), 10))
UNITS.append(Unit('broker_handler.timer', 'handler', spec_remove.verify_timer, set('C01 C02 C03 C07 C08 C09 C10 C12 C13 C16 C19 C20'.split()), 10))
UNITS.append(Unit('broker_handler.init', 'handler', spec_remove.verify_init, set('C01 C02 C03 C07 C08 C09 C10 C12 C13 C16 C19 C20'.split()), 10))
