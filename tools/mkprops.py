#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the statements are readable).
import json
H='src/handlers/broker_handler.cpp'; HH='src/handlers/broker_handler.h'
S='src/queuing/single_queue_manager.h'; M='src/queuing/multi_queue_manager.cpp'
W='src/worker.cpp'; WH='src/worker.h'; R='src/worker_registry.cpp'
QI='src/queuing/queue_manager_interface.h'
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=list(over),text=text),
      why_tests_cant=why,anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
hist="every finite sequence of worker, client and timer messages, any number of workers and jobs, both queue managers"
tst="The unit tests run a handful of fixed histories with one or two workers and (at handler level) only the multi-queue manager; "
p('C01','Accepted jobs are never lost',
 'After every message the broker processes, each evaluation job it accepted whose terminal status (OK or FAILED) has not yet been reported to the frontend is either waiting in the queue or assigned to a registered worker. A job leaves the broker only in the same step in which a terminal status carrying its job id is reported to the frontend. This holds for either queue manager, through worker results, worker failures, worker expiry and re-registration.',
 ['histories','inputs','configurations'],hist,
 tst+'no test follows a job through several failures, simultaneous expirations or re-registration.',
 [H,S,M,QI,R],[('re-enqueue or report every request returned by the queue manager','process_worker_done, remove_workers, reassign_request in '+H),('queue manager hands back or keeps every request','worker_terminated, worker_cancelled, assign_request, enqueue_request in '+S+' and '+M)],
 [('tracked requests','queued requests plus the current request of each worker',S+', '+M)],['messages passed to the response callback','queued / current requests of the queue manager'])
p('C02','A job is in one place and a worker has one job',
 'At every moment each job the broker holds occupies exactly one place: one slot in the waiting queue or the single current-job slot of one registered worker. An evaluation request is sent to a worker exactly when that job becomes the worker\'s current job, and never to a worker that already has one.',
 ['histories','inputs','configurations'],hist,
 tst+'double bookkeeping (a job both queued and assigned, or sent twice) needs particular sequences of failures and expirations.',
 [H,S,M,QI],[('current-job slot of each worker','current_requests_ in '+M+', worker_jobs_ in '+S),('send_request only after an assignment',H)],
 [('current job of a worker','at most one request per worker',S+', '+M)],['evaluation messages sent to workers'])
p('C03','Jobs go only to capable workers and are rejected only if there is none',
 'An evaluation is only ever sent to a registered worker whose declared capabilities satisfy every header of that job, on first dispatch as well as on later dispatch from the queue or on reassignment. A job is turned away for lack of workers only if no registered worker satisfies all its headers, and is never kept waiting when no registered worker could ever run it.',
 ['histories','inputs','configurations'],hist+', all header sets',
 tst+'tests use one or two header values and at most two workers.',
 [H,S,M,W],[('header check before assignment','first_idle_worker_selector::select, assign_request, is_request_assignable in '+S+'; enqueue_request in '+M),('removal of requests nobody can run','worker_terminated in '+S)],
 (),['evaluation messages sent to workers','accept/reject replies'])
p('C04','Header matching semantics',
 'A worker satisfies a set of job headers exactly if, for every header of the job, at least one of the worker\'s declared headers of the same name matches its value. A hardware-group header of a job lists alternatives separated by "|" and matches if one of them equals the group of the worker; a thread-count header matches if both are numbers and the worker declares at least the requested count; every other header matches on equality. (A value counts as a number if its beginning is one, as for the standard conversion functions.)',
 ['inputs'],'every worker declaration and every set of job headers',
 'Five tests sample a few values; repeated headers, empty alternatives, prefixes of group names and malformed numbers are not covered.',
 [W,WH],[('header matchers','header_matcher, multiple_string_matcher, count_matcher in '+W),('worker::check_header(s)',W)],
 [('headers_','multimap of header name to matcher',WH)],['result of worker::check_headers'])
p('C05','Client reply protocol',
 'Every well-formed evaluation request is answered, to the client that sent it, by one acknowledgement followed by exactly one verdict: accept if and only if the job was taken over by the broker, reject otherwise; a truncated evaluation request is acknowledged but gets no verdict and creates no job. Freeze, unfreeze and statistics requests get exactly one reply each, an unknown command gets none. No client is ever sent anything that is not a reply to its own message.',
 ['inputs','histories'],'every client message in every reachable broker state',
 tst+'no test covers rejected jobs for missing workers, truncated messages or unknown commands.',
 [H],[('process_client_eval and the other client commands',H)],(),['messages sent to clients'])
p('C06','A frozen broker takes no new jobs',
 'From a freeze command until the next unfreeze command every well-formed evaluation request is rejected and leaves queue and workers unchanged; otherwise evaluation requests are never rejected on account of freezing. Freezing affects nothing else: jobs already accepted keep being dispatched, finished, retried and reported as before.',
 ['histories','inputs'],hist+' interleaved with freeze and unfreeze commands',
 'One test freezes once and sends one request; unfreeze and the processing of running jobs while frozen are untested.',
 [H],[('is_frozen_ flag','process_client_freeze, process_client_unfreeze, process_client_eval in '+H)],[('is_frozen_','frozen state',HH)],['accept/reject replies','messages sent to workers'])
p('C07','Results are reported truthfully and exactly once',
 'When a registered worker reports the end of the job currently assigned to it, success is reported to the frontend as exactly one OK status for that job id and a job failure as exactly one FAILED status with the message of the worker, and the job is over. A result that comes from an unregistered or idle worker, names another job than the one currently assigned, or has an unknown status or wrong number of arguments reports nothing and changes neither the job nor the worker. An OK status is never reported in any other situation.',
 ['histories','inputs'],hist,
 tst+'mismatched ids, idle and unknown workers and malformed results are not tested.',
 [H,'src/notifier/reactor_status_notifier.cpp'],[('process_worker_done',H),('status notifier messages','src/notifier/reactor_status_notifier.cpp')],(),['messages sent to the status notifier'])
p('C08','Bounded retries of failing jobs',
 'Each internal failure reported by the worker processing a job and each loss of that worker counts as exactly one failed attempt of that job and of no other job. While the count stays below the configured maximum the job is offered to the workers again; as soon as it reaches the maximum the job is reported FAILED to the frontend and the monitor and is never sent to a worker again. Jobs whose content the broker does not know are never resent but reported FAILED.',
 ['histories','configurations','inputs'],hist+', every configured maximum',
 tst+'each test sees a single failure with a fixed maximum.',
 [H],[('failure_count','process_worker_done, remove_workers, check_failure_count in '+H)],[('failure_count','failed attempts of a request',WH)],['messages to workers, monitor and status notifier'])
p('C09','Dead workers are detected, live workers are kept',
 'A registered worker is removed exactly when it has been silent for as many consecutive overrun ping intervals as the configured maximum; any message from it, including its registration, restarts the count, and one worker\'s silence never affects another. After removal it is sent no further jobs, and every job it was responsible for is reassigned to a remaining worker or reported FAILED in the same step.',
 ['histories','schedules','configurations'],hist+', every sequence of elapsed times, every liveness maximum and ping interval',
 tst+'the expiry tests set the counter by hand and send one timer message.',
 [H,R,S,M],[('liveness counter and per-worker timers','on_request, process_timer, process_worker_init in '+H)],[('liveness','missed pings left',WH),('worker_timers_','time since the last message or decrease',HH)],['removal from the registry','reassignment messages'])
p('C10','No idle worker while a job waits for it',
 'After every message the broker processes, no registered worker without a job coexists with a waiting job that it could be given: with the single queue, a waiting job whose headers it satisfies; with per-worker queues, a job waiting in its own queue.',
 ['histories','inputs','configurations'],hist,
 tst+'no test has a failing worker with further jobs waiting and another worker available.',
 [H,S,M],[('assignment after every event that frees a worker','process_worker_done in '+H),('enqueue to an idle worker first',S+', '+M)],(),['queued and current requests of the queue manager'])
p('C11','Waiting jobs are dispatched in order of arrival',
 'With the single queue, whenever a waiting job is handed to a worker, it is the one that entered the queue first among the waiting jobs that this worker is able to run. With per-worker queues, the jobs waiting for one worker are dispatched in the order in which they were queued for it.',
 ['histories','inputs'],hist+', any number of queued jobs, equal arrival timestamps included',
 'Tests queue at most two jobs; ties between timestamps depend on timing and on the size of the queue.',
 [S,M],[('stable sort by arrival time, first match','assign_request in '+S),('std::queue per worker',M)],[('jobs_ / queues_','waiting requests',S+', '+M)],['order of evaluation messages'])
p('C12','Job payload reaches the worker unmodified',
 'Whenever a job is sent to a worker the message is exactly the evaluation command, the job id and the frames that followed the empty delimiter in the client\'s request, in the same order and unmodified, on the first dispatch and on every later one. Headers before the delimiter are split at the first "=" into name and value, and those with the metadata prefix are kept apart: they neither take part in worker matching nor are forwarded.',
 ['inputs','histories'],'every evaluation message, any number and content of frames',
 'Tests use one or two payload frames and plain "name=value" headers.',
 [H,WH],[('header parsing and payload copy','process_client_eval in '+H),('job_request_data',WH)],[('data_','frames sent to the worker',WH)],['evaluation messages sent to workers'])
p('C13','No peer message can crash the broker',
 'Whatever frames a client or a worker sends, in whatever state the broker is, processing the message neither raises an exception out of the message handler nor dereferences a missing object nor reads outside the message. Truncated, surplus, empty or non-numeric frames are ignored or rejected.',
 ['inputs','histories'],'every client and worker message (any frame count and content) in every reachable state; timer messages as the reactor generates them',
 'Tests send well-formed messages only.',
 [H,W,R,S,M,'src/reactor/command_holder.cpp'],[('size and null checks before access',H),('conversion errors handled',W)],(),['exceptions and memory errors in the message handler'])
p('C14','Messages cross sockets frame by frame without loss or merging',
 'A send that reports success has emitted exactly one complete multipart message on the socket: the identity followed by the data frames in order and unmodified, every frame but the last flagged as continued, also when there are no data frames; a failure of the socket is reported to the caller. Receiving delivers the identity and exactly the frames of one multipart message, or reports failure. Messages passed to and from asynchronous handlers arrive complete, with the same key (other than the reserved key that ends the handler), identity and frames.',
 ['inputs','histories','fault_sequences'],'every message (any number of frames, empty frames included), every sequence of messages on one socket, send and receive errors',
 'The reactor suite is flaky and not run; handler tests replace sockets by a callback.',
 ['src/reactor/router_socket_wrapper.cpp','src/reactor/reactor.cpp'],[('SNDMORE flags','router_socket_wrapper::send_message, asynchronous_handler_wrapper::operator(), send_response'),('more() loops','receive_message, handler_thread, start_loop')],(),['frames sent and received on ZeroMQ sockets'])
p('C15','Reactor routes every message to the right place',
 'A message received on a socket is handed, labelled with the name of that socket, exactly once to each handler subscribed to that name (once per subscription) and to no other handler; a message that could not be received is handed to nobody, and only sockets with a message ready are read. A message sent by a handler goes to the socket of that name if there is one and otherwise to the handlers subscribed to it; after each poll, handlers of the timer key get one message with the milliseconds the poll took.',
 ['inputs','histories','configurations'],'every set of sockets and handlers, every message, every subset of ready sockets',
 'The reactor suite is flaky and not run.',
 ['src/reactor/reactor.cpp','src/reactor/reactor.h'],[('send_message, process_message, start_loop','src/reactor/reactor.cpp')],[('sockets_ / handlers_','routing tables','src/reactor/reactor.h')],['handler invocations','socket sends'])
p('C16','Runtime statistics tell the truth',
 'A statistics reply lists, as reported at the last timer message, the number of queued jobs, of registered workers, of idle workers and of jobs in progress (workers minus idle workers), plus the current frozen flag. The number of evaluated jobs equals the number of successful results accepted since start and the number of failed jobs equals the number of failure results accepted since start.',
 ['histories'],hist,
 'No test requests statistics.',
 [H,S,M],[('runtime_stats_ updates','process_worker_done, update_worker_stats, process_client_get_runtime_stats in '+H)],[('runtime_stats_','statistics',HH)],['reply to the statistics request'])
p('C17','Configuration is loaded option by option',
 'Each configuration option takes the value given for it in the document if that value is a scalar (inside the right section) and its documented default otherwise, independently of all other options. A document that is not a map, or a scalar that cannot be converted to the type of its option, is refused with a configuration error and with no other exception.',
 ['inputs','configurations'],'every YAML document',
 'Tests load three documents.',
 ['src/config/broker_config.cpp','src/config/broker_config.h','src/config/notifier_config.h','src/config/log_config.h'],[('broker_config constructor and getters','src/config/broker_config.cpp')],(),['getters of the loaded configuration'])
p('C18','Status notifications reach the frontend API intact',
 'A status notification is posted to the configured address, port and credentials, with the notification type and the job id (if any) appended to the address in this order and all other items as form parameters; every parameter can be recovered from the request body whatever characters it contains. A post that fails is retried, up to four attempts in total, and a post that succeeds is never repeated.',
 ['inputs','fault_sequences'],'every notification content, every pattern of failing attempts',
 'Nothing in the test suite executes the notification handler or the HTTP helper.',
 ['src/handlers/status_notifier_handler.cpp','src/helpers/curl.cpp'],[('on_request','src/handlers/status_notifier_handler.cpp'),('get_http_query, curl_post','src/helpers/curl.cpp')],(),['HTTP requests made through libcurl'])
p('C19','The registry mirrors the workers\' latest registrations',
 'At every moment at most one registered worker has a given identity, and it carries the hardware group, headers and description of that identity\'s latest effective registration, with the job it declared as being processed recorded as its current job. Repeating a registration with the same hardware group and headers changes nothing, a registration without a hardware group is ignored, and the workers known to the registry and to the queue manager are always the same. A ping is answered with "pong" if the sender is registered and with "intro" otherwise.',
 ['histories','inputs'],hist,
 tst+'no test re-registers a worker with different properties.',
 [H,R],[('process_worker_init, process_worker_ping',H),('worker_registry',R)],[('workers_','registered workers','src/worker_registry.h')],['registry contents','replies to workers'])
p('C20','The monitor hears about every job exactly what happened',
 'A progress message of a worker is forwarded to the monitor with all its arguments unmodified and in order. The monitor is sent FAILED for a job exactly when the broker itself gives the job up (no capable worker on submission or reassignment, retries exhausted, or unknown content of a lost job) and ABORTED exactly when the job of a lost worker is assigned or queued again, naming that job; nothing else is sent to the monitor.',
 ['histories','inputs'],hist,
 tst+'only three of these situations are sampled.',
 [H],[('process_worker_progress, notify_monitor and its callers',H)],(),['messages sent to the monitor'])
p('C21','Notifications sent during start-up are not dropped',
 'A message handed to an asynchronous handler right after the handler was added is delivered even if the thread of the handler has not connected its socket yet.',
 ['schedules'],'every interleaving of the reactor thread and the handler thread',
 'Timing dependent; the reactor test suite is flaky for this very reason.',
 ['src/reactor/reactor.cpp'],[('asynchronous_handler_wrapper','src/reactor/reactor.cpp')],(),['messages received by the handler thread'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80, x['id']
        f.write(json.dumps(x)+'\n')
