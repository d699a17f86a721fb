#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts is this file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=hook)))

BH = "src/handlers/broker_handler.cpp"
SQ = "src/queuing/single_queue_manager.h"
MQ = "src/queuing/multi_queue_manager.cpp"
RE = "src/reactor/reactor.cpp"
RS = "src/reactor/router_socket_wrapper.cpp"
SN = "src/handlers/status_notifier_handler.cpp"
WK = "src/worker.cpp"
WR = "src/worker_registry.cpp"
CU = "src/helpers/curl.cpp"
MSG = "messages handed to the reactor for clients, workers, monitor and frontend"

prop("C01", "An accepted job is never lost and ends exactly once",
 "Every job the broker accepted (distinct job ids, none of which a worker claims to have brought along) is eventually reported to the frontend with exactly one final status, provided the surviving workers keep answering or are noticed to be dead. The final status is OK only after the worker the job was last sent to reported it OK, and FAILED only after a failure, a worker death or a loss of all capable workers. A job that was rejected or never submitted gets no final status, and a job is never sent to a worker again after its final status.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "for both queue managers and every interleaving of submissions, results, internal errors, worker arrivals, deaths and returns",
 "The unit tests drive at most two workers through one scripted exchange each, and only with the multi queue manager; loss or duplication shows up only over longer histories that mix failures, deaths and re-registrations.",
 [BH, SQ, MQ], [("result handling and retry", BH + ": process_worker_done, reassign_request, check_failure_count"), ("death handling", BH + ": process_timer"), ("ownership moves of requests", SQ + ", " + MQ)],
 [MSG], [("waiting and running requests", "every accepted, unfinished job is in exactly one of them", SQ + " jobs_/worker_jobs_, " + MQ + " queues_/current_requests_")])

prop("C02", "No job waits while a worker that should run it sits idle",
 "Single-queue mode: after every processed message, no accepted job is waiting while a registered idle worker satisfies its requirements. Multi-queue mode: an idle registered worker never has jobs waiting in its own queue, so when every worker is idle no accepted job is waiting. In both modes a worker that becomes free (result, failure, internal error of any kind, arrival) is given its next job as part of handling that very message.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "for both queue managers and every history of submissions, results, failures, deaths and arrivals, with workers of overlapping capabilities",
 "Tests only check that a second job is sent after the first one finished or failed; the stuck states need a failure outcome combined with particular queue contents and a second idle worker.",
 [BH, SQ, MQ], [("refill after a result", BH + ": process_worker_done"), ("refill on arrival", BH + ": process_worker_init; " + SQ + ": add_worker"), ("direct assignment", SQ + ": enqueue_request")],
 [MSG])

prop("C03", "Jobs go only to workers that satisfy all their requirements",
 "A job is only ever sent to a registered worker that satisfies every one of its requirement headers: some declared value of that header equals the required one, except that 'threads' needs a declared number at least as large and 'hwgroup' needs the worker's group to be one of the '|'-separated alternatives; 'meta.' headers are not requirements. A well-formed submission to a broker that is not frozen is accepted if and only if at least one currently registered worker satisfies all of them, and a rejection because of this is also reported to the monitor as FAILED. A 'threads' value that is not a number satisfies nothing.",
 ["inputs", "histories", "configurations"],
 "for every set of worker capabilities and requirement headers (repeated keys, alternatives, counts, metadata), at every point of a history including reassignment",
 "Tests evaluate about twenty hand-picked header pairs and never combine routing with changing worker populations or retries.",
 [WK, WR, SQ, MQ, BH], [("header matchers", WK), ("selection of a worker", SQ + ": select, assign_request, is_request_assignable; " + MQ + ": enqueue_request"), ("header parsing", BH + ": process_client_eval, process_worker_init")],
 [MSG])

prop("C04", "A worker has at most one job at a time and only live workers get jobs",
 "Between sending a job to a worker and receiving that worker's result for it (or declaring the worker dead), the broker sends that worker no other job and does not send that job to anybody else. Jobs are sent only to workers that are registered at that moment: never to an identity that is unknown or has been declared dead, including workers declared dead in the same step. A worker identity is registered at most once at any time.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "for both queue managers and every history, in particular several workers dying at once, late results, and repeated registrations",
 "Tests have at most two workers, and never two deaths in one step, a re-registration with different capabilities or a job in flight across them.",
 [BH, SQ, MQ, WR], [("busy bookkeeping", SQ + " worker_jobs_; " + MQ + " current_requests_"), ("removal of dead workers", BH + ": process_timer; " + WR + ": remove_worker")],
 [MSG, "set of registered workers"])

prop("C05", "Failed attempts are retried, and only up to the configured limit",
 "A job whose attempt ends with an internal error or with the death of the worker running it is attempted again (sent or queued) as long as its number of failed attempts is below the configured maximum and a capable worker is registered. When that number reaches the maximum the job is reported FAILED to the frontend and to the monitor and is never sent again, so no job is sent to workers more often than the maximum allows. A result with status FAILED is final and is never retried; waiting in the queue of a worker that dies does not count as a failed attempt.",
 ["histories", "fault_sequences", "configurations"],
 "for every limit >= 1, both queue managers, and every mix of internal errors and worker deaths hitting the same job",
 "Tests check one internal error and one death with the counter preset; not the accumulation over mixed failures, simultaneous deaths or queued jobs.",
 [BH, "src/worker.h"], [("failure counting", BH + ": process_worker_done, process_timer"), ("limit check", BH + ": check_failure_count")],
 [MSG], [("failure count", "failed attempts of a job", "src/worker.h request::failure_count")])

prop("C06", "A silent worker is declared dead in time, a heard one never is",
 "A registered worker from which nothing arrived for max_liveness times (ping_interval plus the longest clock tick) is declared dead and forgotten, no matter whether it ever sent anything after registering. A worker is never declared dead before it has been silent for max_liveness whole ping intervals; any message from it, of whatever kind, restarts the count. A ping is answered with 'pong' if the worker is registered and with 'intro' if it is unknown or was declared dead.",
 ["histories", "schedules", "configurations"],
 "for every max_liveness and ping_interval >= 1 and every sequence of clock ticks and worker messages, for each worker independently",
 "Tests preset the liveness counter to 1 and send one 1100 ms tick; the counter's whole life cycle from registration is never run.",
 [BH], [("liveness countdown", BH + ": process_timer"), ("reset on any message", BH + ": on_request"), ("registration", BH + ": process_worker_init")],
 ["set of registered workers", MSG], [("liveness, timer", "missed intervals left and time since the last one", "src/worker.h worker::liveness; broker_handler::worker_timers_")])

prop("C07", "The jobs of a dead worker are handed over or reported at once",
 "When a worker is declared dead, every job it was running, and every waiting job that can no longer be served because of it, is within the same step either sent to or queued for another registered capable worker, or reported FAILED to the frontend and to the monitor. A running job that will be attempted again is reported ABORTED to the monitor. Jobs running on other workers, and waiting jobs that other workers can serve, are not failed by the death.",
 ["histories", "fault_sequences", "configurations"],
 "for both queue managers, any number of workers dying in the same step, with running and waiting jobs of mixed requirements",
 "Tests let one worker die holding one job.",
 [BH, SQ, MQ], [("expiry handling", BH + ": process_timer, reassign_request, notify_monitor"), ("collection of affected jobs", SQ + ": worker_terminated; " + MQ + ": worker_terminated")],
 [MSG])

prop("C08", "Waiting jobs are served first come, first served",
 "A job is never sent to a worker while another job that this worker could run has been waiting uninterrupted (single-queue mode: in the common queue; multi-queue mode: in the queue of that same worker) since before the first one was even submitted (a worker trying once more what it just failed at aside). Jobs waiting for a worker that dies in multi-queue mode keep their order when they are handed over to the same other worker. This holds for any number of waiting jobs and any arrival rate, including many arrivals within the same millisecond and changes of the system clock.",
 ["histories", "schedules", "inputs", "configurations"],
 "for both queue managers, any backlog length, any timing of arrivals and any mix of requirements",
 "Tests queue at most one job per worker; ordering faults need a backlog of many jobs with equal or non-monotonic timestamps.",
 [SQ, MQ], [("arrival ordering", SQ + ": fcfs_job_comparator, assign_request"), ("per-worker FIFO", MQ + ": queues_")],
 [MSG])

prop("C09", "Job payload and progress messages are passed on unchanged",
 "A worker receives for each job exactly the frames 'eval', the job id and the frames the client sent after the empty delimiter, byte for byte and in order, on the first and on every repeated attempt. Every progress message of a worker with a payload is forwarded to the monitor exactly once, in order, with exactly its payload frames. Requirement headers and metadata are not part of what the worker receives.",
 ["inputs", "histories"],
 "for every number, size and content of frames (empty, binary, NUL, large), for first attempts, queued jobs and retries",
 "Tests use one or two short printable frames and look only at the first attempt.",
 [BH, "src/worker.h", RS], [("payload split and forwarding", BH + ": process_client_eval, send_request"), ("progress forwarding", BH + ": process_worker_progress"), ("framing", RS)],
 [MSG, "frames on the TCP sockets"])

prop("C10", "Every client request gets its own, single, well-formed answer",
 "Every well-formed submission is answered to its sender with 'ack' followed by exactly one of 'accept' or 'reject' (with a reason), and no other client receives anything. Statistics, freeze and unfreeze requests are each answered exactly once to their sender. Workers' messages and clock ticks never cause messages to clients, and a submission that is truncated before the end of its headers is never accepted and never reaches a worker.",
 ["inputs", "histories", "schedules"],
 "for every client identity, command sequence and interleaving of several clients and workers",
 "Tests use one client identity and two or three scripted requests.",
 [BH, "src/reactor/command_holder.cpp"], [("client dialogue", BH + ": process_client_eval, process_client_*"), ("dispatch of commands", "src/reactor/command_holder.cpp")],
 [MSG, "frames on the TCP sockets"])

prop("C11", "No message from a peer can crash or wedge the broker",
 "Whatever frames a client, worker or monitor peer sends, in whatever state, the broker keeps running without undefined behaviour, uncaught exception or hang, and goes on serving pings and submissions. A message that is not a valid request for its sender (unknown command, missing or malformed arguments, unknown sender) changes nothing for jobs, workers and clients other than its sender. This covers every command with every number of frames, including none of the expected arguments, non-numeric counts and binary data.",
 ["inputs", "histories", "fault_sequences"],
 "for every sequence of arbitrary multi-frame messages on the client, worker and monitor sockets interleaved with regular traffic",
 "Tests send only well-formed messages.",
 [BH, WK, RE, RS], [("argument checks", BH), ("number parsing", WK + ": count_matcher"), ("dispatch", "src/reactor/command_holder.cpp")],
 ["sanitizer reports, exceptions and exits of the broker process", MSG])

prop("C12", "Runtime statistics tell the truth",
 "In the answer to a statistics request following a clock tick, the numbers of queued jobs, known workers, idle workers and jobs in progress are those at that tick. Evaluated jobs equals the number of results OK the broker processed and failed jobs the number of failure results (FAILED or internal error) it processed for jobs actually held by their senders, from the start of the broker; both never decrease. is-frozen reflects the last freeze or unfreeze.",
 ["histories", "configurations"],
 "for both queue managers and after every prefix of any history",
 "No test requests the statistics.",
 [BH, SQ, MQ], [("counter updates", BH + ": process_timer, process_worker_done, process_client_get_runtime_stats"), ("queue length", SQ + ", " + MQ + ": get_queued_request_count")],
 ["answers to get-runtime-stats"])

prop("C13", "Jobs that workers bring along survive a broker restart",
 "A worker that registers announcing a job it is already running is treated as busy with that job: it is sent nothing until it reports that job done. Its result is reported to the frontend like any other (OK or FAILED); an internal error, or the death of that worker, is reported as FAILED because the job cannot be repeated. The announced job itself is never sent to any worker, and after it ended the worker takes further jobs normally.",
 ["histories", "crash_points", "configurations"],
 "for both queue managers, with any backlog of other jobs when the worker registers, finishes, fails or dies",
 "Tests check these outcomes in isolation with the multi queue manager only and with no other jobs waiting.",
 [BH, SQ, MQ, "src/worker.h"], [("announced jobs", BH + ": process_worker_init"), ("incomplete requests", "src/worker.h job_request_data; " + BH + ": process_worker_done, process_timer")],
 [MSG])

prop("C14", "Stale, foreign or malformed results have no effect",
 "A result message that comes from an unknown worker, from a worker that holds no job, names another job than the one its sender holds, lacks arguments or carries an unknown status causes no report to the frontend or monitor, sends no job, and changes the state of no job. In particular a late result of a worker that was declared dead does not finish the job now running elsewhere, and a repeated result is not counted or reported twice.",
 ["histories", "inputs", "fault_sequences"],
 "for every state of the broker and every result message",
 "No test sends a result that does not match.",
 [BH], [("result validation", BH + ": process_worker_done")], [MSG, "statistics"])

prop("C15", "Events reach every subscribed handler exactly once, in order, intact",
 "Each message received on a registered socket, and each message a handler addresses to another handler, is delivered exactly once to every handler subscribed to its origin, with its identity and frames unchanged, and each handler sees the messages of one origin in the order they arrived. This holds for synchronous and asynchronous handlers alike, from the moment the handler was added, and for any backlog a slow asynchronous handler accumulates. Whatever an asynchronous handler answers is sent once, in order, to the socket or handler it names.",
 ["schedules", "inputs", "histories"],
 "for any number of sockets and handlers, any thread timing (in particular delayed start of handler threads), any burst length and frame contents",
 "The reactor tests are excluded as flaky, are timing dependent and send at most 100 identical one-frame messages.",
 [RE, "src/reactor/reactor.h"], [("dispatch", RE + ": process_message, send_message, start_loop"), ("handler threads", RE + ": asynchronous_handler_wrapper")],
 ["handler invocations", "frames read from the peer sockets"])

prop("C16", "A slow or unreachable frontend never stalls the broker",
 "While reports to the frontend are slow, failing or being retried, the broker continues to answer pings and submissions and to dispatch jobs. Reports accumulated in the meantime are delivered once the frontend responds again, in the order they were issued; none is dropped because of the backlog.",
 ["schedules", "fault_sequences"],
 "for every duration and pattern of frontend slowness and failures short of the documented retry limit, and backlogs of thousands of reports",
 "No test runs the broker with its notifier.",
 ["src/broker_connect.cpp", RE, SN], [("asynchronous notifier handler", "src/broker_connect.cpp: constructor"), ("in-process queue", RE + ": asynchronous_handler_wrapper")],
 ["answers on the TCP sockets while HTTP requests hang", "HTTP requests received"])

prop("C17", "The clock ticks given to handlers add up to the time that passed",
 "Handlers that subscribe to clock ticks are told elapsed times whose sum follows the real time since the loop started, lagging by no more than one loop iteration, independent of how much traffic is processed, of how short the iterations are and of changes of the system clock. No tick is negative. With no traffic at all ticks still arrive several times per second.",
 ["schedules", "inputs", "histories"],
 "for every traffic pattern: idle, bursts, permanent load with sub-millisecond iterations, slow handlers, clock steps",
 "The only timer test asserts that at most one tick arrived.",
 [RE], [("elapsed time", RE + ": start_loop")], ["tick messages compared with the monotonic clock"])

prop("C18", "The reactor stops on request and shuts down cleanly from any state",
 "A termination request made at any time after construction, from any thread or from a handler, makes the event loop return after bounded work, also if it was made before the loop was entered. When the loop has returned or failed with an exception, destruction stops and joins all handler threads and neither hangs, crashes nor calls a handler afterwards, whatever messages are still pending.",
 ["schedules", "crash_points", "fault_sequences"],
 "for every point in time of the request, any number of asynchronous handlers, any backlog, and loops that end with an exception",
 "The termination test sleeps 10 ms before requesting termination and has no handlers; it hangs under load.",
 [RE, "src/reactor/reactor.h"], [("termination flag", RE + ": start_loop, terminate"), ("joining", RE + ": ~asynchronous_handler_wrapper"), ("destruction order", "src/reactor/reactor.h members")],
 ["return of start_loop", "threads alive after destruction"])

prop("C19", "Threads share no state without synchronisation",
 "No data race occurs between the main loop and the handler threads, and every messaging socket is used by a single thread once it is in operation. Asynchronous handlers run in their own thread, one call at a time, and hand their answers back to the main loop, which alone talks to the network peers.",
 ["schedules", "histories"],
 "for all thread interleavings of main loop and asynchronous handlers under load, startup and shutdown",
 "Tests run without race detection and mostly single-threaded.",
 [RE, "src/reactor/reactor.h"], [("hand-over through in-process sockets", RE + ": asynchronous_handler_wrapper")],
 ["ThreadSanitizer reports", "thread ids seen on each socket and in each handler"])

prop("C20", "The frontend gets every report, correctly addressed and encoded",
 "Each report is an HTTP POST to the configured address extended by its type and, for job reports, the job id, with the configured credentials and with form parameters that decode to exactly the reported status and message whatever characters they contain. A report that fails is repeated after increasing pauses, up to four attempts, until one succeeds; after a success it is not repeated. Reports are sent in the order they were issued and a report given up does not prevent later ones.",
 ["inputs", "fault_sequences", "configurations"],
 "for every job id and message text, every sequence of HTTP errors, refused and broken connections, with and without credentials",
 "No test exercises the HTTP side.",
 [SN, CU, "src/notifier/reactor_status_notifier.cpp"], [("retry loop", SN + ": on_request"), ("request building", CU + ": get_http_query, curl_post"), ("report contents", "src/notifier/reactor_status_notifier.cpp")],
 ["HTTP requests received by a local server", "requested sleep durations"])

prop("C21", "Configuration is read faithfully, with documented defaults",
 "For every YAML document the configuration either takes each given setting exactly as written and the documented default for each one left out, or loading fails with a configuration error; nothing else is thrown and no value is left undetermined. Null, a list or a map in place of a setting, and anything but a map in place of a section, counts as left out. A numeric setting that is not a number in range is an error, never a different number. Settings of one section do not influence another.",
 ["inputs", "configurations"],
 "for every subset of the documented settings, with valid, missing, mistyped and out-of-range values, in any order",
 "Tests load one complete document and three broken ones.",
 ["src/config/broker_config.cpp", "src/config/broker_config.h", "src/config/notifier_config.h", "src/config/log_config.h"], [("parsing", "src/config/broker_config.cpp: constructor"), ("defaults", "src/config/broker_config.h, notifier_config.h, log_config.h")],
 ["accessor values"])

prop("C22", "The broker program starts as configured or fails with an error",
 "Started with a valid configuration file the program listens for clients and workers on the configured addresses and uses the configured queue manager ('single' if none is named); the configured liveness and failure limits, monitor, frontend and log file (created with its directories, also relative to the working directory) take effect. With an unreadable, malformed or unsuitable configuration (including an unknown queue manager or an address that cannot be bound) it prints a message and exits with status 1 instead of crashing, hanging or running with other settings.",
 ["configurations", "inputs"],
 "for every queue manager setting, command line form and broken configuration or environment",
 "The executable is not even built by the test suite.",
 ["src/broker_core.cpp", "src/main.cpp", "src/broker_connect.cpp"], [("start-up", "src/broker_core.cpp"), ("endpoints", "src/broker_connect.cpp")],
 ["exit status, stderr, listening ports and dispatching behaviour of the process"])

prop("C23", "Dead workers and finished jobs leave nothing behind",
 "Once a worker has been declared dead, or a job has been finished or given up, the broker keeps no memory of it: the number of live internal objects depends on the registered workers and the unfinished jobs only, not on how many came and went before. A dead worker's identity can register again and is then treated like a new worker.",
 ["histories", "configurations"],
 "for both queue managers and arbitrarily long histories of workers and jobs coming and going",
 "Tests end after a few messages; growth shows only over many generations.",
 [BH, SQ, MQ, WR], [("removal", BH + ": process_timer; " + WR + ": remove_worker; " + SQ + ", " + MQ + ": worker_terminated")],
 ["reference counts of registered worker objects", "heap growth over generations"], [("worker_timers_", "per-worker timers", BH)])

prop("C24", "Messages on the network sockets never mix, split or go astray",
 "Every message handed to a network socket arrives at the addressed peer, if that peer is connected and keeps reading, as one message with exactly the given frames, and at nobody else. A message that cannot be delivered (unknown peer, no frames) is dropped without affecting any other message. Every message a peer sends is received as one message with that peer's identity and exactly its frames.",
 ["inputs", "histories", "schedules"],
 "for every frame count, size and content, any number of peers joining and leaving, and undeliverable messages in between",
 "No test covers the router socket wrapper.",
 [RS, "src/reactor/socket_wrapper_base.cpp"], [("framing", RS + ": send_message, receive_message")], ["frames read and written by raw peers"])

prop("C25", "Multi-queue mode spreads jobs over the capable workers in turn",
 "In multi-queue mode a job is bound on arrival to the capable worker that was chosen least recently (never-chosen workers first), so among workers with equal capabilities every one is chosen once before any is chosen twice. A bound job is served by that worker and no other unless the worker dies or the attempt fails.",
 ["histories", "configurations"],
 "for every population of workers with overlapping capabilities and every arrival, result and death order",
 "The test checks two jobs on two identical workers.",
 [MQ], [("rotation", MQ + ": enqueue_request, worker_queue_")], [MSG])

prop("C26", "A frozen broker takes no new jobs but completes what it has",
 "From the acknowledgement of a freeze until the acknowledgement of an unfreeze every submission is answered with a rejection and has no further effect. Jobs accepted before continue to be dispatched, retried, finished and reported exactly as without the freeze, and workers continue to register, be answered and expire. After unfreeze submissions are accepted as before.",
 ["histories", "schedules", "configurations"],
 "for every history with freezes and unfreezes (repeated, from different clients) at any point",
 "The test freezes once with nothing else going on and never unfreezes.",
 [BH], [("freeze flag", BH + ": process_client_freeze, process_client_unfreeze, process_client_eval")], [MSG], [("is_frozen_", "reject submissions", BH)])

prop("C27", "The latest registration of a worker is the one in force",
 "When a known worker registers again with the same group and capabilities, nothing changes and its job stays assigned. When it registers again with a different group or different capabilities, an error is reported to the frontend and from then on jobs are matched against the new registration only; the jobs of the replaced registration are handed over or reported as for a dead worker (a job the worker announces as still running stays with it), and results and pings of that identity count for the new registration.",
 ["histories", "inputs", "configurations"],
 "for both queue managers and repeated registrations in any state of the worker, idle or busy, with or without announced job",
 "The test repeats one identical registration of an idle worker.",
 [BH, WK, WR], [("repeated registration", BH + ": process_worker_init; " + WK + ": headers_equal")], [MSG, "set of registered workers"])

prop("C28", "Workers are named unambiguously in reports and logs",
 "The textual name of a worker is its identity with exactly two lower-case hexadecimal digits per byte, for every byte value, followed by its description in parentheses if it has one. Distinct identities therefore always have distinct names.",
 ["inputs"], "for all identities (binary ones are the rule) and descriptions",
 "The test names one ASCII identity.",
 ["src/helpers/string_to_hex.cpp", WK], [("hex conversion", "src/helpers/string_to_hex.cpp"), ("description", WK + ": get_description")], ["reported names"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
