#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": state or [], "observe_at": observe or [], "hook_needed": None}})

Q = "ekosis/queues/paginated_queue.py"; PQ = "ekosis/queues/pending_queue.py"
BH = "ekosis/requests/buffered_handler_base.py"; BS = "ekosis/sending/buffered_sender_base.py"

prop("C01", "Buffer queues are duplicate-free, lossless FIFO queues",
 "For every sequence of queue operations and every page size, a buffer queue behaves like one ordered map from request key to item: pops return each pushed item exactly once, in push order and with unchanged content, and pushing a key that is already queued changes nothing. Looking an item up or removing it by key, size, emptiness, listing the first N keys and clearing agree with that map no matter whether an item currently sits in memory or on disk.",
 ["histories", "inputs", "configurations"],
 "all operation sequences (push, duplicate push, pop, pop by key, inspect, size, first-N, clear) over a small key set up to a depth that forces several page spills and reloads, for page sizes 1..n",
 "The unit tests walk a few fixed fill/drain scripts with one page size; the front page / database / back page state machine has many more reachable shapes (partial front page, key removed from the middle of a spilled page, front and back page aliasing after a drain).",
 [Q, PQ], [("front page / sqlite / back page hand-over", Q), ("duplicate check on push", Q), ("record id ordering", Q)],
 ["push/pop/inspect/pop-by-key/size/first-N results"])

prop("C02", "Queued items survive orderly shutdown and restart unchanged",
 "A buffer queue that is shut down in an orderly way and opened again, any number of times, at any point of its history and with the same or a different page size, holds exactly the items it held before, in the same order and with the same content, retry counts and metadata. All queue operations then continue as if the restart had not happened.",
 ["histories", "configurations"],
 "all operation sequences with shutdown+reopen (and page size change) inserted at every position, several restarts per history",
 "The tests restart a queue a couple of times at fixed fill levels and compare sizes; order after a reload of both pages, repeated restarts and changed page sizes are not reached.",
 [Q, PQ], [("shut_down writes front page below and back page above the stored range", Q), ("initial load", Q)],
 ["reopened queue contents"])

prop("C03", "A killed process loses at most two pages and corrupts nothing",
 "If the process is killed outright at any point of any queue history, including in the middle of a spill, load, removal, clear or shutdown, the queue can be opened again and what survives is a subset of the items that were queued, each once, in original order and with intact content. No item whose removal had completed comes back, and never more than two pages' worth of queued items are missing.",
 ["crash_points", "histories"],
 "every database-visible point (before/after each SQL statement and commit) of every operation sequence up to a depth, for small page sizes",
 "No test kills anything; the guarantee is about every instant between statements and commits of every history.",
 [Q], [("single transaction per page write / load", Q)], ["reopened queue contents"])

prop("C04", "Every acknowledged buffered request gets exactly one outcome",
 "For every interleaving of request arrivals, handler completions, handler failures and handler exceptions, every request a buffered endpoint has acknowledged is either still queued, being processed, or has ended in exactly one of successful processing or the endpoint's error queue. While processing is not paused nothing stays queued: an idle endpoint has an empty pending queue, and requests are first handed to the handler in the order they were accepted, one at a time, with their original key and content.",
 ["schedules", "fault_sequences"],
 "all interleavings of arrivals with worker progress at event-loop tick granularity, and all outcomes (success, failure, exception; immediate or after suspension) of every attempt, up to a number of requests and attempts",
 "The tests send requests over a real socket and sleep; they see one timing of a cooperative scheduler and never a raising handler or an arrival in the tick in which the worker is stopping.",
 [BH, "ekosis/requests/buffered_handler.py", PQ, "ekosis/util/fire_and_forget_tasks.py"],
 [("queue worker loop", BH), ("acknowledge after enqueue", BH), ("worker wake-up", BH)],
 ["acknowledgement response, handler invocations, queue sizes"])

prop("C05", "Terminating and restarting an application loses no accepted message",
 "If an application is asked to terminate (SIGTERM, SIGINT or SIGHUP) at any moment, it stops, and after a restart every buffered request it had acknowledged and every message accepted by a buffered sender that was not yet completed is again pending or in the error queue, with its content intact and none of them duplicated. This includes the message being processed or sent when the termination arrived.",
 ["schedules", "crash_points"],
 "termination delivered at every event-loop boundary and inside user handler code of every explored schedule of arrivals, processing and sending, followed by a restart on the same buffer directory",
 "The tests terminate idle applications only; the documentation's promise that `kill` is completely safe is about every moment, in particular while a message is in flight.",
 ["ekosis/application_base.py", BH, BS, Q],
 [("signal handling and shutdown sequence", "ekosis/application_base.py"), ("in-flight item hand-back on cancellation", BH), ("same, sender", BS)],
 ["queue contents after restart, handler invocations"])

prop("C06", "Pausing and unpausing buffers does exactly what it says",
 "While processing (or sending) is paused no new attempt starts, although an attempt already under way finishes normally and new messages are still accepted; while receiving is paused every request is refused with the server-busy status and is not queued. Unpausing resumes work on everything that is waiting without needing another message, the two switches are independent, and no other management operation changes either of them.",
 ["schedules", "histories"],
 "all sequences of pause/unpause (each direction and both), arrivals, attempt completions and error-queue operations, interleaved with worker progress",
 "The tests toggle each switch once in an idle application and read the flag back.",
 [BH, BS, "ekosis/state_keepers/buffered_handler_keeper.py", "ekosis/state_keepers/buffered_sender_keeper.py", "ekosis/standard_endpoints/buffered_handler_manager.py", "ekosis/standard_endpoints/buffered_sender_manager.py", "ekosis/servers/server_base.py"],
 [("pause flags and worker restart", BH), ("same, sender", BS), ("busy status for refused request", "ekosis/servers/server_base.py")],
 ["handler invocations, response status, queue information"])

prop("C07", "Failing buffered requests are retried within their limit, then set aside",
 "A buffered request that keeps failing is attempted exactly as many times as its retry limit says (once if the limit is 0 or 1) and then sits in the error queue; it is never attempted again after a success or after being set aside, unless an operator reprocesses it, which gives it a fresh set of attempts. On every attempt the handler and the processing hooks receive the request's original key, content and receive-time metadata, and the hooks see the number of earlier failed attempts and the outcome of this one; all of this also holds across restarts.",
 ["histories", "fault_sequences", "configurations"],
 "all outcome sequences of all attempts, retry limits 0..4, reprocess and restart inserted between attempts, several requests in the queue",
 "The tests use one limit and a handler that always fails or always succeeds, without restart or hooks between attempts.",
 [BH, PQ, "ekosis/middleware/buffered_middleware_manager.py"],
 [("retry counter persisted with the entry", BH), ("metadata persisted with the entry", PQ), ("hooks around each attempt", "ekosis/middleware/buffered_middleware_manager.py")],
 ["hook and handler arguments, error queue"])

prop("C08", "Buffered senders deliver in order, retry only what makes sense, lose nothing",
 "Every message handed to a buffered sender is sent in the order it was handed over, under its key (one of its own if it brings none) and with its content (a key that is already waiting is not queued twice), until it is either delivered successfully, after which it is never sent again, or found in the sender's error queue. Only a busy server or exhausted communication retries are retried, at most as often as the configured limit (once if it is 0 or 1); any other failure moves the message to the error queue at once, and the configured wait period separates successive sends.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of hand-over with the send worker, all result sequences per attempt (success, busy, retries exhausted, every other exception class), limits 0..3, wait period zero and non-zero",
 "The tests send through a live server and see success and one failure type in one timing.",
 [BS, "ekosis/sending/buffered_sender_class.py", "ekosis/sending/buffered_sender.py", PQ],
 [("send worker loop", BS), ("retryable exception classes", BS)], ["messages sent, sender queues"])

prop("C09", "Error-queue management endpoints act on exactly the messages named",
 "For every state of a buffered endpoint's or buffered sender's queues and every sequence of management requests, inspect shows a message without moving it, pop removes and returns exactly that message, reprocess-one moves exactly that message and reprocess-all moves every message, in order, to the back of the pending queue, clear removes all error messages and nothing else, and first-10 lists the first ten error keys in order. Requests naming an unknown queue or message report so and change nothing, and the reported sizes and pause flags are the true ones.",
 ["histories", "inputs"],
 "all sequences of the management endpoints over error/pending queues of 0..n messages spread over memory and disk, present/absent keys, known/unknown queues, messages with and without payload",
 "Tests call each endpoint on one or two messages in one state; queues spanning several pages and payload-less messages are not covered.",
 ["ekosis/standard_endpoints/buffered_handler_manager.py", "ekosis/standard_endpoints/buffered_sender_manager.py", "ekosis/state_keepers/buffered_handler_keeper.py", "ekosis/state_keepers/buffered_sender_keeper.py", BH, BS, PQ],
 [("management endpoints", "ekosis/standard_endpoints/buffered_handler_manager.py"), ("move between queues", PQ)],
 ["endpoint responses, queue contents"])

prop("C10", "Each request gets exactly one well-formed response, in order, on any input",
 "On a stream connection every complete line received gets exactly one newline-terminated response, in the order received and however the bytes are split into packets: an acknowledge byte for an enquiry, otherwise one JSON document carrying the request's key if it could be read and a status describing the outcome. Malformed, undecodable or invalid requests and failing handlers produce an error response and never end the connection or affect other connections; over UDP every newline-terminated datagram gets exactly one reply to its sender in the same way.",
 ["inputs", "schedules", "fault_sequences"],
 "all sequences (up to a length) over an alphabet of valid, enquiry, malformed, non-UTF-8, non-object, oversized and failing requests, all splittings of the byte stream at chosen positions, several connections interleaved",
 "Tests send well-formed single requests plus a couple of malformed ones, each in one packet on its own connection.",
 ["ekosis/servers/stream_server_base.py", "ekosis/servers/server_base.py", "ekosis/servers/json/udp.py", "ekosis/requests/request_router.py"],
 [("line loop", "ekosis/servers/stream_server_base.py"), ("exception to status mapping", "ekosis/servers/server_base.py"), ("datagram handling", "ekosis/servers/json/udp.py")],
 ["bytes written to the peer"])

prop("C11", "Results, failures and payloads cross the wire unchanged",
 "A call through any client reaches the endpoint named, which receives exactly the data that was sent and the caller's key (a fresh one for every call that brings none), and the caller receives exactly the response the endpoint returned. Every failure reaches the caller as the exception documented for it: unparsable request, client denied, invalid data, unknown route, server busy, application-reported processing failure, unhandled exception, or an unknown status code, and never as a success.",
 ["inputs", "configurations"],
 "all payloads of a bounded alphabet (unicode, nesting, empty, extreme numbers, embedded newlines and control characters) x all handler outcomes x all defined and several undefined status values x all client kinds",
 "Tests check a few statuses over one or two transports with plain ASCII payloads.",
 ["ekosis/clients/client_base.py", "ekosis/servers/server_base.py", "ekosis/requests/request_router.py", "ekosis/requests/handler_base.py", "ekosis/requests/status.py", "ekosis/exceptions/response.py", "ekosis/sending/sender.py"],
 [("status to exception mapping", "ekosis/clients/client_base.py"), ("exception to status mapping", "ekosis/servers/server_base.py")],
 ["handler arguments, return value or exception of the call"])

prop("C12", "A caller never receives the answer to somebody else's request",
 "Whatever delays, losses, timeouts, disconnects, retries and heartbeats occur and however many calls share a client, a call that returns normally returns the answer the server gave to that very call, never the answer to an earlier, concurrent or heartbeat request.",
 ["schedules", "fault_sequences"],
 "all interleavings of two or three calls on one client with server replies that are prompt, late (after the timeout), lost, or replaced by a disconnect, with heartbeats enabled, for persistent stream and datagram clients",
 "Tests run calls against a prompt loopback server one after the other; a late reply never happens there.",
 ["ekosis/clients/persistent_stream_client_base.py", "ekosis/clients/datagram_client_base.py", "ekosis/clients/stream_client_base.py"],
 [("request/response pairing on a shared connection", "ekosis/clients/persistent_stream_client_base.py"), ("same, datagrams", "ekosis/clients/datagram_client_base.py")],
 ["return values of concurrent calls"])

prop("C13", "Client calls always end, within their retry budget, in a documented way",
 "Every call through a client ends with a response or one of the documented exceptions, after at most its configured number of attempts with the configured delay between them: timeouts and broken connections are retried, a refused connection and other failures are not. A call that gets an answer within its budget returns it, calls sharing a client do not disturb each other's outcome, and after a failed call the same client works again as soon as the server is reachable.",
 ["fault_sequences", "schedules", "configurations"],
 "all sequences of per-attempt faults (refused, reset on connect/write/read, timeout, end of stream, truncated answer, success) up to the budget, budgets 1..3, one and two concurrent calls, all client kinds",
 "Tests cover a refused connection and one timeout.",
 ["ekosis/clients/stream_client_base.py", "ekosis/clients/persistent_stream_client_base.py", "ekosis/clients/datagram_client_base.py", "ekosis/clients/client_base.py"],
 [("retry loop", "ekosis/clients/stream_client_base.py"), ("retry loop and reconnect", "ekosis/clients/persistent_stream_client_base.py"), ("retry loop", "ekosis/clients/datagram_client_base.py")],
 ["attempts seen by the server, call results, virtual time"])

prop("C14", "The LRU cache always evicts the least recently used entry",
 "For every capacity of at least one and every sequence of cache operations, the cache holds at most its capacity, contains exactly the entries set and not since removed or evicted, and evicts only when a new key exceeds the capacity, always the entry least recently set or got. Values, membership, length, peeks (which do not count as use), removal, pop of the most recently used entry, clear and iteration in most-recent-first order all agree with that.",
 ["histories", "configurations"],
 "all operation sequences up to a depth, or to a fixpoint of distinct states, for capacities 1..4 and one more key than fits",
 "The tests run one script per method on one capacity; a linked ring has corrupt states that need particular sequences of removal, reinsertion and promotion.",
 ["ekosis/cacheing/lru_cache.py", "ekosis/cacheing/cached_item.py"],
 [("ring of nodes plus dictionary", "ekosis/cacheing/lru_cache.py")], ["return values and iteration order"])

prop("C15", "Statistics add up",
 "For every sequence of requests, counter updates and gather periods, each successfully answered request is counted once in the period in which it finished and in no other, custom counters equal the sum of their updates since the last gather, and the reported 95th and 99th percentiles are those of the response times observed in that period, and lie within their range. Gathered periods are kept newest first up to the configured length and never change afterwards, and reported buffer sizes equal the real queue sizes.",
 ["histories", "schedules", "configurations"],
 "all sequences of endpoint calls, increments/decrements/sets, time ticks across gather boundaries, reads of current/last/full statistics, history lengths 1..3",
 "Tests read the statistics once or twice and check the presence of keys.",
 ["ekosis/state_keepers/statistics_keeper.py", "ekosis/servers/server_base.py", "ekosis/standard_endpoints/statistics.py"],
 [("gather loop and reset", "ekosis/state_keepers/statistics_keeper.py"), ("counting on success", "ekosis/servers/server_base.py")],
 ["statistics endpoint responses"])

prop("C16", "Concurrent requests never mix up their identity",
 "However requests on any number of connections, buffered processing and nested tasks interleave, each handler, middleware hook and log line sees the trace and span identifiers of the request it belongs to, and log lines written outside any request carry none. This holds for handlers that suspend, fail or raise, and also when log output is buffered and written later.",
 ["schedules"],
 "all interleavings of two or three requests (plain and buffered) whose handlers log before and after suspension points, with log buffering off and on",
 "Tests issue one request at a time and do not look at the identifiers in log lines.",
 ["ekosis/requests/request_context.py", "ekosis/servers/server_base.py", BH, "ekosis/logs/otlp_formatter.py", "ekosis/logs/buffered_rotating_file_handler.py"],
 [("context variable per task", "ekosis/requests/request_context.py"), ("formatter reads the context", "ekosis/logs/otlp_formatter.py")],
 ["log file lines, handler arguments"])

prop("C17", "Middleware runs in registration order and its changes take effect",
 "For any number of registered middlewares, every request to a known route passes through each request hook once, in registration order and before the handler, each hook receiving what the previous one returned, the last one's result deciding the endpoint and what its handler receives; every response passes the response hooks in the same way, and what the last one returns is sent. The metadata returned by buffered hooks at acceptance is merged with later ones winning, and is passed to the processing hooks, which run once around every attempt in registration order.",
 ["programs", "inputs"],
 "all stacks of up to three middlewares drawn from a set of behaviours (pass through, replace request data, replace response, raise, suspend), for plain and buffered endpoints",
 "Tests register one observing middleware.",
 ["ekosis/middleware/manager.py", "ekosis/middleware/buffered_middleware_manager.py", "ekosis/requests/request_router.py", BH],
 [("hook chains", "ekosis/middleware/manager.py"), ("metadata merge", "ekosis/middleware/buffered_middleware_manager.py"), ("router", "ekosis/requests/request_router.py")],
 ["hook call order and arguments, response"])

prop("C18", "Every log record is written exactly once, in order, through any buffering",
 "For every sequence of log calls, level changes, buffer-size changes, flushes and orderly restarts, with any rotation size, the log files together contain exactly one line of valid JSON for every record at or above the level in force when it was logged, in order and with its text intact; after a flush or orderly shutdown nothing is left unwritten. At most the configured number of buffered records is waiting, rotation discards only whole oldest files, and the configured level is in force from the start.",
 ["histories", "configurations", "inputs"],
 "all operation sequences over log calls (several levels, unicode, newlines), level and buffer-size requests and flushes, for buffer sizes 0..3 and rotation sizes forcing rollover on almost every record",
 "Tests set the level and buffer size once and check the response.",
 ["ekosis/logs/logger.py", "ekosis/logs/buffered_rotating_file_handler.py", "ekosis/logs/otlp_formatter.py", "ekosis/standard_endpoints/log_manager.py"],
 [("buffering handler", "ekosis/logs/buffered_rotating_file_handler.py"), ("level application", "ekosis/logs/logger.py")],
 ["log file contents"])

prop("C19", "Configuration values come from the most specific level that sets them",
 "For every setting, the value set for the instance wins over the application's, which wins over the machine's, which wins over the documented default; server addresses are taken from the instance level only, and settings of other applications or instances never leak in. The same rule governs extra settings, and a configuration file, if given, determines the instance's settings with unset ones falling back to the environment.",
 ["configurations", "inputs"],
 "all subsets of {machine, application, instance, other application, other instance} x every setting x names with overlapping prefixes x with/without configuration file",
 "Tests run under one fixed environment.",
 ["ekosis/configuration/config_models.py", "ekosis/configuration/argument_parser.py"],
 [("environment lookup chain", "ekosis/configuration/config_models.py"), ("extra settings merge", "ekosis/configuration/config_models.py")],
 ["application configuration object"])

prop("C20", "An application instance is never started twice, and stale locks never block",
 "For every history of starts, orderly ends and crashes, a start is refused exactly when the lock file names a process that is still alive, whoever owns it; otherwise it succeeds and leaves a lock naming itself. A lock left by a dead process, or one left empty or damaged by a crash, never prevents a start, and locks of other instances or applications have no influence.",
 ["histories", "crash_points"],
 "all sequences of start/exit/crash (including a crash between creating and writing the lock) of several processes and instances, with process ids alive, dead, reused and owned by another user",
 "The tests do not start an instance twice.",
 ["ekosis/application_base.py"],
 [("lock file check", "ekosis/application_base.py")], ["start result, lock file content"])

prop("C21", "The log shipper delivers every complete log line, in order, once",
 "For every history of log lines being appended (in pieces too), rotations, failed and successful posts, and shipper restarts and crashes, every complete line written is successfully posted, each once and in the order of its file, except that lines whose successful post had not been followed by the shipper's next wait when it died may be posted again, and that what is left unposted in a file that is rotated away before the shipper had a look at it, or while it was not running or had posts failing for it, may be missed. A partially written line is never posted before it is complete, and neither a line that is no log record nor a file being renamed ever ends the shipper or stops the shipping of other lines, nor do failing posts of one file stop the shipping of other files.",
 ["histories", "fault_sequences", "crash_points"],
 "all sequences of append/partial append/complete/rotate/new file/post result/restart up to a depth, on the real shipper loop",
 "There is one manual rotation program and no automated test.",
 ["ekosis_log_shipper/src/main.cpp", "ekosis_log_shipper/src/tracked_file.cpp", "ekosis_log_shipper/src/state_store.cpp"],
 [("inode identity and drain on rotation", "ekosis_log_shipper/src/tracked_file.cpp"), ("offset saved after success only", "ekosis_log_shipper/src/main.cpp"), ("resume state", "ekosis_log_shipper/src/state_store.cpp")],
 ["payloads posted"])

prop("C22", "Shipped log records carry exactly what was logged",
 "Every log line an application writes is converted into one telemetry log record with the same text, severity, timestamp, attributes (keeping their types), and trace and span identifiers when present, under the service name and instance that wrote it, with records in file order. A post counts as delivered exactly when the transfer succeeded with a 2xx status.",
 ["inputs", "fault_sequences"],
 "all combinations of severity, identifiers, attribute types, unicode/escape bodies and timestamps (with and without fraction, calendar boundaries) produced by the real formatter; all transfer results x status codes 100..599",
 "Nothing tests the conversion.",
 ["ekosis_log_shipper/src/otlp_envelope.cpp", "ekosis_log_shipper/src/http_sender.cpp", "ekosis/logs/otlp_formatter.py", "ekosis/data_transfer_objects/otlp_log_record.py"],
 [("record conversion", "ekosis_log_shipper/src/otlp_envelope.cpp"), ("post result", "ekosis_log_shipper/src/http_sender.cpp")],
 ["payload JSON, post result"])

prop("C23", "Tracing produces exactly one correctly-parented, ended span per unit of work",
 "With tracing enabled, every successfully answered request yields exactly one ended span that is a child of the caller's span in the caller's trace, and every processing attempt of a buffered request yields exactly one further ended span that is a child of the span under which the request was received, also after a restart or reprocessing. However requests interleave, no span is attributed to another request, and tracing never changes the response.",
 ["schedules", "histories"],
 "all interleavings of two or three requests, plain and buffered, successes and failed attempts, restart and reprocess between receive and process",
 "Nothing tests the tracing package.",
 ["ekosis_otlp_traces/ekosis_otlp_traces/middleware.py", "ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py", BH],
 [("span per request", "ekosis_otlp_traces/ekosis_otlp_traces/middleware.py"), ("receive span id in metadata", "ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py")],
 ["exported spans"])

prop("C24", "Metric export reports every service and every statistic faithfully",
 "Each scrape pushes, for every configured local service, a health of 1 if it answered (over any of its protocols) and 0 if it did not, and one failing service never affects the figures of another. For a service that answered, every call count, percentile, queue size and custom statistic of its own endpoints is exported exactly once with its value under that service's name and instance, and nothing is exported for the framework's internal endpoints or for percentiles without data (custom statistics whose names differ only in separators share a metric name, and are not covered).",
 ["inputs", "fault_sequences", "configurations"],
 "all statistics documents of a bounded grammar (group/endpoint nesting, custom counters, missing blocks) x all answer/failure patterns of up to three services x all service address settings",
 "Nothing tests the exporter.",
 ["ekosis_prometheus/ekosis_prometheus/stats_translator.py", "ekosis_prometheus/ekosis_prometheus/scraper.py", "ekosis_prometheus/ekosis_prometheus/service_discovery.py"],
 [("translation", "ekosis_prometheus/ekosis_prometheus/stats_translator.py"), ("scrape loop", "ekosis_prometheus/ekosis_prometheus/scraper.py"), ("discovery", "ekosis_prometheus/ekosis_prometheus/service_discovery.py")],
 ["pushed registry"])

prop("C25", "Error-state counters count exactly and clear exactly",
 "For every sequence of error reports and clear requests, each error id (case-insensitively) carries the number of reports not yet cleared; clearing some removes that many but never goes below zero, clearing with count zero removes all, unknown ids change nothing, and clearing never increases a count. The error listing contains exactly the ids with a positive count, once each, with their first description.",
 ["histories", "inputs"],
 "all sequences of increment/clear-some/clear-all/list over several ids in mixed case and counts from below zero to above the current count",
 "Tests follow one script.",
 ["ekosis/state_keepers/error_state_list.py", "ekosis/state_keepers/error_state_keeper.py", "ekosis/standard_endpoints/errors.py"],
 [("counter", "ekosis/state_keepers/error_state_keeper.py"), ("endpoints", "ekosis/standard_endpoints/errors.py")],
 ["endpoint responses"])

prop("C26", "Request keys round-trip through every representation",
 "Every request key (128-bit trace id, 64-bit span id) survives conversion to and from its text, binary, JSON and database form unchanged, equal keys are equal and hash alike whatever form they came from, different keys stay different, and leading zeros and high bits are kept. Text that is not a well-formed key is rejected instead of being read as some other key.",
 ["inputs"],
 "all identifier values from a boundary set (zero, one, all ones, each single bit, leading/trailing zero bytes) through all compositions of conversions; all malformed texts obtained by one or two edits from a small alphabet",
 "Tests use randomly generated keys, which practically never have leading zeros.",
 ["ekosis/data_transfer_objects/span_id.py", "ekosis/data_transfer_objects/json_protocol.py", Q],
 [("span id codec", "ekosis/data_transfer_objects/span_id.py"), ("key codec", "ekosis/data_transfer_objects/json_protocol.py")],
 ["converted values"])

prop("C27", "The command line tools do exactly what their options say",
 "Every invocation of a management command line tool (statistics, log, buffered endpoint manager, buffered sender manager), over any server type, sends exactly the request its options name, once, for exactly the queue and message key given (a tool given several independent settings sends each), connects to exactly the server given, and shows everything in the answer. Missing, contradictory or malformed options send nothing. A tool ends with success status only if its request was answered with success; failed connections, failure answers and answers that make no sense end it with a failure status, and it always ends.",
 ["inputs", "configurations", "fault_sequences"],
 "all combinations of up to two options in any order, keys present/absent/malformed, server types, and answers or failures; every management action through the tools in every reachable state of small queues",
 "Nothing tests the tools.",
 ["ekosis/cli/bem.py", "ekosis/cli/bsm.py", "ekosis/cli/stat.py", "ekosis/cli/log.py", "ekosis/cli/shared_functions.py", "ekosis/cli/senders/queue_management_sender_base.py"],
 [("choice of the action", "ekosis/cli/bem.py"), ("choice of the action", "ekosis/cli/bsm.py"), ("routes", "ekosis/cli/senders/buffered_endpoint_management.py"), ("client", "ekosis/cli/shared_functions.py")],
 ["requests on the wire, printed text, exit status"])

prop("C28", "Background tasks live exactly as long as the application",
 "Whatever an application's background tasks (added through setup_tasks) do and whenever it is told to terminate: all of them have started before the first request is handled; one that ends normally affects neither requests nor other tasks; the application ends when, and only when, one of them (or setup_tasks) fails or it is told to terminate, and then every background task still running is cancelled and has ended before the application's context ends, and no accepted message is lost.",
 ["schedules", "fault_sequences"],
 "all orders of background task endings and failures, request arrivals and the termination signal at every event-loop boundary, for up to three tasks, followed by a restart",
 "One test checks that a task starts.",
 ["ekosis/application_base.py", "documentation/setup_tasks.md"],
 [("start up and gather", "ekosis/application_base.py")],
 ["task lifecycle events, responses, queues after restart"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
