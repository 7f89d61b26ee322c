"""Source of properties.jsonl and MANIFEST.json (run tools/mkmanifest.py after editing)."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, level="exploration", observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, observe=list(observe)))


prop("C01", "A persisted queue is a FIFO of distinct requests, across disk and restarts",
     "For every sequence of pushes, pops, keyed look-ups, keyed removals, listings, moves, clears and clean "
     "shutdown/reopen cycles, with any page size, a queue hands out exactly the items pushed to it, each once, oldest "
     "first, with the payload and retry count it was pushed with. Its size, its listing of the first keys and its "
     "keyed look-ups always agree with that order, and a key that is already queued is never queued twice. Moving "
     "failed items back to the pending queue moves each of them exactly once and keeps the pending items in place.",
     ["histories", "inputs", "configurations"],
     "all operation sequences, page sizes, payloads and restart points",
     "tests use one short push/pop script; order and counts depend on how items straddle the two memory pages and the "
     "database, and on what was on disk at reopen",
     ["ekosis/queues/paginated_queue.py", "ekosis/queues/pending_queue.py"],
     [("front page / database / back page hand-over", "ekosis/queues/paginated_queue.py"),
      ("pending and error queue pair, reprocessing", "ekosis/queues/pending_queue.py")],
     "stateful model-based testing (Hypothesis operation sequences vs. ordered-dict reference model)",
     "Generated histories with small page sizes against the real SQLite files; trusts SQLite.")

prop("C02", "A killed process loses at most two pages per queue and never corrupts it",
     "If the process dies abruptly at any point of a queue's history, reopening the queue succeeds and yields requests "
     "that were really queued, in their original order, none twice and none that had already been cleared. Everything "
     "queued beyond what the two in-memory pages can hold is still there.",
     ["crash_points", "histories"],
     "every history and every instant at which the process can die, including between the statements of one write",
     "no test ever reopens files left by an unfinished process",
     ["ekosis/queues/paginated_queue.py"],
     [("write back page to disk / load front page from disk transactions", "ekosis/queues/paginated_queue.py")],
     "fault injection: crash snapshot at every SQL statement of generated histories, recovery vs. model bounds",
     "Crash = process death with OS surviving; snapshot taken at every statement and commit; SQLite journal recovery trusted.",
     level="fault_enumeration")

prop("C03", "Every acknowledged buffered request is processed to success or parked as failed",
     "Every request a buffered endpoint acknowledges is, at every quiet moment, in exactly one place: processed "
     "successfully, still pending, or in the error queue. It is attempted at most its configured number of times, goes "
     "to the error queue exactly when those attempts are used up (or processing raised or its data no longer "
     "validates), carries its own data, span key and context to each attempt, and is never processed while processing "
     "is paused. A request that is not acknowledged is never processed, and none is acknowledged while receiving is paused.",
     ["histories", "schedules", "fault_sequences"],
     "every interleaving of requests, processing outcomes, pauses, resumes and reprocess commands",
     "tests drive the handler with mocked queues and a single request",
     ["ekosis/requests/buffered_handler.py", "ekosis/requests/buffered_handler_base.py", "ekosis/requests/buffered_endpoint.py",
      "ekosis/queues/pending_queue.py", "ekosis/middleware/buffered_middleware_manager.py"],
     [("receive / process loop", "ekosis/requests/buffered_handler_base.py"),
      ("retry accounting and error queue", "ekosis/queues/pending_queue.py")],
     "model-based testing of request histories on a virtual-time event loop, conservation and attempt-count oracle",
     "Real server, real queues, simulated clock; processing functions are scripted per attempt.")

prop("C04", "Orderly termination loses nothing and the next run resumes where it stopped",
     "When the application is told to terminate, at whatever moment and while whatever task is running, every "
     "acknowledged request that has not been finished is kept on disk and processed by the next run with its attempt "
     "count intact, and no finished or failed request is processed again. The process itself always ends, and the next "
     "run can start at once and finds both queues readable.",
     ["crash_points", "schedules", "histories"],
     "every instant of termination in every history, over several consecutive runs, and every termination signal",
     "tests never run an application to termination, let alone with work in progress",
     ["ekosis/application_base.py", "ekosis/requests/buffered_handler_base.py", "ekosis/sending/buffered_sender_base.py",
      "ekosis/queues/pending_queue.py"],
     [("signal handling and shutdown sequence", "ekosis/application_base.py"),
      ("shut_down of buffered handlers and senders", "ekosis/requests/buffered_handler_base.py")],
     "fault injection: cut-off at generated instants (in-process) and real signals to real processes, model oracle over runs",
     "In-process cut-offs mirror what a terminating application does; process-level cases use real signals and sockets.",
     level="fault_enumeration")

prop("C05", "A buffered sender delivers every accepted message or parks it as failed",
     "Every message accepted by a buffered sender is at every quiet moment delivered, pending or in its error queue, "
     "across pauses and restarts. Only busy servers and exhausted communication retries are retried, at most the configured "
     "number of times; every other failure parks the message at once. Each delivery attempt carries the "
     "message's own data and original span key, oldest first, and attempts are at least the configured wait period apart.",
     ["histories", "fault_sequences", "crash_points"],
     "every sequence of messages, peer behaviours, pauses and restarts",
     "tests mock the client and queue and send one message",
     ["ekosis/sending/buffered_sender_base.py", "ekosis/sending/buffered_sender.py", "ekosis/sending/buffered_sender_class.py"],
     [("send loop and failure classification", "ekosis/sending/buffered_sender_base.py")],
     "model-based testing of send histories with scripted peer faults on a virtual-time loop",
     "Peer scripted below the retry loop; real transports are covered by C08/C09; simulated clock.")

prop("C06", "Queue-management commands act exactly as named, only on the queue named",
     "Each management command of buffered endpoints and buffered senders (pause, resume, statistics, list, inspect, "
     "remove, reprocess one or all, clear) has exactly its documented effect on the queue it names and none on any "
     "other queue, and its answer describes the resulting state truthfully. Unknown queues and unknown request ids are "
     "reported as such and change nothing.",
     ["histories", "inputs"],
     "every sequence of management commands mixed with traffic over several queues",
     "tests call single commands against mocks",
     ["ekosis/standard_endpoints/buffered_handler_manager.py", "ekosis/standard_endpoints/buffered_sender_manager.py",
      "ekosis/requests/buffered_handler_base.py", "ekosis/sending/buffered_sender_base.py", "ekosis/queues/pending_queue.py"],
     [("management endpoints", "ekosis/standard_endpoints/")],
     "stateful model-based testing over the wire (commands vs. reference model of four queues)",
     "Real server and queues; model compared after every command.")

prop("C07", "Every request line gets one well-formed response; no input silences the server",
     "On every transport, each complete request message gets exactly one response, in order on its connection, in the "
     "same framing, echoing that request's span key when it has one, with the documented status for success, malformed "
     "input, unknown route, invalid data and failures inside an endpoint. No byte sequence, chunking, "
     "disconnect or endpoint failure stops the server from answering other requests and other connections.",
     ["inputs", "schedules", "fault_sequences"],
     "every byte sequence in every chunking over every transport, and every endpoint outcome",
     "tests send a few valid and one or two invalid messages to a mocked transport",
     ["ekosis/servers/server_base.py", "ekosis/servers/stream_server_base.py", "ekosis/servers/json/tcp.py",
      "ekosis/servers/json/udp.py", "ekosis/servers/json/uds.py", "ekosis/requests/request_router.py"],
     [("parse, route, respond", "ekosis/servers/server_base.py"), ("line framing", "ekosis/servers/stream_server_base.py")],
     "grammar-based and mutational fuzzing of real TCP/UDS/UDP servers with an independent response classifier",
     "Lines beyond the 64 KiB stream limit may be answered with an error or a closed connection.")

prop("C08", "A caller only ever gets the response to its own request",
     "However calls on one client overlap, time out, are abandoned by their caller or have their connection broken, a "
     "call that returns a result returns the response to its own request, never one belonging to an earlier or "
     "concurrent call. Every call ends, and a call whose peer answers in time succeeds.",
     ["schedules", "fault_sequences", "histories"],
     "every overlap of calls, response delay, cancellation and disconnect, on every client kind",
     "tests make one call at a time against a prompt peer",
     ["ekosis/clients/client_base.py", "ekosis/clients/stream_client_base.py", "ekosis/clients/persistent_stream_client_base.py",
      "ekosis/clients/datagram_client_base.py", "ekosis/clients/json/"],
     [("request/response exchange on persistent, transient and datagram clients", "ekosis/clients/")],
     "schedule fuzzing of overlapping calls against scripted peers on a virtual-time loop, correlation oracle",
     "Peers answer each connection's requests in order, at most once each.")

prop("C09", "Every way a call fails surfaces as its documented error, in bounded attempts",
     "Every error status maps to its own documented error; time-outs, refused, closed and broken connections are "
     "reported as communication failures after no more than the configured attempts, spaced by the configured "
     "delays, and nothing else escapes. A call after the peer has recovered works again, and a successful call "
     "returns the response data validated into the declared type.",
     ["fault_sequences", "histories", "configurations"],
     "every sequence of per-attempt peer behaviours, retry limits and client kinds",
     "tests cover a single status and a single time-out per client",
     ["ekosis/clients/client_base.py", "ekosis/clients/stream_client_base.py", "ekosis/clients/persistent_stream_client_base.py",
      "ekosis/clients/datagram_client_base.py", "ekosis/exceptions/"],
     [("retry loop and exception mapping", "ekosis/clients/")],
     "fault-sequence fuzzing against scripted peers, reference model of the retry loop",
     "max_retries >= 1; an aborted connection may look like a reset or an end of stream.")

prop("C10", "A request reaches exactly the endpoint it names, via the whole middleware chain",
     "Each request runs exactly the endpoint registered under its exact route name, once, with its validated data and "
     "its own span key, after every middleware's before-hook and before every after-hook, each in registration order "
     "and each seeing what the previous one produced. Invalid data and unknown routes run no endpoint, a taken "
     "route name cannot be registered again, and a failing middleware or endpoint affects only its own request.",
     ["inputs", "schedules", "configurations"],
     "every route table, middleware chain and overlap of requests",
     "tests use one route and mocked middlewares",
     ["ekosis/requests/request_router.py", "ekosis/requests/endpoint.py", "ekosis/requests/buffered_endpoint.py",
      "ekosis/requests/standard_handler.py", "ekosis/requests/handler_base.py", "ekosis/middleware/manager.py"],
     [("routing", "ekosis/requests/request_router.py"), ("middleware manager", "ekosis/middleware/manager.py")],
     "generated route tables and middleware chains, trail oracle over concurrent requests to a real server",
     "Middlewares keep the route key and span key unchanged.")

prop("C11", "A request's span key survives every representation and every hop unchanged",
     "A span key converted between its text, byte, JSON, stored and logged forms is always the same key, different "
     "keys are never confused, and text that is not a well-formed key is rejected. A key handed from an endpoint to a "
     "sender arrives unchanged at every endpoint, plain or buffered, and calls without one each get a key of their "
     "own; overlapping requests never see each other's keys.",
     ["inputs", "schedules"],
     "every 192-bit key, every key text, every overlap of call chains",
     "tests use one generated key; leading zeros, signs, extremes and overlapping chains are not sampled",
     ["ekosis/data_transfer_objects/span_id.py", "ekosis/data_transfer_objects/json_protocol.py",
      "ekosis/requests/request_context.py", "ekosis/sending/sender_base.py", "ekosis/clients/client_base.py"],
     [("span key codec", "ekosis/data_transfer_objects/span_id.py"), ("propagation through senders", "ekosis/sending/")],
     "round-trip and grammar-differential testing of key codecs, generated overlapping call chains over real servers",
     "Random ids are assumed not to collide.")

prop("C12", "The log holds exactly the records logged, in order, each under its own request",
     "Whatever level, buffer size and rotation are configured or set at run time, every record at or above the level in "
     "force is written exactly once, in order, as one JSON line with the text, severity and time it was logged with and "
     "the trace and span id of the request it was logged in, in the file, on the console or in both, as configured. On any "
     "orderly or failing exit nothing buffered is lost, also when the console is gone; a "
     "kill loses at most the buffered records, and rotation keeps the configured number and size of files.",
     ["histories", "schedules", "configurations"],
     "every logging program, level/buffer change, rotation setting and end of the process",
     "tests check that the management endpoints answer; what lands in the files is not examined",
     ["ekosis/logs/logger.py", "ekosis/logs/buffered_rotating_file_handler.py", "ekosis/logs/otlp_formatter.py",
      "ekosis/standard_endpoints/log_manager.py", "ekosis/requests/request_context.py"],
     [("buffering and rotation", "ekosis/logs/buffered_rotating_file_handler.py"), ("record format", "ekosis/logs/otlp_formatter.py")],
     "generated logging programs in forked processes, log-file contents compared with the program's own journal",
     "Records are logged from the event-loop thread; the log directory is writable.")

prop("C13", "Reported statistics are the truth about what the application did",
     "At any moment, the current, last-gathered and historical statistics of an application report, for every endpoint, "
     "exactly the number of calls it answered in the period, with 95th and 99th percentiles drawn from the durations "
     "really measured; queue sizes are the real sizes at that moment, and custom statistics are what was set, added and "
     "subtracted. Each gathered entry covers exactly one gather period, newest first, and the history never holds more "
     "than the configured number of entries.",
     ["histories", "schedules", "configurations"],
     "every schedule of overlapping calls, outcomes, gather periods, history lengths and instants at which statistics are asked for",
     "tests ask a freshly started keeper once; period boundaries, overlaps and long histories are not sampled",
     ["ekosis/state_keepers/statistics_keeper.py", "ekosis/standard_endpoints/statistics.py", "ekosis/requests/request_router.py",
      "ekosis/requests/endpoint.py"],
     [("gathering, resetting and history", "ekosis/state_keepers/statistics_keeper.py")],
     "generated call schedules against a whole application on virtual time, journal-slicing oracle",
     "Failed calls are not counted (as in the code); gather period of at least one second.")

prop("C14", "The LRU cache is a bounded map that evicts exactly the least recently used entry",
     "For every sequence of operations and every capacity, the cache behaves like a map whose entries are exactly the most "
     "recently used ones: it never exceeds its capacity, a full cache drops the least recently used entry and no other, "
     "peeking and membership tests do not count as use, and every value, listing and length is what the operations so far "
     "imply.",
     ["histories", "configurations"],
     "every operation sequence and capacity",
     "tests use a handful of fixed scripts with one capacity; the links between entries depend on the whole history",
     ["ekosis/cacheing/lru_cache.py", "ekosis/cacheing/cached_item.py"],
     [("ring of cached items", "ekosis/cacheing/lru_cache.py")],
     "stateful model-based testing (operation sequences vs. ordered-dict reference model)",
     "Capacity >= 1; single-threaded use.")

prop("C15", "The effective configuration follows the documented precedence",
     "Each setting takes the value of the most specific level at which it is given: instance variable, then application "
     "variable, then machine variable, then the default; values in a configuration file win over all of them, and only the "
     "entry of the running instance is used. Variables of other applications and instances never leak in, an invalid "
     "configuration is refused, and the running application uses exactly the directories, socket and log files that the "
     "effective configuration names.",
     ["inputs", "configurations"],
     "every script name, instance id, combination of levels and partial configuration file",
     "tests fix one environment at import time",
     ["ekosis/configuration/config_models.py", "ekosis/configuration/argument_parser.py", "ekosis/util/utility_functions.py",
      "ekosis/application_base.py"],
     [("environment and file resolution", "ekosis/configuration/config_models.py")],
     "generated environments, files and command lines in fresh processes, differential against an independent resolver",
     "An empty variable counts as unset; values have the documented type.")

prop("C16", "One process per instance at a time, and a stale lock never blocks a start",
     "However many processes start the same instance of an application at the same time, and whatever was left behind by "
     "earlier runs, at most one is inside at any time, and one gets in when none is. A refused start names the process "
     "that is running and leaves its lock untouched; a lock left by a process that no longer runs, or that names nobody, "
     "does not block a start, and the locks of other instances are never affected.",
     ["schedules", "crash_points", "histories"],
     "every overlap of starts, every way an earlier run ended, every content of the lock file",
     "tests start one process at a time",
     ["ekosis/application_base.py"],
     [("lock file handling", "ekosis/application_base.py")],
     "schedule fuzzing of racing real processes with delays injected at their file operations, mutual-exclusion oracle",
     "One lock directory on a local file system; a dead process id has not been reused.")

prop("C17", "The log shipper delivers every log line once and in order, whatever happens",
     "Every complete line written to a watched log file reaches the endpoint exactly once, in the order written, however "
     "often the file is rotated (also several times while the endpoint is failing), in whatever pieces it is written and "
     "whatever errors the endpoint returns. A killed shipper resumes where the endpoint had accepted everything: nothing "
     "unread in the current file is lost and at most the last accepted batch is sent again. Only what was rotated away "
     "undelivered by the time a shipper starts may be missing.",
     ["histories", "crash_points", "fault_sequences", "schedules"],
     "every history of writes, rotations, endpoint failures, kills and restarts",
     "the only test is a manual single-rotation script",
     ["ekosis_log_shipper/src/tracked_file.cpp", "ekosis_log_shipper/src/main.cpp", "ekosis_log_shipper/src/state_store.cpp",
      "ekosis_log_shipper/src/http_sender.cpp"],
     [("tailing by inode through rotations", "ekosis_log_shipper/src/tracked_file.cpp"),
      ("position recorded after acceptance", "ekosis_log_shipper/src/main.cpp")],
     "model-based histories with fault injection (endpoint failures, kills around each request) against the real binary",
     "Rotation renames files between lines, as the application's handler does; inode numbers are not reused while the shipper is down.",
     level="fault_enumeration")

prop("C18", "Shipped records equal the logged ones, and no line or file stops the others",
     "Every well-formed log line arrives at the endpoint as one OTLP record with the same time, severity, text, attribute "
     "names and values and ids, under the service name and instance of the application that logged it. Lines that are "
     "not log records, and directory entries that cannot be read, never keep any other line from arriving, before or "
     "after a restart.",
     ["inputs", "histories"],
     "every record content and encoding, every kind of damaged line or unreadable entry, in any position",
     "no test builds a payload from generated records or feeds a damaged line",
     ["ekosis_log_shipper/src/otlp_envelope.cpp", "ekosis_log_shipper/src/main.cpp", "ekosis/logs/otlp_formatter.py",
      "ekosis/data_transfer_objects/otlp_log_record.py"],
     [("record conversion", "ekosis_log_shipper/src/otlp_envelope.cpp")],
     "generated records and structured mutations of log files, end-to-end differential through the real binary",
     "Damaged lines may be delivered in any form or dropped; integers fit 64 bits.")

prop("C19", "The Prometheus exporter publishes exactly what the local services report",
     "Every local service that the environment names, over whichever transport and however its socket is named, is polled each "
     "period; every push contains, for each service that answered, exactly its uptime, calls, percentiles, queue sizes and "
     "custom values under that service's name and instance and the right route, and for each service that did not answer a "
     "health of 0. A service or gateway that fails in any way never changes what is published about the others or later.",
     ["inputs", "histories", "fault_sequences"],
     "every set of services, shape of statistics and history of failures",
     "no test runs the exporter",
     ["ekosis_prometheus/ekosis_prometheus"],
     [("discovery, polling and conversion", "ekosis_prometheus/ekosis_prometheus")],
     "generated services, statistics and fault sequences against the real exporter on virtual time, differential of every push",
     "Service identities are distinct; custom keys do not collide once dots and dashes become underscores; framework endpoints are not published.")

prop("C20", "Every traced request appears once in the traces, with all its attempts",
     "With tracing set up, each request to a known route gives exactly one span that ends with the outcome of that request, and "
     "each attempt to process a buffered request exactly one more, all in the trace of the request's span key and "
     "under the right parent, whatever overlaps, fails, is retried, is reprocessed or is processed by a later run.",
     ["schedules", "histories", "fault_sequences"],
     "every overlap of requests, also with equal keys, every outcome and every sequence of attempts",
     "no test looks at exported spans",
     ["ekosis_otlp_traces/ekosis_otlp_traces", "ekosis/middleware", "ekosis/requests/request_router.py"],
     [("span book-keeping per request", "ekosis_otlp_traces/ekosis_otlp_traces/middleware.py"),
      ("span book-keeping per attempt", "ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py")],
     "generated overlapping histories on virtual time, exported spans decoded and compared with the journal of requests and attempts",
     "An attempt cut off by termination need not have a span; unknown routes are not traced.")

prop("C21", "Reported error states are exactly the errors raised and not yet cleared",
     "After any history of raising and clearing, through the list object and over the wire, every way of asking reports for each "
     "error id (letter case ignored) exactly the number of times it was raised and not cleared, with the description it was "
     "first raised with, and lists only errors with a count above zero. Clearing zero by request clears all, clearing more than "
     "there are leaves none, clearing never adds, and other or unknown ids are never affected.",
     ["histories", "inputs"],
     "every history of raises and clears, every id and every count",
     "tests raise and clear one id",
     ["ekosis/state_keepers/error_state_keeper.py", "ekosis/state_keepers/error_state_list.py", "ekosis/standard_endpoints/errors.py"],
     [("counting", "ekosis/state_keepers/error_state_keeper.py"), ("management endpoints", "ekosis/standard_endpoints/errors.py")],
     "model-based operation histories over the list object and a real server, full comparison after every step",
     "Ids that differ only in letter case are the same error.")

prop("C22", "Each command line does exactly the one thing it says, and shows the answer",
     "Every command line of the four tools sends exactly the requests it stands for, to the server, queue and request it names, over "
     "the chosen transport, and shows all of the answer; a command line that is incomplete, contradictory or malformed sends "
     "nothing and ends with an error, as does one whose server refuses or answers nonsense.",
     ["inputs", "fault_sequences"],
     "every combination, order and spelling of options, every answer",
     "no test runs the tools",
     ["ekosis/cli"],
     [("buffered endpoint tool", "ekosis/cli/bem.py"), ("buffered sender tool", "ekosis/cli/bsm.py")],
     "grammar-generated command lines in forked processes against a scripted server, differential of requests and output",
     "Host names contain no colon.")

prop("C23", "An application serves and runs its tasks from start to end, and ends in order",
     "Whatever runs before, an application answers on every transport it is configured for during its whole life, and no request "
     "holds up one from another client. Its background tasks are running before the first request is served, a finished one "
     "changes nothing, a failing one ends the application, and all others are cancelled and cleaned up at the end. Functions run "
     "soon run exactly once, as called, after their caller went on. However it ends, also while starting, acknowledged "
     "requests stay queued, and leftovers of a run never prevent the next; one that cannot listen ends instead. An end by "
     "signal leaves no errors in the log.",
     ["schedules", "histories", "fault_sequences"],
     "every set of transports and tasks, every overlap of requests, every instant and way of ending",
     "tests use one transport and stop applications by killing them",
     ["ekosis/application_base.py", "ekosis/servers", "ekosis/util/fire_and_forget_tasks.py"],
     [("start and shutdown", "ekosis/application_base.py"), ("servers", "ekosis/servers")],
     "generated multi-run histories of whole applications on virtual time, journal oracle",
     "A cancelled background task ends; requests on one stream connection are answered one after the other.")

prop("C24", "Connections, sockets, tasks and requests never pile up",
     "After any history of calls (answered, failed, timed out, given up, cut off, refused, to a peer that no longer reads) a transient "
     "client holds no connection and a persisted or UDP client at most one, whether or not the caller keeps the errors. A "
     "persisted client keeps its connection while it works, and regains it by itself after an outage. A closed "
     "persisted client stays closed until it is used again, and then works at once. A server holds no sockets, tasks or request "
     "data of clients that have left or requests that are done, however they left.",
     ["histories", "fault_sequences", "schedules"],
     "every history of calls, failures, disconnects and closes, every client and transport",
     "tests make a handful of calls against a healthy server and never count what is left",
     ["ekosis/clients", "ekosis/servers"],
     [("transient streams", "ekosis/clients/stream_client_base.py"), ("persisted streams", "ekosis/clients/persistent_stream_client_base.py"),
      ("datagrams", "ekosis/clients/datagram_client_base.py"), ("stream server", "ekosis/servers/stream_server_base.py")],
     "stateful fault-injection histories on virtual time, resource-count invariant at quiet moments (seen from the peer and from the process)",
     "A quiet moment has no call under way; what the garbage collector can reclaim is not left over.")

prop("C25", "Address, identifier and flattening helpers decide exactly what they say",
     "For every text, the published helpers accept exactly the well-formed IPv4 addresses, host names (labels of letters, digits and inner hyphens, "
     "length limits observed), decimal port numbers up to 65535, URLs with scheme and host, and UUIDs, answer with a plain yes or no instead of an error, and "
     "resolve a machine name only for valid ones. Flattening a nested dictionary yields every leaf exactly once under its dotted path, with its value, in order, and "
     "leaves the original as it was.",
     ["inputs"],
     "every text and every nested dictionary with non-empty, dot-free keys",
     "tests try one or two texts per helper",
     ["ekosis/util/utility_functions.py"],
     [("helpers", "ekosis/util/utility_functions.py")],
     "property-based testing of grammar-based and mutated texts against independent recognisers",
     "Port numbers padded with zeros beyond five digits and exotic UUID spellings may go either way.")

prop("C26", "A disk that is full for a while loses, repeats and blocks nothing",
     "While the files of the queues cannot be written (full disk, exhausted quota), whoever is acknowledged stays queued and whoever cannot be is told so and never "
     "processed; no request is lost, handed out twice or reordered, commands that cannot be carried out fail and change nothing, what needs no storage is answered "
     "as ever, and attempts are counted as ever. As soon as the files can be written again, without a restart, everything pending is processed and kept. The "
     "log file goes on with whole lines, each once and in order. An application that is terminated while the disk is full still ends, and the next run starts.",
     ["fault_sequences", "histories", "schedules"],
     "every history of a queue, a buffered endpoint, a buffered sender or an application, and every stretch and point at which writing fails",
     "no test ever lets a write fail",
     ["ekosis/queues/paginated_queue.py", "ekosis/queues/pending_queue.py", "ekosis/requests/buffered_handler_base.py", "ekosis/sending/buffered_sender_base.py", "ekosis/application_base.py"],
     [("writing, loading and deleting pages", "ekosis/queues/paginated_queue.py"), ("processing loop, reprocessing", "ekosis/requests/buffered_handler_base.py"),
      ("sending loop, reprocessing", "ekosis/sending/buffered_sender_base.py"), ("shut-down of all queues", "ekosis/application_base.py")],
     "model-based testing with injected write failures (RLIMIT_FSIZE) over generated histories, on virtual time",
     "Reads work while writes fail. Termination while the disk is full may lose what is only in memory.",
     level="fault_enumeration")
