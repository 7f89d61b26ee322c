#!/usr/bin/env python3
"""Writes known_findings.json: the fixed defects (commit looked up by subject in /repo) and the recorded ones."""
import json, os, subprocess
FIXED = [  # (property, commit subject without 'fix: ', what failed)
 ("C01", "report the first x span keys across front page, database and back page", "first-x listing skipped what was in the database and back page, e.g. page size 2, 9 pushes, first 10 -> 2 keys"),
 ("C01", "keep FIFO order of the back page when it is loaded after a restart", "after shutdown and reopen with more than one page queued, the newest page came out in reverse order"),
 ("C03", "a buffered request whose processing raises goes to the error queue instead of being lost", "a processing function that raises lost the request and stopped the processing loop"),
 ("C03", "answer server-busy when receiving is paused on a buffered endpoint", "a request to a buffered endpoint paused for receiving was answered 'unhandled' (999) instead of 'busy' (500)"),
 ("C03", "queue a buffered request before acknowledging it, so it is neither lost nor left unprocessed", "a request acknowledged while the process loop was finishing stayed unprocessed, and could be lost on termination"),
 ("C03", "reprocessing the error queue no longer silently resumes a paused buffer", "reprocess all/one on a paused queue resumed processing"),
 ("C04", "a request in progress when the application terminates stays queued for the next run", "terminating while a request was being processed lost it"),
 ("C03", "a queued request that no longer validates goes to the error queue instead of being lost", "a queued request whose stored data does not validate was lost and stopped the loop"),
 ("C04", "a termination signal terminates the application no matter which task it interrupts", "the exit-signal exception surfaced in whichever task was executing and was swallowed there"),
 ("C06", "a failed request without data is found in the error queue", "inspect/pop/reprocess of a failed request with an empty payload reported 'no request with span-key'"),
 ("C07", "answer requests that are not UTF-8, or whose response cannot be serialised, instead of going silent", "a request line that is not UTF-8, or an unserialisable response, got no answer and killed the connection handler"),
 ("C08", "a persisted client never takes a late response for the response to another request", "after a time-out the next call on a persisted client returned the previous call's response"),
 ("C08", "the UDP client never takes a late response for the response to another request", "after a time-out the next call on a UDP client returned the previous call's response"),
 ("C08", "concurrent sends on a transient client no longer cut each other's retries short", "the retry counter was shared between concurrent calls, which then ended without any result"),
 ("C09", "a truncated response is a communications failure, not a parsing error", "a response cut off by a closing peer raised a JSON error"),
 ("C09", "a client-denied response raises ClientDeniedException", "status 200 raised the wrong exception"),
 ("C12", "apply the configured logging level", "the level given by ECOENV_LOG_LEVEL or the configuration file was ignored: everything was logged at DEBUG"),
 ("C12", "a buffered log record keeps the request and the values it was logged with", "with a log buffer, records were formatted when flushed: wrong or missing trace/span id, values changed since"),
 ("C11", "reject span ids that are not sixteen hexadecimal digits", "span ids such as -000000000000001 or 0x0000000000000a were accepted as keys"),
 ("C13", "percentiles never exceed the longest duration that was measured", "calls of 0 and 0.1 s gave a p95 of 0.185 s"),
 ("C14", "the LRU cache evicts the least recently used item and never exceeds its size", "removals corrupted the ring (wrong item evicted, size exceeded); max_size=1 raised AttributeError on the second insert"),
 ("C15", "only the .py extension is stripped off the application name", "script my.python.tool.py became application 'mython.tool'"),
 ("C16", "two simultaneous starts can not both become the same instance, and only a running process blocks a start", "two simultaneous starts both got in; an empty lock or the process's own reused id blocked or crashed a start; a live process of another user did not block"),
 ("C17", "the log shipper loses no lines when a log is rotated more than once between two polls", "two rotations while the endpoint was failing: the lines of the file in between were never delivered"),
 ("C18", "a log file that can not be opened does not stop the log shipper", "a dangling link x.log (or a file rotated away at the wrong moment) terminated the shipper"),
 ("C18", "a log line that is not a log record does not stop the log shipper", "one truncated line terminated the shipper, again after every restart"),
 ("C20", "the tracing setup helper can be imported from the installed package", "importing ekosis_otlp_traces.setup raised ImportError (ekosis_otlp_traces.ekosis_otlp_traces)"),
 ("C20", "requests and attempts that share a span key each keep a trace span of their own", "two overlapping requests with the same span key: one span was never ended"),
 ("C20", "the trace span of a failed request is closed and exported", "a request that failed or did not validate left its span open for ever"),
 ("C19", "services that use the default UDS socket name are discovered at the socket they listen on", "ECOENV_UDS_X_0=/dir/DEFAULT was polled at /dir/DEFAULT: health 0 for a running service"),
 ("C19", "routes of any number of parts get Prometheus metrics", "routes such as 'plain' and 'x.y.z' had no metrics"),
 ("C21", "clearing an error state never raises its count", "clearing -3 of an error state with count 1 made it 4"),
 ("C22", "the buffered sender command line tool works", "every use of ekosis.cli.bsm ended in AttributeError"),
 ("C22", "command line tools say what is wrong with the server details", "-sd :8888 ended in TypeError (print_error called wrongly)"),
 ("C22", "command line tools show the data of a request, also when it is empty", "-ins of a request whose data is {} or 0 showed no request data"),
 ("C23", "a failed or interrupted start does not keep the application from shutting down in order", "ending while the TCP or UDS server was starting raised AttributeError in shutdown: queues were not saved"),
 ("C23", "a slow UDP request does not hold up the others", "every UDP request waited for the one before it to be answered"),
 ("C23", "no request is served before the tasks of setup_tasks are there", "requests were served while setup_tasks was still waiting for something"),
 ("C23", "an application that is told to end before its queues are there, ends in order", "a signal after entering the application and before its start, or a queue that can not be opened: AttributeError in shutdown, the rest of the shutdown was skipped"),
 ("C23", "functions that run soon can be given keyword arguments", "a run_soon function called with keyword arguments raised TypeError"),
 ("C24", "closing a persisted connection closes it for good, whatever state it is in", "closing a persisted client that never connected raised AttributeError; a heartbeat opened the closed connection again; with one attempt the call after a close failed; a peer that does not read kept the socket open"),
 ("C24", "a transient stream connection is closed when its call fails", "after a time-out or a broken answer the connection of a transient TCP/UDS call stayed open as long as the error was kept (one per failed call)"),
 ("C25", "an empty text, or one with a line feed or non-ASCII look-alikes, is not a host name", "is_possible_valid_ietf_hostname('') raised IndexError; 'host\\n', Arabic digits and the Kelvin sign were accepted"),
 ("C25", "a port number consists of ASCII digits, and is at most 65535", "is_valid_port_number accepted '70000' and superscript digits that int() rejects"),
 ("C26", "a queue survives that its database cannot be written for a while", "after one failed write (full disk) every later operation of the queue raised PendingRollbackError until a restart and what was in memory was lost at shutdown; a page that was loaded and could not be deleted was handed out again"),
 ("C26", "buffered endpoints and senders go on when their queue can be written again", "a pop that failed ended processing until the next push; a reprocess command that failed left processing paused"),
 ("C26", "one queue that cannot be written at shutdown does not keep the others from being shut down", "an application told to terminate while the disk is full raised out of its context manager and did not shut down its other queues"),
 ("C26", "a queue session is rolled back by a decorator, the write paths stay as they were", "follow-up of the first one, no change of behaviour"),
 ("C12", "a console that is gone does not keep an application from starting or ending", "with the default (console and file) logging and nobody reading the output any more, BrokenPipeError was raised out of start() or of the application's context manager"),
 ("C23", "an end by signal does not leave an error in the log", "every application ended by a signal logged the error '_GatheringFuture exception was never retrieved' (since an earlier fix of mine)"),
 ("C12", "the log file is UTF-8, so no locale makes it lose records", "with a locale that is not UTF-8 (LC_ALL=C PYTHONUTF8=0), a record with other characters was never written to the log file"),
 ("C12", "a log record with lone surrogates in its text is not lost", "logging a text with a lone surrogate (e.g. out of a JSON request) wrote no record"),
 ("C05", "a failure whose reason has lone surrogates does not lose the message", "a message whose sending failed with an error text with a lone surrogate was neither sent again nor in the error queue"),
 ("C23", "the UDP server keeps the tasks that answer its requests, the event loop does not", "a request over UDP whose endpoint waits for something that only weak references lead to was collected with its task and never answered"),
]
KNOWN = []
here = os.path.dirname(os.path.abspath(__file__))
log = {}
for line in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    hsh, subj = line.split(" ", 1)
    log[subj] = hsh
out = []
for p, subj, what in FIXED:
    c = log["fix: " + subj]
    out.append({"property": p, "status": "fixed", "entry": f"fixed: property={p} {c} {what}"})
with open(os.path.join(os.path.dirname(here), "known_findings.json"), "w") as f:
    json.dump({"findings": KNOWN + out}, f, indent=1)
    f.write("\n")
missing = [s for s in log if s.startswith("fix: ") and s[5:] not in [x[1] for x in FIXED]]
print("unlisted fixes:", missing)
