#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
W = "src/pypsrp/"
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": [W + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [state]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Pipeline output and streams arrive exactly once, in order, uncorrupted",
  "Every object a remote pipeline writes to its output or to its error, warning, verbose, debug, information or progress stream appears exactly once, with an equal value and in emission order, in the output or that stream of the PowerShell object that ran it, and nowhere else. This holds however the server splits messages into fragments, groups fragments into responses, delays them behind operation timeouts, or interleaves several pipelines and pool traffic. Waiting for the pipeline returns only after everything up to its final state has been delivered.",
  ["inputs", "schedules", "fault_sequences"], "all fragment sizes, batchings, poll orders, server delays, interleavings of concurrent pipelines, and all CLIXML values",
  "unit tests replay a handful of recorded conversations with one fixed fragmentation and poll order; the guarantee is about every split, delay and interleaving",
  ["powershell.py", "shell.py", "messages.py", "serializer.py"],
  [("fragment reassembly", "powershell.py Fragmenter.defragment"), ("message dispatch", "powershell.py RunspacePool._parse_responses"), ("polling loop", "powershell.py PowerShell.poll_invoke/end_invoke"), ("stream decoding", "shell.py WinRS.receive")],
  "PowerShell.output and PowerShell.streams after invoke/end_invoke/poll_invoke")
p("P02", "Remote process stdout, stderr and exit code are reproduced exactly",
  "After waiting for a remote process, its stdout and stderr bytes equal exactly what the process wrote, in order and without mixing the two, and the return code equals its exit code, however output is chunked, delayed past operation timeouts, or mixed between streams. Waiting never returns before the process has ended, and input sent to the process reaches it byte for byte with end-of-input signalled exactly when asked.",
  ["inputs", "schedules", "fault_sequences"], "all byte contents, chunkings, delays, exit codes and interleavings with other processes in the shell",
  "tests use short recorded commands; chunk boundaries, idle periods and interleavings are unbounded",
  ["shell.py", "client.py"],
  [("receive/accumulate", "shell.py Process.poll_invoke, WinRS.receive"), ("input", "shell.py Process.send, WinRS.send")],
  "Process.stdout/stderr/rc")
p("P03", "Output polling recovers from transient timeouts without losing or repeating data",
  "If the response to an output poll is lost or late, or the host is unreachable for a while so that reads or connects time out, up to five times in a row for one poll, the same request is sent again after an increasing pause and the caller sees exactly the data and result it would have seen without the fault. When a poll times out a sixth time in a row the timeout is raised to the caller; it is not retried forever and no partial result is reported as success.",
  ["fault_sequences", "schedules"], "all placements and run lengths of read/connect timeouts over the polls of a session, with and without message encryption",
  "needs lost and late responses at arbitrary points of a live conversation, a server that remembers what it already sent, and a clock",
  ["wsman.py", "powershell.py", "shell.py"],
  [("retry loop", "wsman.py _TransportHTTP.send"), ("retry policy", "wsman.py WSMan.receive")],
  "requests seen by the server; Process/PowerShell results")
p("P04", "Requests that change server state are never executed twice because of a fault",
  "A request that creates, runs, feeds, signals, disconnects or deletes something on the server is delivered at most once per call, whatever timeouts, resets or lost responses occur: when its outcome is unknown the caller gets an error instead of a silent re-send. Server-side effects therefore never exceed what the caller asked for.",
  ["fault_sequences", "crash_points"], "all fault kinds at every request of a session, before or after the server acted on it",
  "the window between the server acting and the reply arriving cannot be opened in a unit test with canned replies",
  ["wsman.py", "shell.py", "powershell.py"],
  [("no retry for state-changing actions", "wsman.py WSMan.invoke retries_on_read_timeout=0"), ("urllib3 Retry policy", "wsman.py _TransportHTTP._build_session")],
  "effects recorded by the simulated server")
p("P05", "Commands, arguments and input reach the server complete, in order and once",
  "Whatever the number and size of commands, arguments, application arguments, host answers and input objects, and whatever envelope size is negotiated, the server can reassemble from the fragments it receives exactly the messages the caller intended: every value equal, in order, each once, with end-of-input following the last input exactly once. The pipeline the server runs has the same commands, parameters, switches, merge settings, statement boundaries and flags as the caller built.",
  ["inputs", "configurations", "programs"], "all command structures, values and sizes up to several envelopes, iterators of any length, all envelope sizes and protocol versions",
  "tests compare one recorded request; splitting boundaries depend on every combination of message length and envelope size",
  ["powershell.py", "messages.py", "serializer.py", "complex_objects.py"],
  [("fragmenting", "powershell.py Fragmenter.fragment/fragment_multiple"), ("pipeline creation and input", "powershell.py PowerShell._invoke/begin_invoke"), ("pool creation", "powershell.py RunspacePool.open")],
  "messages reassembled by the simulated server with its own decoder")
p("P06", "No request exceeds the maximum envelope size",
  "No request sent during pool, pipeline, pipeline input, copy or key-exchange work is larger than the maximum envelope size in force for that connection when it is sent, however large the data; large data is split instead. After the server turns out to be newer, the limit in force grows from 150 KiB to 500 KiB unless the caller chose another value.",
  ["inputs", "configurations"], "all payload sizes around every multiple of the limit, all envelope sizes, protocol versions, identifiers, locales and endpoint lengths in realistic ranges",
  "overflow happens only at specific payload lengths relative to the negotiated limit",
  ["wsman.py", "powershell.py", "client.py"],
  [("size calculation", "wsman.py WSMan._calc_envelope_size"), ("limit update", "powershell.py RunspacePool._process_session_capability"), ("fragmenting", "powershell.py Fragmenter")],
  "request bodies seen by the server")
p("P07", "A response is accepted only for the request it answers",
  "If a successful response does not name the identifier of the request that was just sent - it is stale, duplicated, meant for someone else, or carries no identifier - the call fails with an error and none of its content reaches the caller or changes client state. Every request carries a fresh identifier, except the verbatim repeat of a timed-out poll.",
  ["fault_sequences", "schedules"], "all requests of a session and all kinds of mismatched responses, with and without retries",
  "requires replaying or swapping responses at arbitrary points of a session",
  ["wsman.py"], [("correlation check", "wsman.py WSMan.invoke")], "exceptions and results at the public API; MessageID values on the wire")
p("P08", "Server faults and HTTP errors surface faithfully and never look like success",
  "Any fault or HTTP error the server answers with makes the call raise; a WSMan fault is reported with the code, machine, reason and provider details the server gave, any other HTTP failure with its status code and body. The only exception is the operation-timeout fault while waiting for output, which is silently waited out, and after a reported error the session's other operations still work.",
  ["fault_sequences", "inputs"], "all fault codes and shapes, HTTP statuses and bodies, at every request of a session",
  "faults must be injected at each step of many different sessions; tests cover a few parsed documents",
  ["wsman.py", "powershell.py", "shell.py", "exceptions.py"],
  [("fault parsing", "wsman.py WSMan._parse_wsman_fault"), ("HTTP status handling", "wsman.py _TransportHTTP._send_request"), ("timeout tolerance", "powershell.py PowerShell.poll_invoke; shell.py Process.poll_invoke")],
  "exceptions raised by the public API")
p("P09", "Pipeline state, error flag, stop, close and reuse follow the pipeline lifecycle",
  "A pipeline object's state always reflects its last confirmed remote state; operations not allowed in that state are refused without contacting the server; stopping stops exactly the targeted pipeline; closing releases it on the server; and after a run has ended and been closed it can be run again, each run's output following what earlier runs left there unless that was cleared. The error flag is set exactly when the most recent run failed.",
  ["programs", "histories", "schedules"], "all sequences of invoke, poll, stop, close, re-invoke over several pipelines of a pool, with servers that choose their own command identifiers",
  "requires long operation sequences against a stateful server rather than isolated calls",
  ["powershell.py"], [("state guards", "powershell.py PowerShell.begin_invoke/stop/close"), ("state messages", "powershell.py PowerShell._process_pipeline_state"), ("registry", "powershell.py RunspacePool.pipelines")],
  "PowerShell.state/had_errors; commands alive on the server")
p("P10", "Pools and shells open fully, refuse misuse, and release server resources",
  "Opening returns only once the server reports the pool opened, or raises if it reports it broken; operations invalid in the current state are refused without contacting the server; leaving a with-block or closing deletes the server-side shell exactly once even after errors in the block, and closing twice or before opening is harmless. No shell is left on the server after a block whose close request was answered, nor after one whose opening failed once the shell existed and could still be deleted.",
  ["programs", "fault_sequences", "histories"], "all sequences of open, use, fail, close over pools and process shells",
  "leaks and double deletes appear only for particular operation orders and failures inside the block",
  ["powershell.py", "shell.py", "client.py"], [("pool lifecycle", "powershell.py RunspacePool.open/close"), ("shell lifecycle", "shell.py WinRS.open/close")],
  "shells alive on the simulated server")
p("P11", "Disconnecting and reconnecting loses no pipeline and no output",
  "After disconnecting a pool and reconnecting, from the same or another client, every pool and pipeline still on the server can be found, each once, and connected to, and connecting to one and waiting yields exactly the output the server still holds for it, once and in order, with its final state. Pipelines that had already finished before the disconnect keep their finished state and results.",
  ["histories", "schedules"], "all points of disconnection relative to output and completion, several pipelines, same client or new client",
  "the interleaving of running output with disconnect and reconnect is what matters and cannot be sampled by canned replies",
  ["powershell.py"], [("disconnect/connect", "powershell.py RunspacePool.disconnect/connect/get_runspace_pools"), ("pipeline connect", "powershell.py PowerShell.connect/connect_async")],
  "pool and pipeline objects after reconnect")
p("P12", "Runspace count and reset calls reflect the server's answer to that very call",
  "Setting the minimum or maximum number of runspaces, asking for available runspaces, or resetting the runspace state returns the server's answer to that call, matched by call identifier even if other messages arrive in between; a refusal raises and leaves the recorded limits unchanged. The recorded minimum and maximum always equal the values the server last confirmed, and such calls keep waiting through periods with no output.",
  ["histories", "schedules", "fault_sequences"], "all sequences of these calls, accepted or refused, with interleaved pool traffic and delayed answers",
  "depends on answer order and delay; existing tests replay one exchange",
  ["powershell.py"], [("call table", "powershell.py RunspacePool.ci_table, _process_runspacepool_availability")], "RunspacePool.min_runspaces/max_runspaces/get_available_runspaces()")
p("P13", "Secure strings round-trip and never travel or leak in the clear",
  "After a key exchange every secure string the caller sends is decrypted by the server to exactly the original text and every secure string the server sends is returned as its original text; the plaintext never appears in any request. A key exchange that the server starts is answered, repeated requests reuse the established key, one that is never answered raises within its timeout, and sending a secure string before any key exists is refused.",
  ["inputs", "schedules", "fault_sequences"], "all strings, key-exchange timings, orders relative to other traffic, and repetitions",
  "needs a live counterpart with its own RSA/AES implementation and delayed or missing answers",
  ["powershell.py", "serializer.py"], [("key exchange", "powershell.py RunspacePool.exchange_keys, _process_encrypted_session_key"), ("secure strings", "serializer.py _serialize_secure_string/_deserialize_secure_string")],
  "values decrypted by the simulated server; request bytes")
p("P14", "Host calls run exactly once, in order, and answers match their calls",
  "Every host call the server makes for a pipeline or pool is dispatched exactly once, in order, to the matching method of the user's host with the server's arguments and the right pipeline; a call that produces a value is answered exactly once with that call's identifiers and value. Calls that produce no value get no answer, and output around host calls is unaffected.",
  ["schedules", "inputs", "histories"], "all mixes of host calls and output, fragmentations, pipelines and pool-level calls",
  "ordering and matching depend on how calls are interleaved with output and split over responses",
  ["powershell.py", "host.py", "messages.py", "complex_objects.py"], [("dispatch", "powershell.py RunspacePool._process_host_call; host.py PSHost.run_method")],
  "calls recorded by the host object; answers recorded by the server")
p("P15", "copy() either places an identical file or fails",
  "When copying a file to the host returns, the destination there holds exactly the bytes the source file had as it was read, for any size including empty and multi-envelope files, and the returned path is the server's; if the server reports an error or the transfer is disturbed, the call raises and never reports success for different content.",
  ["inputs", "fault_sequences"], "all file contents and sizes around buffer boundaries, envelope sizes, short local reads and network faults",
  "boundary sizes relative to the negotiated envelope and faults mid-transfer are unbounded",
  ["client.py", "powershell.py"], [("chunking", "client.py Client.copy.read_buffer"), ("input streaming", "powershell.py PowerShell.begin_invoke")], "bytes received by the simulated server")
p("P16", "fetch() replaces the destination only with the verified remote content",
  "When fetching a file returns, the local destination holds exactly the remote bytes; if the content does not match the remote checksum, the remote side reports an error, or the network fails, the call raises and the previous destination content is untouched (once the verified content is in place only the removal of the remote shell can still fail). Short or failing local writes never yield a successful return with a truncated file, and no temporary file is left behind.",
  ["inputs", "fault_sequences", "crash_points"], "all contents and sizes, corruption of the data or checksum, disk errors and short writes at every local write, network faults",
  "disk errors, short writes and corrupted transfers must be injected",
  ["client.py"], [("verify then copy", "client.py Client.fetch")], "files under the scratch directory")
p("P17", "Liveness probes answer truthfully, promptly and without side effects",
  "Asking whether a pool is alive returns true only if the server confirmed the shell exists and is not disconnected, and false if the server says it is gone or times out, the connection is broken, or no answer comes within the given time plus two seconds; it never opens a new network connection. Other server faults are raised, a false answer makes a later close a no-op, and the ban on new connections ends with the probe.",
  ["fault_sequences", "schedules", "histories"], "all connection states, server answers and delays at the time of the probe, before and after other operations",
  "depends on the state of the underlying socket and on timing",
  ["powershell.py", "_pool_manager.py", "shell.py", "wsman.py"], [("probe", "powershell.py RunspacePool.is_alive"), ("connection ban", "_pool_manager.py DisableNewConnectionsContext")], "return value, connects attempted, virtual time used")
p("P18", "With message encryption required nothing is sent or accepted in the clear",
  "When message encryption is in force every request carrying content is encrypted under the security context authenticated for it and the server decrypts exactly the bytes intended; encrypted responses are decrypted in order to exactly what was sent. A tampered or wrong-length response, or a success response that is not encrypted, is rejected with an error (error replies may be unencrypted), and the client works again from the next call but one at the latest. This holds across any message sizes and across re-authentication on a new connection, directly or through a proxy; where encryption is not in force nothing is wrapped.",
  ["inputs", "fault_sequences", "configurations"], "all message contents and sizes, all auth/encryption settings, reconnects and tampering at any exchange",
  "requires a real counterpart holding the other half of the security context, across reconnects",
  ["encryption.py", "wsman.py", "negotiate.py"], [("wrap/unwrap", "encryption.py WinRMEncryption"), ("context setup", "wsman.py _TransportHTTP.send")], "bytes on the simulated wire")
p("P19", "Authentication failures are reported and a broken connection can be recovered",
  "Wrong credentials or a scheme the server does not offer always end in an authentication error (the package's or the CredSSP library's) after a bounded number of round trips, with the credentials tried once per call and no request content executed; correct credentials always authenticate, over TLS bound to the server's certificate, directly or through a proxy. After the connection under an authenticated session is lost and the affected call has failed, the next call authenticates afresh and works.",
  ["fault_sequences", "configurations"], "all auth settings the client offers in this environment, and connection loss at any exchange",
  "the handshake spans several exchanges and its state is tied to a TCP connection that tests do not have",
  ["negotiate.py", "wsman.py"], [("401 loop", "negotiate.py HTTPNegotiateAuth.handle_401"), ("context reuse", "wsman.py _TransportHTTP.send")], "exceptions, requests executed by the server")
p("P20", "Concurrent clients in one process do not affect one another",
  "Any number of independent client objects, used from different threads at the same time against the same or different hosts, each get exactly the results they would get alone; this includes liveness probes, whose ban on new connections applies only to the thread performing the probe.",
  ["schedules"], "all interleavings of independent client threads at I/O points and within the library's code",
  "requires controlling thread interleavings",
  ["_pool_manager.py", "wsman.py", "powershell.py", "serializer.py"], [("context variable", "_pool_manager.py DisableNewConnectionsContext"), ("per-adapter pool classes", "_pool_manager.py create_request_adapter")], "results per thread")
p("P21", "No call hangs forever when the server or network goes silent",
  "Whatever stops answering and when, every call returns or raises within a bound given by its configured timeouts and retries; a per-call timeout for a poll or a liveness probe bounds every wait of that call to the value plus a small allowance (a poll is repeated at most five times, with its configured pauses) and is what the server is told. Once the server answers again, the same client can open and use a new pool or shell. Waiting for a pipeline or process is unbounded only as long as the server keeps answering that it is still running.",
  ["fault_sequences", "schedules"], "silence beginning at any point of any operation, all timeout settings",
  "requires a virtual clock and silence at arbitrary points",
  ["wsman.py", "powershell.py", "shell.py"], [("http timeouts", "wsman.py _TransportHTTP._send_request, WSMan.invoke"), ("key exchange timeout", "powershell.py RunspacePool.exchange_keys")], "virtual time per call")
p("P22", "Connection failures are retried as configured and the request runs once",
  "With a retry count of N, a request whose connection attempts fail up to N times succeeds, is executed exactly once, and waits between attempts as configured; with more failures, or with no retries configured, the call raises after exactly N+1 attempts (polls may additionally retry timeouts as their own rule allows). Requests already sent are not covered by this retry.",
  ["fault_sequences", "configurations"], "all counts and placements of refused or timed-out connects, all retry and backoff settings",
  "needs connect failures at chosen points and a clock",
  ["wsman.py", "_pool_manager.py"], [("Retry policy", "wsman.py _TransportHTTP._build_session")], "connection attempts, virtual sleeps and executions recorded by the simulator")
p("P23", "Missing, repeated, reordered or cut fragments are never turned into data",
  "If fragments of a message arrive with one missing, repeated, out of order or cut short, or a response is cut short, the call that reads them raises instead of delivering an object assembled from the wrong pieces; nothing delivered before or after it is wrong (a message whose last fragment never comes is never delivered), and other pipelines of the pool lose nothing.",
  ["fault_sequences", "inputs"], "all fragment-level and response-level corruptions at all positions",
  "needs fault injection inside the fragment stream for many message shapes",
  ["powershell.py", "shell.py", "wsman.py"], [("fragment id check", "powershell.py Fragmenter.defragment, Fragment.unpack")], "PowerShell.output and exceptions")
p("P24", "execute_cmd and execute_ps return the full result and always clean up",
  "Running a command or script through the high-level client returns exactly the remote stdout/stderr/return code, or the joined output lines, streams and error flag, with requested environment variables applied in order before the script; error text that came as CLIXML is recovered by sanitise_clixml; whether it succeeds or raises, the server-side shell it created is deleted when the server can be reached.",
  ["inputs", "fault_sequences", "schedules"], "all outputs, encodings, environments, exit codes, delays and faults during the run",
  "end-to-end behaviour under delays and faults rather than one canned conversation",
  ["client.py", "shell.py", "powershell.py"], [("high-level API", "client.py Client.execute_cmd/execute_ps")], "return values; shells alive on the server")
p("P25", "Values survive the round trip through a session unchanged",
  "A supported value sent as an argument or as input and echoed back by the server comes back equal, for strings with any characters including control characters, escapes and surrogate pairs, numbers, booleans, bytes, identifiers, lists, dictionaries, queues, nested structures and shared references, no matter what other values were transferred before it on the same pool.",
  ["inputs", "histories"], "all supported values and all earlier traffic on the same pool",
  "the value space is unbounded and earlier traffic leaves codec state behind",
  ["serializer.py", "messages.py", "complex_objects.py"], [("codec", "serializer.py Serializer.serialize/deserialize")], "values decoded by the server's own codec and echoed to PowerShell.output")
p("P26", "Pool-level events, warnings and data are kept exactly once, in any traffic",
  "Events, warnings, private data and limits the server sends for the pool, whether alone or mixed into a pipeline's responses, are delivered exactly once, in order, with equal values through the pool's public attributes, and never disturb the results of pipelines or calls in progress. Command metadata queries return exactly the entries the server sent.",
  ["schedules", "inputs"], "all placements of pool messages relative to pipeline traffic and calls",
  "interleaving with other traffic is what matters",
  ["powershell.py", "messages.py"], [("dispatch", "powershell.py RunspacePool._parse_responses"), ("metadata", "powershell.py RunspacePool.get_command_metadata")], "RunspacePool.user_events, application_private_data, warnings, get_command_metadata()")
p("P27", "Every connection and request goes where and how the client was configured",
  "Every connection a client makes - the first, a reconnection, one for a new authentication - goes to the configured host and port, through the configured proxy, directly when proxies are turned off, and otherwise as the environment says; it uses TLS exactly when configured, validates the server's certificate for that host unless validation was turned off (against the configured bundle, or the environment's when none is named), and presents the configured client certificate or none. Every request names the configured path, endpoint, locale and session configuration. This holds for several differently configured clients in one process, as long as the server does not redirect them.",
  ["inputs", "faults", "histories"], "all configurations and environments, all points at which a connection is lost and made again",
  "connections are made again at points a test does not choose, and settings of the client, the environment and other clients interact",
  ["wsman.py", "_pool_manager.py"], [("session", "wsman.py _TransportHTTP._build_session"), ("endpoint", "wsman.py _TransportHTTP._create_endpoint"), ("header", "wsman.py WSMan._create_header"), ("certificates", "_pool_manager.py HTTPSAdapterWithKeyPassword")], "addresses connected to, TLS parameters and requests as the server sees them")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
