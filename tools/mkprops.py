"""Writes properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os

U, A, Z, T, AP, SZ, CF, DF, NV = (
    "zigpy_cc/uart.py", "zigpy_cc/api.py", "zigpy_cc/zpi_object.py", "zigpy_cc/types.py",
    "zigpy_cc/zigbee/application.py", "zigpy_cc/zigbee/start_znp.py",
    "zigpy_cc/config.py", "zigpy_cc/definition.py", "zigpy_cc/zigbee/nv_items.py")
B = "zigpy_cc/buffalo.py"

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": observe, "hook_needed": None},
    })


p("C01", "Every valid frame is delivered exactly once, in order, under any chunking",
  "For every sequence of valid serial frames (payloads of 0 to 250 bytes, any content, start-of-frame bytes included) and every way the byte stream is split into reads, each frame is handed up exactly once, in order, with exactly the type, subsystem, command and payload that were sent. It is handed up by the read that contains its last byte, not later.",
  ["inputs", "schedules"], "all frame sequences, all splits of their bytes into reads",
  "The tests feed one 19-byte frame in one or two reads; payload length 0, other lengths, back-to-back frames and other split points are never tried.",
  [U], [("byte-wise parser with length byte", U + ": Parser.write"), ("per-read loop", U + ": Gateway.data_received")],
  ["the frames the gateway passes to its api object", "requests completing / messages reaching zigpy"],
  [("receive buffer", "bytes of the frame being assembled", U + ": Parser.buffer")])
p("C02", "Corrupted frames are never acted on; noise between frames is harmless",
  "A frame whose bytes (command, payload or checksum) were altered in transit so that its checksum no longer matches is never handed up, and the frames before and after it are handed up unaffected. Bytes other than the start byte that arrive between frames are skipped without losing, delaying or altering any frame.",
  ["inputs", "fault_sequences"], "all frames, all checksum-breaking alterations, all placements of non-start noise",
  "One wrong checksum on one frame is tested, with nothing after it; resynchronisation is not.",
  [U], [("XOR checksum comparison", U + ": UnpiFrame.from_buffer"), ("drop bytes until start byte", U + ": Parser.write")],
  ["the frames the gateway passes to its api object"])
p("C03", "A frame the library cannot interpret affects nothing but itself",
  "A correctly framed message that cannot be interpreted (unknown type, subsystem or command, payload too short, undefined value, unsupported structure) is dropped: every other frame, also within the same read, is processed exactly as if it had not been there. Pending and later requests still complete and nothing is raised into the serial transport.",
  ["inputs", "fault_sequences", "histories"], "all uninterpretable frames, interleaved anywhere in a conversation and a read",
  "No test sends an unknown command, subsystem or truncated payload through the receive path.",
  [U, A, Z], [("per-frame handling of the receive loop", U + ": Gateway.data_received"), ("parsing of one message", A + ": API.data_received")],
  ["results of requests issued around the frame", "messages passed to zigpy", "exceptions leaving data_received"])
p("C04", "Every outgoing command has exactly the bytes the MT protocol defines",
  "For every command the library knows and all in-range parameter values, the bytes written to the port are the start byte, payload length, command type and subsystem, command id, the parameters little-endian in protocol order, and the XOR checksum. A parameter value that does not fit its field (a number out of range, an address that is not eight bytes) is refused and nothing is written.",
  ["inputs"], "all 230+ commands, all parameter values incl. boundaries",
  "About five hand-picked messages are encoded by the tests out of more than 230 command layouts.",
  [Z, B, U, DF], [("command table", DF + ": Definition"), ("field writer", B + ": Buffalo.write_parameter"), ("framing", U + ": UnpiFrame.to_buffer")],
  ["bytes written to the serial transport"])
p("C05", "Every incoming message decodes to exactly the values on the wire",
  "For every response and indication whose layout is self-describing, and all field values, the decoded message has the right command name and, for each named field, exactly the value transmitted: integers little-endian, addresses and keys byte for byte, lists and buffers with exactly the announced number of items. A synchronous response uses the command's response layout, every other message its request layout.",
  ["inputs"], "all commands x all payload values x all list lengths",
  "Tests decode about eight captured frames.",
  [Z, B, DF], [("command table", DF + ": Definition"), ("field reader", B + ": Buffalo.read_parameter"), ("length of the previous field", Z + ": ZpiObject.read_parameters")],
  ["payload of the decoded object", "payload returned by requests"])
p("C06", "A payload that ends early is rejected, never filled in",
  "Whenever a received payload is shorter than its layout requires, at any cut point, decoding fails; it never yields a message with missing, shortened or invented field values, and no such message reaches a pending request or zigpy.",
  ["inputs", "fault_sequences"], "all decodable commands x all payloads x every truncation point",
  "No test decodes a truncated payload.",
  [B, Z], [("bounds check", B + ": Buffalo.read")], ["decode result", "request results", "messages passed to zigpy"])
p("C07", "Decoding and re-encoding a message reproduces its bytes",
  "For every message with a self-describing layout, encoding the decoded message again yields the payload that was received, so what is forwarded to zigpy as raw bytes is what the radio sent. Only bits reserved by the protocol inside neighbour-table entries may be cleared.",
  ["inputs"], "all decodable indications and responses, all values",
  "Round trips are tested for three fixed messages.",
  [Z, B], [("to_unpi_frame after from_unpi_frame", Z + ": ZpiObject")], ["re-encoded payload bytes"])
p("C08", "Each request completes with its own response and reports its status",
  "Every synchronous request completes with the content of the synchronous response of the same subsystem and command that the coordinator sends for it, whatever other frames arrive in between and however they are chunked. A response status outside the statuses accepted for that request (default: only 0) raises a command error carrying exactly that status; an accepted status returns the response.",
  ["inputs", "schedules", "histories"], "all commands, all statuses, all interleavings of other traffic",
  "One request/response pair is tested with status 0 and no other traffic.",
  [A], [("waiter matching", A + ": API.data_received"), ("status check", A + ": API._request_raw")],
  ["return value or exception of request()"],
  [("waiters", "responses being waited for", A + ": API._waiters")])
p("C09", "Synchronous requests are sent one at a time, in order, and all complete",
  "However many requests are issued concurrently, the next synchronous request is not written to the port until the previous one has been answered or has timed out (also when its caller has given up), requests are written in the order they were issued, and each caller gets its own answer. An error, timeout or cancellation of one request never blocks or fails the others.",
  ["schedules", "histories"], "all sets of concurrent requests, response delays and failures",
  "No test issues two requests concurrently.",
  [A], [("lock around request and response", A + ": API.request_raw")], ["order and spacing of frames on the port", "results of each request"])
p("C10", "A silent coordinator costs a bounded time and the link stays usable",
  "A synchronous request that gets no response fails with a timeout after 6 seconds (20 seconds for starting commissioning or starting the stack), a reset without reset indication after 30 seconds, and an unanswered wait for an indication after its own limit. Requests issued afterwards work normally and are not confused by the earlier failure.",
  ["fault_sequences", "histories"], "all subsets of unanswered requests in a history",
  "The timeout test is skipped in the repository.",
  [A, T], [("wait_for with timeout", A + ": Waiter.wait"), ("expiry callback", A + ": API.wait_for")], ["time and type of failure", "results of later requests"])
p("C11", "Late, duplicate and unsolicited responses are ignored",
  "A synchronous response nobody waits for, a second copy of a response, or a response arriving after its request has failed is ignored: it raises nothing, reaches no device, and never completes a request of a different kind. An indication being waited for completes every matching wait once and no wait whose conditions differ.",
  ["histories", "fault_sequences"], "all histories mixing requests, waits, duplicates, stale and foreign frames",
  "Tests only ever send the one expected response.",
  [A], [("matching and removal of waiters", A + ": API.data_received"), ("done/cancelled check", A + ": Waiter.set_result")], ["results of waits and requests", "messages passed to zigpy"])
p("C12", "Resets complete on the reset indication; other async commands immediately",
  "A reset command is written once and completes only when the coordinator's reset indication arrives, returning that indication; every other asynchronous command is written once and returns immediately without waiting for anything. Commands of any other type are refused and nothing is written.",
  ["inputs", "schedules"], "all commands by type, all arrival orders of indications",
  "No test sends an asynchronous command.",
  [A, Z], [("branch on command type", A + ": API._request_raw"), ("is_reset_command", Z)], ["frames on the port", "time of completion"])
p("C13", "A unicast message is transmitted exactly as zigpy asked",
  "For every application-profile unicast request (any profile except the ZDO profile, any cluster, endpoints, transaction number and data of up to 230 bytes) exactly one data request is sent, carrying the device's network address, destination and source endpoint, cluster, transaction number, radius 30 and the exact data. The call returns success if the coordinator accepts it, and otherwise a result carrying the coordinator's status, without raising.",
  ["inputs"], "all addresses, profiles, clusters, endpoints, sequence numbers, payloads, statuses",
  "One request is tested, only up to a mocked radio call.",
  [AP, Z], [("from_cluster", Z + ": ZpiObject.from_cluster"), ("request", AP + ": ControllerApplication.request")], ["frames received by the coordinator", "return value of request()"])
p("C14", "Group and broadcast messages are transmitted exactly as zigpy asked",
  "A group request is sent as exactly one extended data request in group mode to that group id, endpoint 255, from the given source endpoint (1 if none), with the given hop limit (30 if unlimited); a broadcast is sent as one extended data request in 16-bit mode to the given broadcast address with the given endpoints and radius. Cluster, transaction number and data are exact, and the result reports the coordinator's status.",
  ["inputs"], "all groups, broadcast addresses, endpoints, radii, sequence numbers, payloads, statuses",
  "One multicast and one broadcast with fixed values are tested against a mock.",
  [AP, Z], [("mrequest, broadcast", AP), ("dataRequestExt payload", Z + ": ZpiObject.from_cluster")], ["frames received by the coordinator", "return values"])
p("C15", "ZDO requests from zigpy become the equivalent MT command",
  "Each ZDO request zigpy makes of a device (node, power and simple descriptor, active endpoints, match descriptor, bind, unbind, to a device or a group, neighbour and routing and binding table, leave, permit joining, unicast or broadcast) is sent as exactly one MT command for the same operation, addressed to that device, with every argument value preserved. A ZDO message with no MT equivalent, such as a ZDO response, fails without anything being transmitted.",
  ["inputs"], "all supported ZDO operations x all argument values x all target addresses",
  "Three ZDO requests with fixed values are tested.",
  [Z, AP], [("from_cluster", Z + ": ZpiObject.from_cluster")], ["frames received by the coordinator"])
p("C16", "ZDO replies reach zigpy once, under the transaction that asked for them",
  "When a device answers a node, power or simple descriptor, active-endpoint, match, bind, unbind, neighbour-table, leave or permit-joining request within 10 seconds of its being made, zigpy receives exactly one message from that device with the reply's cluster, consisting of the request's transaction number (every value 0 to 255) and the reply's content. Concurrent requests each get their own reply: by kind and device, and in request order for the same kind and device. Where equal requests are outstanding together, as when zigpy repeats one whose reply got lost, the first reply answers all of them the coordinator has accepted. A reply nobody is waiting for is not delivered.",
  ["inputs", "schedules", "histories"], "all transaction numbers, reply values, sets of concurrent requests and reply orders",
  "One node descriptor reply is fed by hand for one transaction number.",
  [A, AP], [("response waiter", A + ": API.create_response_waiter"), ("reply forwarding", AP + ": handle_znp")], ["messages passed to zigpy", "results of zigpy's ZDO calls"])
p("C17", "Every message from a known device reaches zigpy once, unaltered",
  "Every incoming application message, normal or extended, whose source address (network address, or IEEE address in the extended form) belongs to a known device is passed to zigpy exactly once, in arrival order, attributed to that device, with the exact cluster, source and destination endpoint, data and link quality. Concurrent requests, and messages from other devices, do not disturb it.",
  ["inputs", "histories", "schedules"], "all message contents, device tables and interleavings",
  "One message from an unknown device is fed; delivery is never asserted.",
  [AP], [("incoming message branch", AP + ": handle_znp")], ["messages passed to zigpy", "link quality of the device"])
p("C18", "Device announcements register the device under its current address",
  "Whenever a device announces itself, zigpy is told exactly once that this IEEE address joined with this network address, and then receives the announcement from that device. A known device stays the same device, with all that was learned of it. Afterwards messages from the new network address are attributed to it, and messages from an address it has left no longer are.",
  ["inputs", "histories"], "all sequences of announcements, address changes and messages",
  "No test feeds an announcement.",
  [AP], [("announcement branch", AP + ": handle_znp")], ["join notifications", "messages passed to zigpy", "device table"])
p("C19", "Nothing else reaches devices",
  "Messages from unknown devices, synchronous responses, confirmations, status and management indications, and unsolicited ZDO replies are never passed to any device, never change the device table and never raise. They also never cause a transmission, other than the status LED following the join state.",
  ["inputs", "histories"], "all other commands with all payloads, all device tables",
  "One tcDeviceInd and one message from an unknown device are fed without assertions.",
  [AP], [("ignored list and final else", AP + ": handle_znp")], ["messages passed to zigpy", "device table", "frames written"])
p("C20", "After startup the adapter runs the configured network",
  "Whatever the adapter's memory held before and for every firmware generation and network configuration, a successful startup with network forming leaves the adapter running as coordinator on a network with the configured PAN ID, extended PAN ID, channels and network key, with key distribution off and the adapter marked as configured; where it configures Z-Stack 1.2, also with the standard trust-center link key. The only exception: on Z-Stack 3 a configured adapter whose stored PAN ID is the 'random' value keeps its PAN ID and extended PAN ID.",
  ["configurations", "inputs", "histories"], "3 firmware generations x all prior memory contents x all network configurations",
  "Startup and network forming are not tested at all.",
  [SZ, NV, AP, T], [("needsToBeInitialised / initialise", SZ), ("NV item encodings", NV)], ["adapter memory and network state after startup"],
  [("configured marker", "adapter was fully initialised", SZ)])
p("C21", "Restarting on a matching configuration leaves the network untouched",
  "When the adapter's stored settings already match the configuration, startup performs no reset, writes no setting, forms no new network and reports success; it starts the stack only if it is not already running as coordinator. In particular repeating a successful startup is always free of such side effects.",
  ["configurations", "histories"], "3 firmware generations x all configurations x all running states, repeated startups",
  "Not tested.",
  [SZ], [("validation before initialisation", SZ + ": needsToBeInitialised"), ("boot", SZ)], ["frames received by the adapter", "its memory"])
p("C22", "Startup registers exactly the missing endpoints and the GreenPower group",
  "After startup with network forming, every endpoint the library serves (1-6, 8, 11, 12, 13, 47, 110, 242) is registered on the adapter with its profile and cluster lists, and endpoint 242 is a member of group 0x0B84. An endpoint or membership that already exists is never registered again, and each missing one is registered exactly once.",
  ["configurations", "histories"], "all subsets of already registered endpoints and groups",
  "Not tested.",
  [SZ], [("registerEndpoints, addToGroup", SZ)], ["register and group commands received by the adapter"])
p("C23", "An interrupted startup fails cleanly and a later one completes it",
  "If startup is interrupted at any point - the adapter stops answering, is power-cycled, refuses a command, or the port is lost - startup raises within a bounded time rather than hanging or reporting success. A later uninterrupted startup always ends with the adapter fully configured and running the configured network.",
  ["crash_points", "fault_sequences", "configurations"], "every request of the startup sequence x every kind of fault x firmware generation x prior state",
  "Not tested; requires stopping the sequence at each of its steps.",
  [SZ, AP], [("marker written last", SZ + ": initialise"), ("re-validation on startup", SZ + ": needsToBeInitialised")], ["outcome of startup", "adapter memory after the next startup"])
p("C24", "After losing the port the library recovers by itself, on one port",
  "After an unexpected loss of the serial connection, at any moment including while reconnecting, the library keeps trying to reopen and restart until it succeeds, and within a bounded time after the adapter is back it is fully operational again. Never are two connections open at once, also when the application is started anew meanwhile, and no further attempts are made once it is connected.",
  ["fault_sequences", "schedules", "histories"], "all sequences of losses, failed opens and failed startups at all times",
  "Not tested.",
  [AP, A, U], [("reconnect loop", AP + ": reconnect"), ("loss notification", U + ": Gateway.connection_lost")], ["ports opened and closed over time", "requests succeeding afterwards"])
p("C25", "A deliberate shutdown is final",
  "After shutdown every port the library opened is closed, and it never reopens one, sends anything or reports an error on account of the closing, no matter when shutdown is called: while running, while reconnecting after a loss, after a failed or before any startup. Shutdown itself never raises.",
  ["schedules", "histories", "fault_sequences"], "all moments of shutdown relative to startup, loss and reconnection",
  "Not tested.",
  [AP, A, U], [("open flag", U + ": Gateway.close"), ("shutdown", AP)], ["open ports after shutdown", "bytes written after shutdown"])
p("C26", "Probing tells whether a coordinator answers and always closes the port",
  "Probing a port returns True exactly when a coordinator answers the version request within the 2 second limit, and False when the port cannot be opened, nothing or only unrelated data arrives, or the connection drops; it does not raise. In every case, including a slow port or cancellation, the port is closed afterwards and nothing is sent except the bootloader-skip byte and one version request.",
  ["inputs", "fault_sequences", "schedules"], "all port behaviours: open failure, delays, garbage, partial answers, loss, cancellation",
  "Probing is tested with mocked version() outcomes only.",
  [A, U], [("probe with timeout and finally", A + ": API.probe")], ["return value", "port state"])
p("C27", "Group and broadcast traffic is paced for the adapter",
  "At most 16 (Z-Stack 3.x.0) or 2 (other firmware) group or broadcast transmissions are in progress at a time, where each counts from its transmission until at least 0.2 seconds after the coordinator accepted it. All queued transmissions are eventually sent exactly once, in order, and unicast requests are not starved or lost.",
  ["schedules", "histories"], "all bursts of concurrent requests, all firmware generations, all response delays",
  "One broadcast and one multicast at a time are tested.",
  [AP], [("semaphore and settle delay", AP + ": mrequest, broadcast")], ["times of data requests at the coordinator"],
  [("semaphore", "transmissions in progress", AP)])
p("C28", "Permit-joining requests open the network for exactly the time asked",
  "For every duration from 0 to 254 seconds, permitting joins through the coordinator sends exactly one broadcast permit-joining command to all routers and the coordinator with that duration and no trust-center significance; any other duration is refused and nothing is sent. A refusal by the coordinator is reported as an error. Permitting joins through one other device sends exactly one such command, to that device and with that duration, and through an unknown device none.",
  ["inputs"], "all durations, all coordinator statuses",
  "Not tested.",
  [AP], [("permit_ncp", AP)], ["frames received by the coordinator"])
p("C29", "The status LED follows the join state",
  "On adapters with a controllable LED (all firmware but Z-Stack 3.x.0), every report that joining is open turns LED 3 on and every report that it is closed (duration 0) turns it off, so that after any sequence of reports the LED equals the last reported state; it is off after network start. On Z-Stack 3.x.0 no LED command is ever sent.",
  ["histories", "inputs"], "all sequences of join-state reports, all durations, all firmware generations",
  "Not tested.",
  [AP], [("set_led", AP)], ["LED commands received by the coordinator"])
p("C30", "The port is opened exactly as configured, and auto-detection is unambiguous",
  "The serial port is opened exactly once with the configured path, baud rate and flow control (none, hardware or software), 8N1; then the bootloader-skip byte is written first and no command is written within the following second. With path 'auto' the one attached TI or QinHeng adapter is used, and if there is none or more than one, connecting fails without opening any port.",
  ["configurations", "inputs"], "all paths, baud rates, flow control settings, sets of attached USB devices",
  "Flow control is tested with three values; auto-detection is not tested.",
  [U, CF], [("connect", U), ("detect_port", U)], ["arguments of the serial open call", "bytes written"])
p("C31", "Network settings given explicitly are honoured; unset ones get fixed defaults",
  "Each of PAN ID, extended PAN ID, network key and channel mask that the configuration sets is used exactly as given, independent of the others. Those left unset take the documented defaults (PAN ID 0x1A62, extended PAN ID DD:DD:DD:DD:DD:DD:DD:DD, key 01030507090B0D0F00020406080A0C0D, channels as zigpy defaults, channel 11 if the mask is empty), identically on every run.",
  ["configurations"], "all combinations of set and unset settings with all values",
  "Not tested.",
  [T, AP], [("NetworkOptions", T)], ["settings written to the adapter"])
p("C32", "A device that joins is interviewed to completion over the real stack",
  "When a device announces itself and answers the standard interview requests, whatever its descriptors, endpoints and clusters and however replies are delayed, interleaved with other traffic or split across reads, zigpy ends up with exactly that device's node descriptor, endpoints, profiles, device types, clusters, manufacturer and model. Several devices joining at the same time do not disturb each other.",
  ["inputs", "schedules", "histories"], "all device descriptions x reply schedules x numbers of devices",
  "No test runs the stack end to end.",
  [AP, A, Z, U], [("whole receive and send path", AP + ": request, handle_znp")], ["zigpy's device objects after the interview"])
p("C33", "Startup identifies the coordinator it is connected to",
  "After startup the application reports the coordinator's own IEEE and network address, lists the coordinator as a device under that address, and exposes the firmware version the adapter reported, for every firmware generation; connecting always pings and identifies the adapter before it sends anything else of its own. If the adapter refuses the ping or does not answer, startup raises.",
  ["inputs", "configurations", "fault_sequences"], "all addresses, versions, products; ping and version failures",
  "Startup is not tested.",
  [AP, A], [("startup", AP)], ["application attributes", "frames received by the adapter"])

p("C34", "After garbage on the line the receiver finds the frames again",
  "Whatever arrives on the line (noise, truncated frames, frames with lost, doubled or altered bytes, false length bytes), the receiver keeps running and after at most one maximal frame (260 bytes) of further traffic that holds no stray start byte it delivers every valid frame again, exactly once, in order and unaltered. What it delivers in between is only ever a checksum-correct part of what was received. Requests work again afterwards.",
  ["inputs", "fault_sequences"], "all garbage, repeated any number of times, all valid frames after it, all splits into reads",
  "The tests feed valid frames only.",
  [U], [("start byte search and length byte", U + ": Parser.write"), ("checksum", U + ": UnpiFrame.from_buffer")], ["frames handed to the API", "requests answered after the garbage"],
  [("buffer", "bytes of the frame being received", U + ": Parser")])
p("C35", "Two adapters in one process do not disturb each other",
  "When one process runs several applications on different ports, each sends the same bytes, delivers the same messages and returns the same results at the same times as it does alone, whatever the other one does: starting, sending, receiving, waiting for replies, timing out, losing its port, reconnecting or shutting down.",
  ["histories", "schedules", "configurations"], "all pairs of configurations, firmware generations and histories, at all relative times",
  "No test runs two applications.",
  [AP, A, U, SZ, NV], [("per-instance waiters and lock", A + ": API.__init__"), ("per-connection parser", U + ": Gateway.__init__"), ("per-application semaphore", AP + ": startup")], ["bytes at each adapter", "results and messages of each application"],
  [("module-level tables", "must not be altered by one application", SZ + ", " + NV)])
p("C36", "Traffic leaves nothing behind",
  "However often an operation of any kind is repeated (requests answered, refused, unanswered or given up, received messages, uninterpretable or damaged frames, noise, resets, losses of the port and reconnections, probes), once its time-outs have passed no timer, task, waiter, buffered byte or other object remains of it, so a process can run indefinitely.",
  ["histories", "fault_sequences"], "all kinds of operation and mixes of them, repeated without limit (160 times tested)",
  "No test repeats an operation or looks at what remains.",
  [A, AP, U], [("removal of waiters", A + ": wait_for, data_received, request_raw"), ("cleanup on loss", AP + ": reconnect")], ["live objects, timers and tasks between repetitions"],
  [("waiters", "expected frames by id", A + ": API"), ("buffer", "unparsed bytes", U + ": Parser")])

p("C37", "Every call ends within a bounded time, and giving one up ends it at once",
  "Every public call (startup, forming, requests to devices, groups and everyone, ZDO requests, permits, raw requests, resets, waits, probes, shutdown) returns or raises within a bounded time, however many are in progress and whatever the adapter does: answers, ignores, refuses, answers late or twice, sends garbage, disappears, cannot be opened. A call that is cancelled ends immediately. Afterwards the library is not stuck: with a healthy adapter, startup and requests succeed.",
  ["fault_sequences", "schedules", "histories"], "all adapter behaviours x all sets of concurrent calls and cancellations",
  "Not tested; needs every combination of pending calls and faults, and tests never wait for time-outs.",
  [A, AP, SZ, U], [("time-outs of waits", A + ": Waiter.wait, wait_for"), ("request lock", A + ": request_raw"), ("semaphore", AP)], ["time each call takes", "success of calls afterwards"])
p("C38", "Logging at any level changes nothing and never fails",
  "For every history of the application, including damaged, uninterpretable and unsolicited frames, refused and unanswered requests and losses of the port: with logging enabled at any level the library sends the same bytes, delivers the same messages and returns the same results at the same times as with logging off, and every log record it emits can be formatted.",
  ["histories", "configurations", "inputs"], "all histories x all log levels",
  "Tests run at one log level and do not compare runs; most log calls are on paths they never take.",
  [AP, A, U, Z, SZ, T], [("log calls", "throughout"), ("representations", Z + ": __repr__, " + T + ": Repr")], ["traces with and without logging", "formatting of every record"])
p("C39", "A request made through zigpy gets the device's own answer to it",
  "When zigpy reads or writes attributes, sends cluster commands, configures reporting, binds or makes descriptor and leave requests on several devices, many at once, each caller gets exactly the answer its device gave to that request, whatever the delays and order of the answers (equal ZDO requests outstanding together being answered by the first reply), also when an answer overtakes the coordinator's acknowledgement. A request the device does not answer times out, one the coordinator refuses raises a delivery error, and neither disturbs others.",
  ["schedules", "inputs", "histories"], "all sets of concurrent operations x all contents, delays and orders of answers",
  "No test runs zigpy on top of the library against answering devices.",
  [AP, A, Z, U], [("request and reply path", AP + ": request, handle_znp"), ("matching of ZDO replies", A + ": create_response_waiter, data_received")], ["results of zigpy's calls"])

p("C40", "Unusable device settings are refused, usable ones kept and completed",
  "Device settings are refused, without touching any port, when the path is missing or is neither 'auto' nor something that exists, when the baud rate is not an integer, when flow control is not 'hardware', 'software' or none, or when a setting is unknown. All others are accepted unchanged, with 115200 baud and no flow control filled in where left out. This holds wherever settings are given: both schemas, the application, probing; validating twice changes nothing.",
  ["configurations", "inputs"], "all values of all settings, present, missing and unknown, at every place that takes them",
  "Tests use a few valid configurations.",
  [CF, AP, A], [("device schema", CF + ": SCHEMA_DEVICE"), ("use of the schema", A + ": API.probe; " + AP + ": SCHEMA, SCHEMA_DEVICE")], ["result of validation", "ports opened"])

p("C41", "A neighbour scan through zigpy yields every router's whole table",
  "When zigpy scans neighbours, one device at a time or all routers and the coordinator at once, each device that answers ends up with exactly the entries of its table, in order and unaltered, over however many replies it takes and whatever other traffic there is; entries with an IEEE address of all zeros or all ones are left out. Single lost replies or refusals are made up for by repetition. A device that does not support the request, is silent or stops half-way keeps the neighbours it had and disturbs no other.",
  ["inputs", "schedules", "fault_sequences"], "all table sizes and contents, page sizes, reply delays, losses and sets of devices scanned together",
  "No test makes a neighbour request.",
  [AP, A, Z, B], [("replies to ZDO requests", AP + ": REQUESTS, handle_znp"), ("neighbour entries", B + ": read_neighbor_lqi, write_neighbor_lqi"), ("request from a cluster", Z + ": from_cluster"), ("matching of replies", A + ": create_response_waiter")], ["neighbours of zigpy's device objects"])
p("C42", "Removing a device takes exactly that device away, whatever it answers",
  "Removing a known device through the application sends one leave request to it, with its network and IEEE address. Whether the device confirms, refuses or stays silent, and whether the coordinator refuses or does not acknowledge the request, the removal ends in bounded time (75 s) without error, the device is gone from the device table and its removal is reported once. Its later messages are not delivered, other devices and concurrent requests to them are unaffected, and it can join again. Removing an unknown device does nothing.",
  ["histories", "fault_sequences", "schedules"], "all histories of removals, answers, messages, requests and rejoining on several devices",
  "No test removes a device.",
  [AP, A, Z], [("force_remove, request, handle_znp", AP), ("announcement branch", AP + ": handle_znp")], ["device table", "leave requests received by the coordinator", "messages passed to zigpy"])
p("C43", "Devices outlive restarts and reconnections",
  "With a database configured, what was learned of the joined devices (address including its last change, node descriptor, endpoints, clusters, manufacturer, model, neighbours) is there again after the application is closed and created anew, and stays after every reconnection, also when the adapter had to be initialised anew, while removed devices stay away. Messages from these devices are delivered, and requests to them transmitted, at once and without interviewing them again. A creation that fails raises and leaves no port open, and a later one works.",
  ["histories", "fault_sequences", "inputs"], "all histories of joins, moves, scans, removals, losses and restarts on generated devices",
  "No test restarts the application or uses a database.",
  [AP, A, SZ], [("startup and reconnect", AP), ("announcement branch", AP + ": handle_znp"), ("coordinator entry", AP + ": startup")], ["device table after each start", "messages and requests of known devices", "interview requests on the air"])
p("C44", "What devices ask for themselves is answered, to them alone",
  "When devices make requests of their own that zigpy answers (reading the time, reports that want a confirmation, firmware queries and image blocks), each request that reaches the running application leads to exactly one answer, transmitted to that device and endpoint on that cluster under the request's transaction number with the content zigpy gave it, however many devices ask at once, whatever the user sends meanwhile and whichever other answers are refused or go unacknowledged. So a device that repeats unanswered requests fetches a firmware image unaltered, also across losses of the port. Reported values reach zigpy.",
  ["histories", "schedules", "fault_sequences"], "all sets of devices, requests, images and block sizes, faults and losses at all times",
  "No test has a device ask for anything.",
  [AP, A, Z], [("incoming messages", AP + ": handle_znp"), ("requests that expect no reply", AP + ": request"), ("pacing", AP + ": startup (semaphore)")], ["data requests received by the coordinator", "attribute values in zigpy"])

p("C45", "What zigpy believes of groups is what devices hold; group commands go out once",
  "When device endpoints are added to groups, removed from them or asked for their memberships through zigpy, and when devices announce themselves, zigpy's group members are exactly what each endpoint answered: an addition or removal the endpoint confirms is entered, one that it or the coordinator refuses is not and reports that status or raises, one that stays unanswered raises, and a later scan brings zigpy to what the endpoint really holds - whatever else devices, groups and users do at the time. Each command given to a zigpy group is transmitted exactly once to that group with its cluster and contents, and reports success only if the coordinator accepted it.",
  ["histories", "schedules", "fault_sequences"], "all histories of group operations, announcements and group commands, answers, refusals and losses",
  "The tests send one multicast with a mocked api and have no group members.",
  [AP, A, Z], [("group messages", AP + ": mrequest"), ("unicast requests", AP + ": request"), ("incoming messages", AP + ": handle_znp"), ("addressing", Z + ": from_cluster")], ["members of zigpy's groups", "group frames received by the coordinator", "results of the calls"])

p("C46", "A message whose handling fails harms nothing but itself",
  "For every history of the application: if zigpy's handling of messages or joins raises, on whichever of them and whatever it raises, then the library sends the same bytes, hands over the same messages and returns the same results at the same times as if the handlers had worked; nothing is raised into the serial transport or the event loop. Equal requests that share a reply all still get it. Only an announcement whose join could not be handled need not be handed over itself.",
  ["histories", "fault_sequences"], "all histories x all sets of messages whose handling raises, including several frames per read",
  "No test has a handler that raises.",
  [U, A, AP], [("dispatch of frames", U + ": Gateway.data_received"), ("dispatch of messages", A + ": data_received"), ("delivery to devices", AP + ": handle_znp")], ["bytes written", "messages handed over", "results of calls", "event-loop errors"])
p("C47", "A startup without network forming only looks at the adapter",
  "A startup without network forming, whatever the adapter's firmware, memory, device state and network, whatever the configuration and whatever startups went before on the same application or another, sends exactly one ping, one version and one device-information request and nothing else (LED commands that follow reports of the join state aside). It writes no setting, resets nothing, starts or forms no network and registers nothing. It succeeds when these requests are answered, raises when one is not, and after a success messages are delivered and requests transmitted.",
  ["configurations", "histories", "fault_sequences"], "all prior adapter states x all sequences of startups with and without forming",
  "Tests mock the api during startup and never look at what is sent to an adapter.",
  [AP, SZ], [("auto_form", AP + ": startup"), ("network start", SZ + ": start_znp")], ["requests received by the adapter", "adapter memory and network before and after"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
