#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    if hook is not None:
        a["hook_needed"] = hook
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": a,
    })


PROTO = "pyown/protocol/protocol.py"
CB = "pyown/client/base.py"
CC = "pyown/client/client.py"
IB = "pyown/items/base.py"

prop("P01", "Inbound stream integrity: every gateway frame is read once, in order, intact",
     "Whatever way TCP cuts, joins or delays the gateway's bytes, the sequence of messages an application reads from a session is exactly the sequence of frames the gateway sent: none lost, duplicated, reordered, invented or altered, including across reads that time out or are cancelled. "
     "Each message read has the kind, the address, action, dimension and value fields, and the exact text of the frame that produced it. "
     "A well-formed frame of an unknown system or structure is delivered as a generic message and costs nothing else.",
     ["inputs", "schedules", "fault_sequences"],
     "all sequences of well-formed frames, all segmentations/coalescings/delays of their bytes, all interleavings with reads that time out, are cancelled or run concurrently",
     "The unit tests parse single complete frames handed over as one string; none delivers a frame in two TCP segments, several in one, or cancels a read.",
     [PROTO, CB, "pyown/messages/base.py", "pyown/messages/dimension.py", "pyown/messages/normal.py", "pyown/messages/status.py"],
     [("stream to frames", PROTO + ":data_received"), ("queue of parsed messages", PROTO + ":receive_messages"),
      ("frame to typed message", "pyown/messages/base.py:parse_message"), ("timed read", CB + ":read_message")],
     ["messages returned by read_message", "callbacks invoked by the event loop"])

prop("P02", "Malformed input is contained",
     "Bytes that are not valid OpenWebNet (foreign characters, non-ASCII bytes, broken or enormous frames) never surface to the application as a message and never cost a valid frame that was completely received before them. "
     "They never block the event loop, and every operation in progress still finishes within its normal time limit, whether the session survives or is closed.",
     ["inputs", "schedules", "fault_sequences"],
     "all byte strings injected at any point of a valid stream, with any segmentation",
     "Tests inject two fixed invalid buffers into an otherwise empty protocol object; none mixes valid and invalid data, uses adversarial frames or checks pending operations.",
     [PROTO, "pyown/messages/base.py", CC],
     [("decode and validate", PROTO + ":data_received"), ("frame validation", "pyown/messages/base.py:parse_message")],
     ["messages returned by read_message", "CPU time per delivered segment", "outcome of pending operations"])

prop("P03", "Outgoing integrity: frames leave whole, once each, in order",
     "The bytes the gateway receives on a session are exactly the concatenation of whole, correctly encoded frames, one for each message the application sent, with nothing truncated, interleaved, duplicated or added. "
     "Messages sent one after another by the same task arrive in that order, also when the network stalls, accepts only partial writes, or when some sends are cancelled while waiting. "
     "A send that waits because the network is stalled goes out once the stall ends.",
     ["schedules", "fault_sequences", "inputs"],
     "all sets of concurrent senders, message contents, window stalls, partial writes and cancellations",
     "No test writes to a socket at all.",
     [PROTO, CB],
     [("write with flow control", PROTO + ":send_message"), ("pause and resume", PROTO + ":pause_writing / resume_writing")],
     ["bytes received by the gateway"])

prop("P04", "Session establishment follows the gateway's verdict",
     "Opening a session succeeds exactly when the gateway grants it: with no authentication, or with the password challenge answered correctly; otherwise opening fails with an authentication or timeout error and the client stays unusable. "
     "The session kind the application asked for is the one announced to the gateway, nothing is announced before the gateway's greeting, and a right password is never refused nor a wrong one reported as accepted.",
     ["configurations", "inputs", "schedules", "fault_sequences"],
     "all session kinds, passwords, nonces, gateway verdicts and reply timings/segmentations",
     "The only related test checks the password transform on one fixed vector; the handshake itself has no test.",
     [CB, "pyown/client/session.py", "pyown/auth/open.py"],
     [("handshake", CB + ":start"), ("password challenge", CB + ":_authenticate_open"), ("session kind frame", "pyown/client/session.py:to_message"), ("password transform", "pyown/auth/open.py:own_calc_pass")],
     ["outcome of start", "frames received by the gateway"])

prop("P05", "HMAC handshake is mutual authentication with fresh randomness",
     "With a gateway that asks for the hashed handshake (SHA-1 or SHA-256) a client with the right password always gets a session, and one with a wrong password never does. "
     "The client confirms the handshake only to a gateway that proved knowledge of the password for this very exchange; a forged, replayed, reflected, malformed or missing proof always makes opening fail. "
     "Every handshake uses a client nonce of full length that was never used before.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "all passwords, server nonces, both hash algorithms, all forged/replayed proofs and histories of repeated handshakes",
     "No test runs the HMAC handshake against a peer; it needs a second party and adversarial histories.",
     [CB, "pyown/auth/hmac.py", "pyown/auth/enum.py"],
     [("handshake", CB + ":_authenticate_hmac"), ("digests", "pyown/auth/hmac.py:client_hmac / server_hmac"), ("nonce", "pyown/auth/hmac.py:create_key"), ("digit encoding", "pyown/auth/hmac.py:hex_to_digits / digits_to_hex")],
     ["outcome of start", "frames received by the gateway"])

prop("P06", "Opening a session always terminates and fails cleanly",
     "Whatever the gateway or network does while a session is being opened (refused, unreachable, silent, slow, dropped, confused or hostile replies), opening ends within a bounded time with success, a timeout error or one of the library's own errors, never hanging and never with an unrelated error. "
     "When it fails or is cancelled, no connection to the gateway stays open and a later attempt against a healthy gateway succeeds.",
     ["fault_sequences", "schedules", "inputs", "crash_points"],
     "all fault points of the handshake: connect errors, silence, drops, resets, arbitrary reply frames at each step, cancellation at each step",
     "No test opens a connection; every fault point of a multi-step exchange would need its own test.",
     [CB, PROTO],
     [("handshake and its timeouts", CB + ":start"), ("release", CB + ":close")],
     ["outcome and duration of start", "connections still open at the gateway"])

prop("P07", "Sessions only do what their kind and state allow",
     "An event session never puts a command on the wire and a command session never runs the event loop; both are refused with the library's session error, at any time and under any interleaving with opening and closing. "
     "A client that is not open (never opened, failed to open, or closed) refuses to send, read or run its loop with that same error, and nothing reaches any gateway.",
     ["histories", "schedules", "configurations"],
     "all sequences of open/close/command/read/loop calls over every session kind, including calls racing with open and close",
     "The rules are about histories of calls over connection states; tests have no connected client.",
     [CB, CC, "pyown/client/session.py"],
     [("send guard", CB + ":send_message"), ("read guard", CB + ":read_message"), ("loop guard", CC + ":loop")],
     ["exceptions raised by the API", "frames received by the gateway"])

prop("P08", "A command's outcome is the gateway's answer to that command",
     "A command call returns normally only if the gateway positively acknowledged that very command, raises the response error if the gateway refused it or answered something else, and times out within its limit if no answer came. "
     "This holds for any number of tasks sharing one client, after earlier commands failed, timed out or were abandoned, and with unsolicited frames received before the command was issued: no answer received before a command was issued, or given to another command, ever decides it.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of concurrent callers on one client, all answer sequences (ACK, NACK, wrong frames, silence, delay below the limit), abandoned or failed earlier exchanges whose answers arrived before the next command was issued; answers still in transit when a later command is issued are outside the claim (the protocol carries no identifiers)",
     "Needs several tasks on one live session and answer schedules; tests never exchange a command.",
     [IB, CB, "pyown/items/camera/camera.py"],
     [("command and acknowledgement", IB + ":send_normal_message / send_dimension_writing"), ("camera commands", "pyown/items/camera/camera.py:_send_command_without_where")],
     ["outcome of item commands", "gateway's record of commands and answers"])

prop("P09", "A query returns exactly the gateway's data for that query",
     "A status or value query yields exactly the records the gateway sent in answer to that query, each once, in order, attributed to the device that reported it, and ends normally only on the gateway's final acknowledgement. "
     "A refusal, an unexpected frame or silence ends it with the response or timeout error, and no query ever returns data that answers another query, whether concurrent, earlier, failed or abandoned halfway.",
     ["schedules", "histories", "fault_sequences", "inputs"],
     "all device populations and answers, all interleavings of concurrent queries and commands on one client, queries abandoned after any number of records",
     "Needs multi-frame answers, concurrency and abandonment on a live session.",
     [IB, CB],
     [("status query", IB + ":send_status_request"), ("value query", IB + ":send_dimension_request"), ("single value", IB + ":_single_dim_req")],
     ["values yielded or returned by item queries"])

prop("P10", "Lights, dimmers, shutters and cameras do what the call says",
     "After an acknowledged command the addressed device, group or area, and no other, is in the state the call names (on, off, timed, blinking, level, speed, colour, white temperature, temporization, up, down, stop, camera function), as the protocol documents define the frames. "
     "Reading the device back returns the values last written or reported for it, and arguments outside the documented ranges are rejected before anything is sent.",
     ["inputs", "histories", "configurations"],
     "all sequences of calls over all item kinds, addresses (point, area, group, general, local bus) and argument values, against a reference model of the installation, also under stalls, delays and refusals",
     "Tests check three camera frame texts; the mapping of the rest of the API onto device state over histories is untested.",
     ["pyown/items/lighting/base.py", "pyown/items/lighting/light.py", "pyown/items/lighting/dimmer.py", "pyown/items/automation/automation.py", "pyown/items/camera/camera.py", IB],
     [("light commands", "pyown/items/lighting/base.py"), ("dimmer commands and queries", "pyown/items/lighting/dimmer.py"), ("shutters", "pyown/items/automation/automation.py"), ("camera", "pyown/items/camera/camera.py")],
     ["state of the reference installation", "values returned by queries"])

prop("P11", "Gateway clock and identity round-trip exactly",
     "A date, time or date-time written to the gateway denotes the same calendar date, time of day and UTC offset (whole hours, either sign) when read back by this library or as defined by the protocol documents. "
     "Addresses, masks, MAC, model, versions and uptime read from the gateway are exactly the ones it holds.",
     ["inputs", "histories"],
     "all dates, times, positive and negative whole-hour offsets and identity values, over write/read histories and faults",
     "No test covers the gateway item; the offset encoding needs the full range of values on both directions.",
     ["pyown/items/gateway/gateway.py", IB],
     [("offset encoding", "pyown/items/gateway/gateway.py:_parse_own_timezone / _tz_to_own_tz"), ("setters and getters", "pyown/items/gateway/gateway.py:set_* / get_*")],
     ["state of the reference gateway", "values returned by getters"])

prop("P12", "Energy readings and controls match the meters",
     "Every energy reading (power, totalizers, monthly and daily figures, reset totalizers with their date, actuator status, differential level, Stop&Go flags) equals what the addressed meter holds for the requested period, and every energy control (reports, automatic updates, forcing, enabling, resets, automatic reset) reaches exactly the addressed device with the requested parameters. "
     "Addresses that are not of the documented form and range of an energy device are rejected.",
     ["inputs", "histories", "configurations"],
     "all energy devices, addresses, periods and parameter values, over histories of controls and readings, also under stalls, delays and refusals",
     "No test covers the energy items.",
     ["pyown/items/energy/energy.py", "pyown/items/energy/stop_go.py", "pyown/items/energy/enums.py", IB],
     [("readings", "pyown/items/energy/energy.py:get_*"), ("controls", "pyown/items/energy/energy.py:start_* / force_* / reset_*"), ("Stop&Go", "pyown/items/energy/stop_go.py:request_status")],
     ["state of the reference meters", "values returned by readings"])

prop("P13", "Each event reaches each registered callback exactly once, decoded right",
     "While the event loop runs, every event frame for a supported device starts every callback registered for that kind of event exactly once, with the item of the reporting device and the values the frame carries, and starts no callback registered for anything else. "
     "Callbacks are started in the order the frames were received, and slow or failing callbacks neither delay, lose nor repeat the others.",
     ["schedules", "inputs", "histories", "fault_sequences"],
     "all sequences of event frames of all supported systems, all registrations, segmentations, callback durations and failures",
     "No test runs the event loop or registers a callback.",
     [CC, "pyown/items/lighting/base.py", "pyown/items/automation/automation.py", "pyown/items/camera/camera.py", "pyown/items/gateway/gateway.py", "pyown/items/energy/energy.py"],
     [("dispatch", CC + ":_dispatch_callbacks"), ("decoding per item kind", "pyown/items/*:call_callbacks")],
     ["callback invocations and their arguments"])

prop("P14", "The event loop survives whatever the bus and the application throw at it",
     "No frame the gateway can send (unknown systems, unsupported or malformed device addresses, unexpected actions, dimensions, missing or odd values, acknowledgements) and no callback that raises, is cancelled or never finishes stops the event loop or prevents a later event from being delivered. "
     "The loop ends only because the connection ended or the application stopped it. An error a callback raises does not pass silently: it is logged once the callbacks of that event ended.",
     ["inputs", "fault_sequences", "schedules", "histories"],
     "all well-formed frames in any order and any callback behaviour",
     "No test runs the event loop.",
     [CC, "pyown/items/energy/energy.py"],
     [("loop error handling", CC + ":loop"), ("callback isolation", CC + ":_dispatch_callbacks / _check_task_result"), ("item construction", CC + ":get_item")],
     ["later callbacks still invoked", "loop task still running"])

prop("P15", "The event loop ends when the connection ends, after the last event",
     "When the gateway closes or resets the connection, or the application closes the client, a running event loop returns promptly and without error. "
     "When the gateway ended the connection, every complete event frame received before the end is delivered first.",
     ["crash_points", "schedules", "fault_sequences"],
     "all points in the event stream at which the connection ends, by EOF, reset or local close, idle or with a backlog",
     "No test runs the event loop or ends a connection.",
     [CC, PROTO, CB],
     [("loop condition", CC + ":loop"), ("end of connection", PROTO + ":connection_lost"), ("close", CB + ":close")],
     ["completion of the loop call", "callbacks invoked"])

prop("P16", "One item per device, bound to the right client",
     "For the lifetime of a client, asking for the same system and address always yields the same item, and different addresses or systems yield different items of the matching kind. "
     "The item handed to event callbacks for a device is that same item, bound to the client the application designated for commands, so a command issued from a callback goes to that client's session and address.",
     ["histories", "schedules"],
     "all interleavings of item lookups and incoming events, with one or two clients",
     "Needs event histories interleaved with lookups.",
     [CC, IB, "pyown/items/utils.py"],
     [("item cache", CC + ":get_item"), ("designated client", CC + ":loop"), ("kinds", "pyown/items/utils.py:ITEM_TYPES")],
     ["identity, kind, address and client of items", "frames received by the gateways"])

prop("P17", "Every operation finishes in bounded time under any network behaviour",
     "Every command, query and timed read on a session finishes, with a result or an error, within its documented limit per expected frame once the network accepts the bytes it has to send; it never hangs when the connection stalls and recovers, is dropped, reset or closed at any moment. "
     "After a stall without loss, operations succeed again on the same session; after a loss they fail until the client is opened again.",
     ["schedules", "fault_sequences", "crash_points"],
     "all points of an exchange at which the network stalls, recovers, drops, resets or the application closes the client",
     "Tests have no network and no clock.",
     [PROTO, CB, IB],
     [("send wait", PROTO + ":send_message"), ("read limit", CB + ":read_message"), ("end of connection", PROTO + ":connection_lost")],
     ["duration and outcome of operations in virtual time"])

prop("P18", "Closing is final, repeatable and reopening starts afresh",
     "Closing a client, at any moment and also while it is being opened, closes its connection exactly once, may be repeated or called on a client never opened, and afterwards nothing more of that client reaches the gateway. "
     "A closed, dropped or failed client can be opened again any number of times, and the new session behaves as a first one: no message, answer or error of an earlier session appears in it.",
     ["histories", "crash_points", "schedules"],
     "all histories of open, use, drop and close, with backlogs and operations pending at the moment of closing",
     "Needs histories of sessions on one client object.",
     [CB, PROTO],
     [("close", CB + ":close"), ("open", CB + ":start"), ("per-connection state", PROTO + ":OWNProtocol")],
     ["connections seen by the gateway", "messages read after reopening"])

prop("P19", "Clients are isolated from each other",
     "Any number of clients in one process, to the same or different gateways and of any session kind, behave as if each were alone: no frame, answer, error, stall, drop or close of one is ever seen by another.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "all interleavings of several clients with independent faults",
     "Needs several live sessions at once.",
     [CB, CC, PROTO],
     [("per-client state", CB + ":BaseClient"), ("item cache", CC + ":Client")],
     ["messages, outcomes and events per client against that client's own gateway"])

prop("P20", "Default periods refer to one instant of the clock",
     "Where an energy call is given no day, month or year, the period sent to the gateway is the current one as a whole: all defaulted parts belong to a single instant within the call, also when midnight, a month end, a new year or a clock adjustment falls inside the call, and parts that were given are kept.",
     ["schedules", "inputs", "fault_sequences"],
     "all clock positions and jumps relative to the call, all combinations of given and defaulted parts",
     "Requires controlling the clock between two statements.",
     ["pyown/items/energy/energy.py"],
     [("defaults", "pyown/items/energy/energy.py:get_energy_unit_per_month / start_sending_*")],
     ["frames received by the gateway against the simulated clock"])

prop("P21", "Address classification and tag syntax are total and exact",
     "Every address string the protocol documents define is classified as what the documents say (general, area, point, group, local bus), every other string is rejected, and tags accept exactly the protocol's alphabet.",
     ["inputs"],
     "all strings",
     "Unit tests sample a handful of strings.",
     ["pyown/tags/where.py", "pyown/tags/base.py"],
     [("classification", "pyown/tags/where.py:type"), ("alphabet", "pyown/tags/base.py:is_valid_tag")])

prop("P22", "Messages are values: compared, counted, shared and sent again safely",
     "Two messages of the same text and kind are equal and hash alike wherever they come from (received in any segmentation, on any session, parsed, or built by the application or an item), and messages of different text or kind differ; so waiting for, counting and looking up messages by comparison agrees with the frames on the wire. Nothing a task does with the tags, parameters and values it obtained from a message changes that message for itself or for others, and a message that is sent, later, again or on several sessions at once, leaves as the frame it was when it was received or built.",
     ["inputs", "histories", "schedules"],
     "all messages, all interleavings of tasks that receive, compare, keep, modify what they obtained and send",
     "Unit tests sample a handful of messages of one task and never compare what came over a connection.",
     ["pyown/messages/base.py", "pyown/tags/base.py", "pyown/messages/dimension.py"],
     [("equality and hash", "pyown/messages/base.py:BaseMessage"), ("copy of tags", "pyown/messages/base.py:tags"), ("tags", "pyown/tags/base.py:Tag")],
     ["counts and lookups of received messages", "bytes received by the gateway"])

prop("P23", "Bounded resources while in use, nothing left behind after close",
     "However a client is used and however each of its sessions ends (closed, refused, dropped, reset, abandoned while it is opened, calls cancelled, callbacks failing), messages that were delivered and calls and callbacks that ended are released, however long a session lasts and however often it is reopened. Once the client is closed and the calls and callbacks in progress have ended, nothing of it remains in the process: no open connection, no running task, no pending timer, and nothing that keeps the client or its sessions alive after the application drops them.",
     ["histories", "crash_points", "schedules", "fault_sequences"],
     "all histories of opening, failing to open, use, cancellation and closing, of any length",
     "Leaks show only over long histories or after particular failures; unit tests neither repeat nor count.",
     ["pyown/client/base.py", "pyown/client/client.py", "pyown/protocol/protocol.py", "pyown/items/base.py"],
     [("life of a connection", "pyown/client/base.py:start / close"), ("message queue", "pyown/protocol/protocol.py:receive_messages / discard_messages"), ("callback tasks", "pyown/client/client.py:_dispatch_callbacks")],
     ["open sockets, tasks and timers of the simulated process", "objects alive after a garbage collection"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
