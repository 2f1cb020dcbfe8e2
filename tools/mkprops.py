#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties live here so that they can be edited comfortably)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=None)))
AST="lib-secs2-hsms-go/pkg/ast/"
PAR="lib-secs2-hsms-go/pkg/parser/hsms/parser.go"
PR="hsms/protocol.go"
prop("C01","Every SECS-II message has its exact wire form and decodes back unchanged",
 "Encoding any data message gives the 4-byte HSMS length, the 10-byte header (session, W+stream, function, PType 0, SType 0, system bytes) and each item as format code, minimal number of length bytes and big-endian values, for every item type, nesting and item size up to three length bytes. Decoding those bytes gives back the same session, stream, function, wait bit, system bytes and items. The HSMS control messages likewise have their exact 14-byte form, responses carry the session and system bytes of their request, and decode back unchanged.",
 ["inputs"],"all item trees over all 14 formats, values at and around their range limits, lengths around 255/256 and 65535/65536, all header fields, all eight control messages",
 "Tests encode a few dozen short items; item sizes that need a second or third length byte and value limits are not reached.",
 [AST+"ast.go",AST+"interface.go",AST+"list.go",AST+"ascii.go",AST+"binary.go",AST+"boolean.go",AST+"int.go",AST+"uint.go",AST+"float.go",AST+"hsms.go",PAR],
 [("ItemNode.ToBytes","header bytes + values per node type"),("DataMessage.ToBytes / ControlMessage constructors",AST),("hsms.Parse",PAR)],
 ["DataMessage.ToBytes","hsms.Parse","NewHSMSMessage* constructors"])
prop("C02","Decoding accepts exactly the well-formed messages and never fails otherwise",
 "For every byte string, decoding terminates without crashing and accepts it exactly when it is a well-formed HSMS message: length field equal to the bytes present, PType 0, a defined SType, and for data messages a text that is empty or one item whose declared lengths, element sizes and nested lists use up exactly the bytes present. Truncated, over-long, trailing or inconsistent input is rejected, never decoded to something it does not say.",
 ["inputs"],"all byte strings: exhaustive over small alphabets, truncations/extensions/bit flips of valid messages, deep nesting, huge declared lengths",
 "The decoder tests use hand-written samples; hostile lengths, trailing bytes, deep nesting and inconsistent element sizes are untested.",
 [PAR],[("parseMessageLength / parseMessageText / length checks",PAR),("nesting bound",PAR)],["hsms.Parse"])
prop("C03","Connections carry whole messages in order under any cuts and racing senders",
 "Messages a peer sends arrive at the handlers exactly once, complete and in sending order, however TCP cuts the byte stream. When any number of goroutines send on one connection, the byte stream is a sequence of whole messages in which every successful send appears exactly once and each sender's messages stay in its order.",
 ["schedules","inputs"],"all segmentations of the stream, including single bytes and several messages per segment, all interleavings of concurrent senders, message sizes from header-only to several read buffers",
 "Tests run over loopback where a message nearly always arrives in one segment and have no concurrent senders on one connection.",
 ["codec/secs2.go","codec/bufio.go","session.go","hsms/connection.go",PR],
 [("secsIICodec.Receive reads length then body in full","codec/secs2.go"),("Session.Send under sendMutex","session.go"),("bufio flush per message","codec/bufio.go")],
 ["bytes on the TCP connection","registered handlers"])
prop("C04","Every reply is delivered to the caller whose request it answers, and to no other",
 "When any number of requests are open at once, each carries system bytes different from all other open ones and the application's configured session id, and the reply with those system bytes is returned by exactly that request, whatever the order in which replies arrive. A primary message from the peer is never taken for a reply, even if its system bytes equal those of an open request.",
 ["schedules","histories"],"all interleavings of concurrent requests, reply orders, duplicate or unsolicited replies and peer primaries whose system bytes collide with open requests",
 "Tests have one request at a time answered by a cooperative peer.",
 [PR,"utils/queue.go"],[("systemQueues by system bytes; isReply",PR),("getNextSystemCounter",PR),("Deque per transaction","utils/queue.go")],
 ["SendAndWait results","bytes sent to the peer"],[("systemQueues","open transactions by system bytes",PR)])
prop("C05","A request without reply fails after T3 with exactly one S9F9, and is then closed",
 "A request whose reply does not arrive fails with the T3 timeout error not before and promptly after the configured T3, and exactly one S9F9 whose body is the 10-byte header of that request is then sent; a request answered within T3 never fails so and causes no S9F9. A reply that arrives after the timeout is delivered to no request and is not answered.",
 ["schedules","histories","configurations"],"all interleavings of several open requests with replies before, after and without T3, for different T3 values",
 "The only timeout test uses an unconnected protocol object; late replies and mixed outcomes are not tested.",
 [PR,"hsms/protocol_s9_helpers.go","utils/queue.go"],[("SendAndWait / sendS9F9TransactionTimeout",PR)],["SendAndWait errors","S9F9 seen by the peer"])
prop("C06","Every primary message is dispatched once and gets at most one fitting answer",
 "In SELECTED, each data message that closes no open request is given exactly once to the handler of its stream and function, else to the default handler, in arrival order; a handler's reply goes out only for a message with the wait bit, with the request's system bytes and the session id. Without a handler, an odd function is answered by exactly one S9F3 if its stream is not one SEMI E5 defines, else by one S9F5, naming the stream or function and carrying the request's system bytes; stream 9 and even functions are never answered, and stream 9 messages are reported to the error callback.",
 ["inputs","histories"],"all 128 streams x 256 functions x wait bit, all sets of registered handlers and handler outcomes (reply, none, error)",
 "Tests call the S9 builders directly or send one or two messages.",
 [PR,"hsms/protocol_s9_helpers.go","hsms/error_messages.go"],[("handleDataMessage / invokeHandler",PR),("sendS9ErrorForUnrecognized","hsms/protocol_s9_helpers.go")],["handler calls","messages sent to the peer","OnS9Error"])
prop("C07","The HSMS session state follows select, deselect and separate, and gates data",
 "An endpoint is SELECTED exactly after a select was accepted on its current connection and until deselect, separate, disconnect or Disable; every select.req, deselect.req and linktest.req on a live connection is answered with the request's system bytes, and a select for a session id other than the configured one (unless either side uses the wildcard) is refused and the connection closed. Unsolicited or refused select.rsp and deselect.rsp do not change the state. Outside SELECTED no data message is delivered to a handler or sent by the application, whose sends fail with the not-connected or not-selected error.",
 ["histories","configurations"],"all sequences of control and data messages, sends, disconnects and reconnects, for active and passive endpoints and all session id combinations",
 "Tests check the state table in isolation, without a peer and without messages in the wrong state.",
 [PR,"hsms/connection.go","hsms/connectionStateMachine.go"],[("handleHsmsRequests",PR),("ConnectionStateMachine","hsms/connectionStateMachine.go"),("ensureReady and receiver gate",PR)],
 ["CurrentState","messages sent to the peer","send errors","handlers"])
prop("C08","A connection that is not selected, or stops mid-message, is closed in time",
 "A connection that stays without select for T7, counted from connecting or from the last deselect, is closed then and the endpoint reports NOT-CONNECTED; one selected in time is never closed by T7, even when the select comes shortly before. A connection on which a message stops arriving part-way is closed after T8.",
 ["schedules","configurations"],"all placements of select, deselect and partial messages relative to T7 and T8, for active and passive endpoints",
 "No test lets T7 or T8 expire.",
 [PR],[("startT7Timer / stopT7Timer",PR),("read deadline from T8",PR)],["connection close seen by the peer","CurrentState"])
prop("C09","Enabled endpoints recover from every connection loss; disabled ones stay down",
 "After any loss of its connection - peer close, reset, separate, refused select, T7, T8 or an undecodable message - at any point of any exchange, an enabled endpoint reports NOT-CONNECTED and accepts (passive) or opens after T5 (active) a new connection that works like the first; with auto-reconnect disabled an active endpoint does not. After Disable it reports NOT-CONNECTED, its connection is closed, its sends fail and it accepts and opens no connection until it is enabled again, when it works as before.",
 ["fault_sequences","histories"],"all sequences of losses of every kind at every protocol point, with Disable/Enable interleaved",
 "Tests check getters of the reconnection configuration; none loses a connection.",
 [PR,"server.go","manager.go","session.go"],[("startConnectThread / activeConnect / passiveConnect",PR),("receiver clean-up",PR),("Disable",PR)],["CurrentState","new connections","send errors"])
prop("C10","Failed connects are retried with capped exponential backoff and a limit",
 "While the peer is unreachable, the active endpoint waits base*2^(n-1) seconds, at most the configured maximum, after its n-th consecutive failed attempt, and gives up after the configured number of retries (never, if it is 0). A successful connection starts the count anew, and with auto-reconnect disabled there is no second attempt.",
 ["fault_sequences","configurations"],"all base/max/limit settings and all times at which the peer becomes reachable",
 "Tests call the delay function only; no test makes connecting fail.",
 ["hsms/reconnection.go","hsms/reconnection_config.go",PR],[("calculateBackoffDelay","hsms/reconnection.go"),("startConnectThread",PR)],["times at which connections arrive"])
prop("C11","No peer can crash or wedge an endpoint",
 "Whatever bytes a peer sends or however it drops connections - malformed frames, valid messages with any item tree as body for any stream and function, control messages in any state and order, resets - the process does not crash, and a later well-behaved connection is served: it can be selected, linktested and exchange S1F1/S1F2 and S1F13/S1F14.",
 ["inputs","fault_sequences","histories"],"all byte streams and message sequences a peer can send to a host or equipment handler with all GEM services",
 "Tests use cooperative peers only.",
 [PR,PAR,"gem/handler.go","gem/id_utils.go","gem/collection_event_handlers.go","gem/status_equipment_handlers.go","gem/remote_command.go","gem/process_program_handlers.go","gem/alarm_handlers.go","gem/clock_handlers.go"],
 [("recover in Parse, length checks",PAR),("body validation in each SxFy handler","gem/")],["process exit","new connection works"])
prop("C12","The transaction queue delivers each item once, in order, without lost wakeups",
 "Under any number of concurrent producers and consumers, every item put into the queue is returned by exactly one Get, in the order of the Puts, and a Get that has not timed out returns as soon as an item is available to it. Get fails only if no item was available to it until its timeout.",
 ["schedules"],"all interleavings of concurrent Put and Get calls with all timeouts",
 "There is no test of the queue.",
 ["utils/queue.go"],[("Deque.Put/Get with notification channel","utils/queue.go")],["Deque.Get results and their times"])
prop("C13","Sessions, channels, managers and servers account for every session exactly",
 "Closing a session, by any number of callers, by a receive or send error or by its full send queue, happens once: the codec is closed once, each close callback registered before and not removed runs exactly once, later sends fail, and no removed callback runs. The codec is given the accepted messages in order, one at a time. A channel holds exactly the live sessions last put under each key, a manager exactly its live sessions by id, and disposing a manager or stopping a server closes all its sessions, lets none in afterwards, and returns.",
 ["schedules","histories"],"all interleavings of close, send, receive errors, callback registration, channel and manager operations",
 "One end-to-end echo test; no concurrent close, callback or channel semantics.",
 ["session.go","channel.go","manager.go","server.go"],[("Session.Close CAS","session.go"),("close callback list","session.go"),("Channel.Put/Remove/removeClosed","channel.go"),("Manager maps and dispose","manager.go")],
 ["Session, Channel, Manager, Server API"])
prop("C14","GEM communication is established by S1F13/S1F14 and lost with the HSMS session",
 "A handler reports COMMUNICATING only if, in the current enablement and HSMS session, it received the peer's S1F13 (which it answers with COMMACK 0) or an S1F14 with COMMACK 0 (no other reply to its S1F13 counts). While it is enabled and selected but not COMMUNICATING it keeps sending S1F13, one at a time: an attempt ends when it is refused or T3 passes; a host then starts the next one once its configured delay has passed and not before, an equipment at its next poll. Becoming COMMUNICATING raises the HandlerCommunicating event once. It leaves COMMUNICATING when the HSMS session ends (noticed within the polling period of 500 ms) or it is disabled, and never because an overtaken S1F13 attempt fails or is refused. GEM requests fail with the not-communicating error outside COMMUNICATING and send nothing, and waiting for communication returns true exactly if it is reached within the given time.",
 ["histories","schedules","configurations"],"all interleavings of S1F13/S1F14 (accepted, refused, missing, colliding, late), connection losses, deselects and Disable/Enable, for host and equipment",
 "Tests establish communication once between cooperative peers.",
 ["gem/handler.go","gem/communication_state.go"],[("observe / initiateHandshake / initiateEstablishCommunication","gem/handler.go"),("stateMachine","gem/communication_state.go")],
 ["State","WaitForCommunicating","S1F13/S1F14 on the wire"])
prop("C15","The control state follows E30 for operator, host and communication events",
 "The equipment's control state changes only along the E30 transitions: operator online/offline/local/remote switches, ATTEMPT ONLINE ending ONLINE after S1F2 and HOST OFFLINE otherwise, host S1F15 taking it from ONLINE to HOST OFFLINE, host S1F17 from HOST OFFLINE to ONLINE in the last selected local/remote mode, and loss of communication leaving ONLINE or ATTEMPT ONLINE for EQUIPMENT OFFLINE. Requests not allowed in the current state are refused with an error or ONLACK 1 (2 if already online) and change nothing, and every change is reported once with its old and new state.",
 ["histories","configurations"],"all sequences of operator switches, S1F15/S1F17, communication losses and S1F1 outcomes from every initial state and online mode",
 "Tests walk a few paths of the table.",
 ["gem/control_state_machine.go","gem/handler.go"],[("ControlStateMachine","gem/control_state_machine.go"),("transitionControl / onS1F15 / onS1F17","gem/handler.go")],
 ["ControlState","S1F16/S1F18","ControlStateChanged"])
prop("C16","Report definitions, links and enables change as one message says, or not at all",
 "S2F33 defines reports, deletes those with an empty VID list together with their links, and deletes all reports and links if empty; S2F35 links reports to events or removes an event's links; S2F37 enables or disables the named linked events, or all. A message that is malformed, redefines an existing report, names an unknown VID, CEID or RPTID, or an existing or repeated link, is answered with a non-zero code of its kind and changes nothing at all.",
 ["histories","inputs"],"all sequences of S2F33/S2F35/S2F37 messages with valid and invalid entries in any order and mixture, numeric and text ids",
 "Tests define, link and enable one report once.",
 ["gem/collection_event_handlers.go","gem/collection_events.go","gem/id_utils.go"],[("handleReportDefinitions / handleEventReportLinks / setCollectionEventState","gem/collection_event_handlers.go")],
 ["S2F34/S2F36/S2F38 codes","reports returned by S6F15"],[("reports, eventLinks","definitions and links","gem/handler.go")])
prop("C17","Event reports hold exactly the linked reports with the current values, in order",
 "Triggering a collection event sends one S6F11 per triggered event that has linked reports and is enabled, and none otherwise, and S6F15 for such an event is answered with the same content: the event id and, in link order, each linked report with its id and, in definition order, the current value of each of its variables (an empty list for one without value). Triggering outside COMMUNICATING fails and sends nothing.",
 ["histories","inputs","schedules"],"all report/link/enable configurations reached by any message sequence, all variable values, concurrent triggers and redefinitions",
 "Tests check one event with one report.",
 ["gem/collection_event_handlers.go","gem/data_variables.go","gem/status_variables.go"],[("buildCollectionEventPayload / sendCollectionEvent","gem/collection_event_handlers.go")],["S6F11, S6F16 on the wire"])
prop("C18","Alarms are reported, enabled, disabled and listed exactly as registered and set",
 "Raising or clearing a registered alarm records its state and sends exactly one S5F1 with its id, text and state if it is enabled, and nothing if it is disabled; an unknown alarm gives an error and sends nothing. S5F3 enables (ALED 128) or disables exactly the named alarms and is refused without any change if one is unknown or the message malformed; S5F5 and S5F7 list all, respectively the enabled, alarms in id order with their current text, set and enabled state.",
 ["histories","inputs"],"all sequences of registrations, raises, clears, local and remote enables and disables and list requests, all alarm ids",
 "Tests raise one alarm; S5F3 to S5F8 are not tested at all.",
 ["gem/alarm.go","gem/alarm_handlers.go"],[("RaiseAlarm / onS5F3 / buildS5F6","gem/alarm.go, gem/alarm_handlers.go")],["S5F1..S5F8 on the wire","RaiseAlarm errors"])
prop("C19","Status variables and equipment constants are read and written as requested",
 "S1F3/S2F13 return the current values and S1F11/S2F29 the descriptions of exactly the requested variables or constants in request order, with an empty entry for each unknown one, and of all in registration order for an empty request. S2F15 sets every named constant to its given value or, if any entry is malformed, unknown or refused by its validator or updater, answers with a non-zero code and changes no constant.",
 ["histories","inputs"],"all request lists with known, unknown, duplicate and malformed ids, all value types, all sequences of updates and reads",
 "Tests read and update one or two known ids.",
 ["gem/status_equipment_handlers.go","gem/status_equipment_messages.go","gem/equipment_constants.go","gem/status_variables.go"],[("resolve* and applyEquipmentConstantUpdates","gem/status_equipment_handlers.go")],["S1F4, S1F12, S2F14, S2F16, S2F30 on the wire"])
prop("C20","Remote commands reach the handler as sent and their result reaches the host",
 "An S2F41 is given once to the remote command handler with its command and all parameters in order, and the S2F42 carries the handler's acknowledge code and parameter acknowledgements unchanged where they are valid, a non-zero code if the handler fails, and code 1 without calling it if the message is malformed; without a handler the command is refused. The host call returns exactly the code and parameter acknowledgements of the S2F42, or an error if there is none.",
 ["inputs","histories"],"all commands (text and numeric), parameter lists and value types, handler results and errors, malformed bodies",
 "Tests send one command with one parameter.",
 ["gem/remote_command.go","gem/handler.go"],[("parseRemoteCommand / buildS2F42 / parseRemoteCommandAck","gem/remote_command.go")],["handler arguments","S2F42 on the wire","SendRemoteCommand result"])
prop("C21","Process programs are stored, replaced and returned byte for byte",
 "An S7F3 accepted with code 0 makes its body the stored program of its PPID, replacing an earlier one, so that S7F5 and the local list return exactly it; an upload that is refused by the application, malformed or not storable is answered non-zero and changes nothing. S7F5 for a PPID without program is answered with a non-zero code and no body, and application callbacks get exactly the uploaded or requested PPID and body.",
 ["histories","inputs"],"all sequences of uploads and requests with numeric and text PPIDs (including equal digits), bodies of any length and malformed messages",
 "Tests upload and request one program.",
 ["gem/process_programs.go","gem/process_program_handlers.go"],[("processProgramStore; onS7F3 / onS7F5","gem/process_program_handlers.go")],["S7F4, S7F6 on the wire","ListProcessPrograms"])
prop("C22","Clock requests report the equipment time and set it only through the application",
 "S2F17 is answered with the equipment clock as 16 characters YYYYMMDDhhmmss00. S2F31 passes exactly the sent date and time to the application's handler and answers with its code; it is refused without calling it if the time is missing, not text, too short or not a valid date, and always if there is no handler.",
 ["inputs","configurations"],"all times and all malformed time strings (wrong month, day, hour, leap days, length, type)",
 "Clock synchronisation is not tested.",
 ["gem/clock.go","gem/clock_handlers.go"],[("FormatSEMITime / ParseSEMITime / HandleTimeSet","gem/clock.go")],["S2F18, S2F32 on the wire","handler argument"])
prop("C23","SML and messages correspond: prints parse back, valid SML means what it says",
 "The printed SML form of any message without variables parses without errors to a message with the same stream, function, wait bit, direction, name (of a form SML can express) and encoded bytes. Text generated by the SML grammar - any spacing, comments, letter case, number base and size notation - parses to exactly the items it denotes, and values out of range, wrong sizes, unknown types and unclosed items are reported as errors with no message returned.",
 ["inputs"],"all item trees and all texts of the SML grammar up to a size, and near-miss texts",
 "Tests list a few dozen texts; printing and parsing are not related to each other.",
 ["lib-secs2-hsms-go/pkg/parser/sml/lexer.go","lib-secs2-hsms-go/pkg/parser/sml/parser.go",AST+"ast.go"],[("lexer state functions and parser","lib-secs2-hsms-go/pkg/parser/sml/"),("String methods",AST)],["DataMessage.String","sml.Parse"])
prop("C24","Each firing runs exactly the registered event callbacks once, in order",
 "Firing an event calls each callback registered at that moment exactly once with the given data, in registration order, and no other; removing a callback removes one registration of that very callback. Callbacks may add, remove and fire callbacks of the same event without deadlock.",
 ["histories","schedules"],"all sequences and interleavings of add, remove and fire, including from inside callbacks",
 "There is no test of events.",
 ["common/events.go"],[("Event.AddCallback/RemoveCallback/Fire","common/events.go")],["callback invocations","Len"])
prop("C25","Generic codecs deliver packets whole, respect limits, never corrupt a stream",
 "Through any stack of the length-prefixed, buffered and JSON codecs, packets sent are received equal and in order however the stream is cut. A packet longer than the receive or send limit, or than its length field can express, is refused with the too-large error - when sending, without writing anything - and malformed input gives an error, never a crash.",
 ["inputs","configurations"],"all header widths, byte orders, limits, packet sizes around them, buffer sizes and segmentations",
 "Tests send two short packets through one configuration.",
 ["codec/fixlen.go","codec/bufio.go","codec/json.go","codec/byte.go"],[("fixlenCodec.Receive/Send","codec/fixlen.go"),("bufioCodec","codec/bufio.go")],["Codec.Send/Receive"])
prop("C26","Host calls return what the equipment holds; its events reach the host intact",
 "Between a host and an equipment handler, each host request (variables, constants, descriptions, report definition, links, enables, event reports, remote commands, programs, clock, alarms) returns exactly the equipment's data or code in request order, with the equipment changed as the request says. The request carries exactly the ids and values given, and only its own reply counts: after any other answer (another stream or function, SxF0, a reject) or none the call returns an error. Every alarm and event report the equipment sends is delivered to the host's callbacks exactly once and with the ids, texts and values sent.",
 ["histories","inputs"],"all sequences of host calls and equipment activity over a real connection, any ids and values",
 "Integration tests exercise each call at most once with one fixed value.",
 ["gem/status_equipment_client.go","gem/alarm_client.go","gem/status_equipment_messages.go","gem/collection_event_handlers.go","gem/remote_command.go"],[("Request*/Send* client calls and response parsers","gem/status_equipment_client.go, gem/alarm_client.go")],["host API results","host event callbacks"])
prop("C27","Message templates are filled with exactly the given values",
 "The variables of a message or item are exactly its unfilled placeholders in order; filling replaces each named placeholder by its value wherever it occurs, expands an ellipsis to the requested repetitions, leaves every other part and the original message unchanged and refuses a value the placeholder's format cannot hold; a message with unfilled placeholders has no encoded bytes while a completely filled one encodes as if built from the values; printed and parsed again at any point, a message has the same placeholders, with the same bounds, and behaves the same.",
 ["inputs"],"all item trees with placeholders and ellipses, all partial and complete assignments in any order",
 "Tests fill single nodes with fixed values.",
 [AST+"interface.go",AST+"list.go",AST+"ast.go",AST+"ascii.go",AST+"binary.go"],[("FillVariables / Variables",AST)],["FillVariables, Variables, ToBytes"])
prop("C28","Messages are read at exactly the asked position and never change",
 "Get returns the item at exactly the given path of list indices and GetAscii, GetByte, GetBoolean, GetInt and GetFloat the text or value there, whatever the message's shape and whether it was built or received; a path that leads nowhere, or to an item of another kind, is an error (an index past an item's values never yields a value). Messages are immutable: nothing done with the values, items or system bytes read from one changes its content or its encoding.",
 ["inputs","histories"],"all item trees, all paths inside and outside of them for every accessor, all changes of what accessors returned",
 "Handlers and host calls read all data through these accessors; tests use them on a few fixed messages, inside the range.",
 [AST+"ast.go",AST+"list.go",AST+"interface.go"],[("DataMessage.Get*, ListNode.Get, Values, SystemBytes",AST)],["Get, GetAscii, GetByte, GetBoolean, GetInt, GetFloat, Values, SystemBytes, ToBytes"])
prop("C29","The message log holds exactly the messages exchanged, as configured",
 "With message logging enabled, each data message sent or received has exactly one entry, in order per direction, in the configured writer or file, with the message's own stream, function, session, wait bit and system bytes and, by the mode, its text as SML that reads back as the same message, its exact frame bytes in hexadecimal, or both; control messages have entries when they are included and their type, in whatever case and blanks it was written, is not excluded. Entries of concurrent messages do not mix and the writer is never called twice at once. Disabled, nothing is written, and a new configuration holds from the next message on.",
 ["histories","inputs","schedules"],"all traffic of an endpoint in both directions, all configurations and changes of them at runtime, concurrent senders",
 "No test looks at the log's content.",
 [PR,"hsms/connection.go","hsms/protocol_s9_helpers.go","gem/config.go"],[("logDataMessage, logControlMessage, ConfigureLogging",PR),("LoggingOptions.toConfig","gem/config.go")],["bytes that arrive in the configured writer or file","wire traffic"])
prop("C30","The link is tested while it is up, and only then",
 "While an endpoint is connected (an active one: from the moment its select was accepted), it sends a linktest.req at once and then one per linktest interval, selected or not, each with the header E37 prescribes and system bytes that no other open request of it carries; there are never two unanswered ones: the next comes only after the response to the last, or T6. Only a linktest.rsp with the test's system bytes is its answer: no other response, data message or test of the peer's, and answers to tests never end calls of the application. With the interval 0 there are no tests; tests end with their connection, and each later connection has its own, with the interval then configured. As long as tests are answered in time, the endpoint does not close the connection.",
 ["histories","schedules","time"],"all histories of connections, selects, deselects, losses, Disable and Enable; answers on time, late, wrong, doubled or missing; calls at the same time; the peer's own tests",
 "Tests of the repository switch linktests off or never wait an interval.",
 [PR,"hsms/connection.go"],[("startLinktestTimer, stopLinktestTimer, newLinktestStop",PR),("sendLinktestReq, sendLinkTestRsp","hsms/connection.go")],["linktest messages on the wire and their times","SendAndWait results"])
os.makedirs('/verif',exist_ok=True)
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
