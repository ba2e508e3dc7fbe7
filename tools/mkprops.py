#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list itself lives here, one entry per property)."""
import json,os
P=[]
AST='lib-secs2-hsms-go/pkg/ast/'
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    assert len(title)<=80,(id,len(title)); 
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],hook_needed=None)))
p('C01','Encoding and decoding a message are inverse and follow the SECS-II/HSMS layout',
 'For every message that can be built (any item format, any number of values, any nesting, any stream, function, wait bit, session id and system bytes; every control message type), the bytes produced are exactly the SEMI E5/E37 encoding of it, with minimal length bytes. Decoding those bytes yields a message with the same type, header fields, item formats and values, and encoding that again yields the same bytes. This includes items of more than 255 and more than 65535 bytes and lists with as many elements.',
 ['inputs'],'all item trees (14 formats x sizes x values x nesting) and all header values',
 'The tests encode and decode a handful of short hand-written items; length-byte boundaries, extreme values and their combinations form an unbounded space.',
 [AST+'*.go','lib-secs2-hsms-go/pkg/parser/hsms/parser.go'],
 [('item header and value encoding',AST+'interface.go and the ToBytes methods'),('header encoding',AST+'hsms.go'),('decoder','lib-secs2-hsms-go/pkg/parser/hsms/parser.go')],
 ['bytes from ToBytes','message from hsms.Parse'])
p('C02','Decoding arbitrary bytes is total, strict and bounded',
 'For every byte string the decoder returns (it neither panics nor hangs nor allocates memory out of proportion to the input), and it accepts exactly the byte strings that are one complete HSMS message: the length matches, the header is a data or a known control message, and a data message body is empty or one well-formed SECS-II item filling it. A decoded message has exactly the values a reference decoder reads from the bytes; everything else is reported as not decodable.',
 ['inputs'],'all byte strings, in particular truncations and mutations of valid messages',
 'Tests contain a few malformed inputs; robustness against arbitrary bytes is a statement about all of them.',
 ['lib-secs2-hsms-go/pkg/parser/hsms/parser.go'],
 [('length and format checks','lib-secs2-hsms-go/pkg/parser/hsms/parser.go')],['result of hsms.Parse'])
p('C03','Printing a message as SML and parsing it back preserves the message',
 'For every message that can be built, the SML text of the message is accepted by the SML parser without errors and yields exactly one message with the same name, stream, function, wait bit, direction, item formats, values, variables and ellipses. The text is stable: printing the parsed message gives the same text.',
 ['inputs'],'all message names, headers and item trees, including variables, ellipses, quotes, control characters and extreme numbers',
 'The tests print and parse a few fixed samples and never compare the two directions over generated values.',
 [AST+'*.go','lib-secs2-hsms-go/pkg/parser/sml/*.go'],
 [('printers',AST+'String methods'),('lexer and parser','lib-secs2-hsms-go/pkg/parser/sml/lexer.go, parser.go')],['String() text','sml.Parse result'])
p('C04','The SML parser is total and reports every malformed message',
 'For every text the SML parser returns without panicking, hanging or using memory out of proportion to the text. Well-formed text, however it is laid out (white space, line breaks, comments, letter case of keywords, optional size declarations), yields the messages it describes and no error; text with a value that is out of range, of the wrong kind, of the wrong count or not terminated yields at least one error and never a message with a silently changed value.',
 ['inputs'],'all texts; layouts of generated messages; single mutations that make them ill-formed',
 'Tests enumerate fixed inputs; total behaviour and insensitivity to layout quantify over all of them.',
 ['lib-secs2-hsms-go/pkg/parser/sml/*.go'],
 [('lexer','lib-secs2-hsms-go/pkg/parser/sml/lexer.go'),('parser','lib-secs2-hsms-go/pkg/parser/sml/parser.go')],['messages, errors and warnings of sml.Parse'])
p('C05','Filling variables is substitution and leaves the original untouched',
 'Filling the variables of an item or message with values gives the same item or message as building it with those values in place; an ellipsis filled with a count repeats the preceding elements of its list that many times with indexed variable names, and filling in one step or in several gives the same result. The list of variables always names exactly the variables and ellipses that are still open, in order of appearance, a string outside the declared length limits of its variable is refused, and the original item or message, as well as values passed in or handed out, never change.',
 ['inputs','histories'],'all item trees with variables and ellipses, all assignments, all ways to split an assignment in steps',
 'Tests fill fixed templates once; confluence and immutability are statements over all templates, assignments and orders.',
 [AST+'*.go'],[('FillVariables and Variables',AST+'*.go')],['ToBytes/String/Variables before and after'])
p('C06','Item constructors accept exactly the values the item can represent',
 'Building an integer, unsigned integer, float, boolean, binary or ASCII item from values of any supported Go type either yields an item that holds exactly those values or refuses with a panic. It refuses if and only if a value lies outside the range of the item; no integer is ever wrapped, truncated or changed, and a float is at most rounded to the nearest value of its format. Variable names, ellipses, length limits and message headers are refused exactly when the data model does not allow them, and the typed accessors of an item yield its values or an error, never a panic or another value.',
 ['inputs'],'all item formats and byte sizes, all Go value types, values at and around every boundary',
 'Tests probe a few boundaries with one Go type each.',
 [AST+'*.go'],[('range checks of the constructors',AST+'int.go, uint.go, float.go, binary.go, ascii.go, boolean.go')],['Values(), ToBytes() or panic'])
p('C07','Codecs deliver every sent message intact, in order, however bytes arrive',
 'For every sequence of messages and every way the transport splits or joins the byte stream, the receiving codec (HSMS, buffered, fixed-length-prefix, JSON, each alone or buffered) delivers the same messages in the same order and then reports the end of the stream; a delivered message never changes when later ones arrive. A truncated stream, or a packet that violates the configured size limits, is reported as an error and never delivered as a message. A value that a codec cannot send is refused with an error and nothing of it is sent, and closing a codec closes the transport below it.',
 ['inputs','schedules'],'all message sequences x all segmentations of the stream x all truncation points and codec configurations',
 'The tests send a few whole messages over a loopback connection, where segmentation is whatever the kernel does.',
 ['codec/*.go'],[('length-prefixed reading and buffering','codec/secs2.go, codec/fixlen.go, codec/bufio.go, codec/json.go')],['Receive results'])
p('C08','Sessions, channels and managers agree on which sessions are open',
 'After any sequence of operations, concurrent or not, a channel finds under each key exactly the session last put under it, unless that has been removed or closed since, and a manager finds exactly its open sessions. Every close callback that is registered and not removed runs exactly once, whether it was added before, during or after the close, and no combination of these operations deadlocks. A session sends the messages it accepts once, in the order of each caller, until it is closed; a server hands every connection it accepts to its handler as one session, survives temporary errors, and a connection for which no session can be made is closed.',
 ['histories','schedules'],'all operation sequences on sessions, channels and managers, including concurrent close, put, remove and callbacks',
 'Tests open and close sessions in one fixed order.',
 ['session.go','channel.go','manager.go','server.go'],[('close callbacks','session.go'),('channel membership','channel.go'),('manager maps','manager.go')],['Channel.Get/Len/Fetch, Manager.GetSession, callbacks'])
p('C09','The blocking queue is FIFO and never loses an item or a wake-up',
 'Every value put in the queue is taken exactly once, values of one producer in the order they were put, for any number of concurrent producers and consumers. A waiting consumer obtains a value that is put before its timeout ends, and a consumer that times out has waited the timeout and took nothing.',
 ['schedules','histories'],'all interleavings of put and get with and without timeouts',
 'The queue has no concurrent tests; lost wake-ups need particular interleavings.',
 ['utils/queue.go'],[('Put/Get notification','utils/queue.go')],['Get results'])
p('C10','Every reply reaches the caller that sent the request it answers',
 'With any number of concurrent requests, each waiting caller gets the reply that carries the system bytes of its own request, in whatever order replies arrive, and no other message: requests in progress use different system bytes, primary messages of the other side are handled as such even when their system bytes coincide, and surplus replies reach no caller.',
 ['schedules','inputs'],'all numbers of concurrent requests, all reply orders, interleaved primaries and colliding system bytes, both connection roles',
 'Tests send one request at a time to a well-behaved peer.',
 ['hsms/protocol.go'],[('transaction table keyed by system bytes','hsms/protocol.go'),('system byte counter','hsms/protocol.go')],['replies returned to callers and frames on the wire'])
p('C11','A request without a reply fails after T3 and is reported with S9F9',
 'A request that gets no reply fails with the T3 timeout error, not before T3 has passed and soon after, without affecting other requests. Exactly one S9F9 is then sent which carries the 10 header bytes of the unanswered request; requests answered in time cause none. The same holds for the requests of the GEM host interface, which fail at once and without an S9F9 when the other side aborts the transaction with function 0.',
 ['fault_sequences','schedules'],'all mixes of answered, late and unanswered requests with all headers',
 'One verification script drops one reply; header contents and mixes of outcomes are not tested.',
 ['hsms/protocol.go','hsms/protocol_s9_helpers.go'],[('T3 wait and S9F9','hsms/protocol.go, hsms/protocol_s9_helpers.go')],['error returned, S9F9 frames on the wire'])
p('C12','HSMS connection states and control messages follow SEMI E37',
 'For every sequence of control messages from the other side, the endpoint answers select, deselect and linktest requests with the matching response, session id and system bytes, refuses a select for another session id (an endpoint configured with session id 0 or 65535 adopts that of the other side) and closes, ends the connection on a separate request, and reports the connection state this implies. Data messages are handled only while selected; a connection that is not selected within T7 is closed. The endpoint itself tests a connection with linktest.req when it is made (a passive endpoint) or selected (an active one) and then at the configured interval, answered or not, and not at all when the interval is 0.',
 ['histories','configurations'],'all control message sequences in both roles, all session ids and system bytes',
 'The tests exercise the bare state machine, not the messages on the wire.',
 ['hsms/protocol.go','hsms/connection.go','hsms/connectionStateMachine.go'],[('control message handling','hsms/protocol.go handleHsmsRequests'),('connection state machine','hsms/connectionStateMachine.go')],['frames on the wire, CurrentState()'])
p('C13','Each primary message reaches its handler; unknown ones are answered S9F3/S9F5',
 'Each data message received while selected is passed, with the stream, function, session id, system bytes and item that were sent, exactly once and in order to the handler registered for its stream and function, or else to the default handler; a reply of the handler is sent with the session id of the endpoint and the system bytes of the request if the request asked for a reply, and otherwise nothing is sent. A primary message without a handler is answered with S9F3 when its stream is unknown and with S9F5 when only its function is, and stream 9 messages are never answered.',
 ['histories','inputs'],'all handler registrations and changes, all streams, functions, wait bits, bodies',
 'Tests register one or two handlers and look at a few stream/function pairs.',
 ['hsms/protocol.go','hsms/protocol_s9_helpers.go','hsms/error_messages.go'],[('handler lookup','hsms/protocol.go'),('S9F3/S9F5','hsms/protocol_s9_helpers.go')],['handler calls, frames on the wire'])
p('C14','Every received stream 9 message is reported to the application once',
 'Each stream 9 message received while selected is reported exactly once, with its function code, the matching description and its system bytes, whether or not it belongs to an open request, in both device roles. No other message is reported that way. A stream 9 message made by the library carries the code or header it was made for and the system bytes given.',
 ['inputs','histories'],'all stream 9 functions, bodies and system bytes interleaved with other traffic and open requests',
 'The tests call the callback helper directly with a few functions.',
 ['hsms/protocol.go','hsms/error_messages.go','gem/handler.go'],[('S9 callback','hsms/protocol.go'),('S9ErrorReceived event','gem/handler.go')],['callback and event payloads'])
p('C15','A misbehaving peer can neither crash an endpoint nor keep it from serving others',
 'Whatever bytes a peer sends, at whatever moment it stops or disconnects, and whatever message bodies it sends to any of the standard message handlers, the process does not crash, hang or use memory out of proportion to what was sent. Afterwards a well-behaved peer can connect, select and communicate as usual.',
 ['inputs','fault_sequences'],'all byte streams, structured GEM messages with arbitrary bodies, disconnects at any point, both device roles',
 'Tests use only well-behaved peers.',
 ['hsms/*.go','gem/*.go','codec/secs2.go'],[('receive loop','hsms/protocol.go'),('message handlers and parsers','gem/*.go')],['process exit, service to the next peer'])
p('C16','Endpoints can be disabled, enabled and disconnected at any time and recover',
 'After any sequence of enable, disable, connection loss and reconnection, an enabled endpoint ends up connected and usable again when the other side is willing (unless automatic reconnection is off or its attempts are used up; an active endpoint waits T5 before it reconnects, and after a failed attempt the backoff base, doubled with each failure up to its maximum), a disabled one is not connected, ends its connection with separate (active role) and does not reconnect, and the reported connection state agrees. Requests fail with the not-connected or not-selected error when there is no selected connection.',
 ['histories','fault_sequences','schedules'],'all sequences of enable, disable, drop, refuse and accept in both roles',
 'Tests check the backoff formula and setters only.',
 ['hsms/protocol.go','hsms/reconnection.go','hsms/connection.go'],[('connect thread','hsms/protocol.go startConnectThread'),('teardown','hsms/protocol.go')],['connections seen by the peer, CurrentState(), errors'])
p('C17','Communication is established by S1F13/S1F14 with COMMACK 0 and only then',
 'A GEM endpoint reports that it is communicating if and only if, on the current connection, an S1F13 was answered with COMMACK 0 in either direction; a denied request is retried after the configured wait, and a lost connection ends communication even if the peer reconnects at once. S1F13 and S1F1 are answered with the configured model name and software revision (empty list from a host), and requests made while not communicating fail with an error and send nothing.',
 ['histories','configurations'],'all orders of S1F13/S1F14 from either side, accept/deny/no answer, drops, both roles',
 'Tests establish communication once between two well-behaved endpoints.',
 ['gem/handler.go','gem/communication_state.go'],[('communication state machine','gem/communication_state.go, gem/handler.go')],['State(), frames on the wire'])
p('C18','The control state follows the GEM control state model',
 'For every sequence of operator requests, host requests S1F15/S1F17, communication changes and answers to the equipment\'s S1F1, the control state and online mode are those of the GEM control model, invalid transitions are refused with the invalid-transition error and change nothing, and each change is reported once with the previous and the new state. S1F15 and S1F17 are answered with the acknowledge code that matches the state they found.',
 ['histories','configurations'],'all sequences of transitions from all initial states and online modes',
 'Tests walk a few fixed paths of the state machine.',
 ['gem/control_state_machine.go','gem/handler.go'],[('state machine','gem/control_state_machine.go'),('S1F15/S1F17 handlers','gem/handler.go')],['ControlState(), events, acknowledge codes'])
p('C19','Reports, links and event enabling behave as defined and events carry them',
 'For every sequence of S2F33, S2F35 and S2F37, the acknowledge code and the resulting definitions are those of the message\'s rules (nothing changes when a message is refused; deleting a report also unlinks it). Triggering an event sends one S6F11 with exactly the linked reports in order, each with the values its variables have at that moment in order, if the event is linked and enabled at that moment, and nothing otherwise, and events triggered one after the other are sent in that order; S6F15 returns the same content and a host receiving S6F11 reports the same content to the application.',
 ['histories','inputs'],'all sequences of define, delete, link, unlink, enable, disable, trigger and value changes',
 'Tests run one define-link-trigger sequence.',
 ['gem/collection_event_handlers.go','gem/collection_events.go'],[('report and link tables','gem/collection_event_handlers.go')],['acknowledge codes, S6F11/S6F16 contents, EventReportReceived'])
p('C20','Status variables and equipment constants are reported and set faithfully',
 'Requests for status variables or equipment constants return, in request order, the current value or description of each known identifier and an empty one for unknown identifiers, and for an empty request all of them in registration order; an identifier is the same whatever numeric format it is sent in. Setting constants changes all of them when every identifier exists and every value passes validation and otherwise changes none and returns the code of the reason; the host interface returns what the equipment sent.',
 ['histories','inputs'],'all registrations, identifier formats, values of any item type, update lists, providers and validators that fail',
 'Tests query a few variables with one value type.',
 ['gem/status_equipment_handlers.go','gem/status_equipment_client.go','gem/status_variables.go','gem/equipment_constants.go','gem/id_utils.go'],[('lookup by identifier','gem/id_utils.go'),('handlers','gem/status_equipment_handlers.go')],['S1F4/S1F12/S2F14/S2F16/S2F30 and the values returned to the host'])
p('C21','Alarms are reported, enabled and listed exactly as registered and set',
 'Raising or clearing a registered alarm while communicating sends exactly one S5F1 with its identifier, text and state if the alarm is enabled and none otherwise, and the host application is told the same. S5F3 enables or disables exactly the listed alarms or, when one is unknown, none with an error code; the alarm lists contain every (enabled) alarm once, sorted by identifier, with its text, set and enabled state.',
 ['histories','inputs'],'all sequences of register, raise, clear, enable, disable and list with all identifiers and texts',
 'No existing test performs S5F3, S5F5 or S5F7 on the wire.',
 ['gem/alarm.go','gem/alarm_handlers.go','gem/alarm_client.go'],[('alarm table','gem/alarm.go'),('handlers','gem/alarm_handlers.go')],['S5F1/S5F4/S5F6/S5F8, AlarmReceived, host results'])
p('C22','Process programs are stored and returned unchanged',
 'A process program accepted by the equipment, registered locally or uploaded by the host, is returned unchanged for its identifier until it is replaced, other identifiers are unaffected, and unknown identifiers yield a nonzero acknowledge and no body. An upload is stored if and only if it was acknowledged with 0, and application handlers see the transferred identifier and body and determine the acknowledge code and the body returned.',
 ['histories','inputs'],'all sequences of register, upload, request and list with all identifiers and bodies',
 'Tests upload one short program.',
 ['gem/process_program_handlers.go','gem/process_programs.go','gem/status_equipment_client.go'],[('process program store','gem/process_programs.go')],['S7F4/S7F6, host results, stored programs'])
p('C23','Remote commands reach the application and results the host, unchanged',
 'A remote command with any parameters is delivered exactly once to the equipment application with the same command, parameter names and values in order, and the acknowledge code and parameter acknowledges it returns reach the host unchanged (out-of-range codes as the documented substitute). Without an application handler, on a handler error or on a malformed command the host gets the corresponding nonzero acknowledge code.',
 ['inputs'],'all commands, parameter lists, Go value types, results and errors',
 'Tests send one or two commands.',
 ['gem/remote_command.go','gem/handler.go'],[('encoding and parsing','gem/remote_command.go'),('S2F41 handler','gem/handler.go')],['handler arguments, host results'])
p('C24','The equipment clock is read and set faithfully in the 16-digit format',
 'Reading the clock returns the equipment time to the second as 16 digits, and setting it passes exactly the transmitted time to the application, whose acknowledge code is returned to the host. Malformed times, and requests when no application handler is set or it fails, are refused with a nonzero code and change nothing.',
 ['inputs'],'all times, malformed texts and item formats, acknowledge codes',
 'Tests never send S2F17 or S2F31 over a connection.',
 ['gem/clock.go','gem/clock_handlers.go','gem/status_equipment_client.go'],[('formatting and parsing','gem/clock.go'),('handlers','gem/clock_handlers.go')],['S2F18/S2F32, handler arguments'])
p('C25','Traffic logging shows exactly the messages exchanged, and is silent when off',
 'With logging on, each data message sent or received is logged exactly once, with its direction, stream, function, session id, wait bit and system bytes, and its text and/or its exact bytes as the mode says; control messages are logged if and only if asked for and not excluded. With logging off nothing is written to the log, and in no case does an endpoint write to standard output. A log file holds all of it, backups included when it is rotated, and the loggers of the library write each entry they are given once, with its level, message, keys and values, where they were told to.',
 ['inputs','configurations'],'all messages, logging modes, control message options and exclusion lists',
 'Tests do not compare the log with the traffic.',
 ['hsms/protocol.go','gem/config.go','gem/logger_zap.go','common/logger.go'],[('log writers','hsms/protocol.go logDataMessage, logControlMessage')],['log writer contents, standard output'])
p('C26','Events call exactly the registered callbacks, once each, in order',
 'Firing an event calls every callback that is registered at that moment exactly once, in order of registration and with the given data; a removed callback is not called again and other callbacks are unaffected, including closures that share code. Callbacks may add, remove or fire on the same event, and concurrent use neither loses callbacks nor deadlocks.',
 ['histories','schedules'],'all sequences of add, remove and fire, nested and concurrent',
 'The event type has no tests.',
 ['common/events.go'],[('callback list','common/events.go')],['callback invocations'])
p('C27','Endpoints, messages and registries are safe for concurrent use',
 'Any number of goroutines may use an endpoint (HSMS or GEM, in either role), a link session, a server, an event, a queue or a message at the same time: sending requests, raising events and alarms, reading and changing values, registering definitions, handlers and callbacks, querying states, while connections come and go (timeouts, loggers and codecs are configured before). No memory is accessed by two goroutines without synchronization, no call panics or blocks for ever, and every result is one that the operations permit in some order: no event, alarm, reply or change is lost, duplicated or mixed up with another, and what only one goroutine changes is as that goroutine left it.',
 ['schedules','histories'],'all combinations of up to eight goroutines\' operations on both ends, with connections lost and made again',
 'The tests are almost all single-threaded and run without the race detector; a data race shows only with the right pair of operations at the same time.',
 ['hsms/*.go','gem/*.go','session.go','server.go','manager.go','common/events.go','utils/*.go',AST+'*.go'],
 [('locks of the endpoint','hsms/protocol.go, hsms/connection.go'),('locks of the registries','gem/*.go'),('immutable items',AST+'*.go')],['race detector reports, results of every call, messages on the wire'])
p('C28','Code the library calls may itself use the library',
 'Value providers, updaters, validators, message handlers, command, clock and process program handlers, event callbacks and loggers given to the library may themselves read and change values and states, register definitions, handlers and callbacks, raise events and alarms and set modes of the endpoint that calls them. Neither they nor any other user of the endpoint is blocked for ever, whatever other goroutines do at that time, the operations take effect, and the endpoint goes on serving its peer.',
 ['histories','schedules'],'all pairs of a place where user code is called and an operation it performs there, with concurrent writers',
 'The tests\' callbacks return constants or record their arguments; none calls back into the library.',
 ['gem/*.go','hsms/protocol.go','common/events.go'],
 [('calls of user code','gem/status_variables.go, gem/equipment_constants.go, gem/handler.go, gem/remote_command.go, gem/clock.go'),('dispatch to handlers','hsms/protocol.go')],['calls that return, results of the operations, service to the peer'])
p('C29','What an endpoint cannot do is refused and has no effect',
 'An operation that an endpoint cannot perform is refused with an error, and with the not-supported error if it belongs to the other kind of device: operations of the host on equipment and of equipment on the host, identifiers that are negative, not ASCII or of another type, values and texts that cannot be sent, messages that are nil or have open variables, definitions that already exist and objects that do not. No refused operation panics or blocks, sends anything, or changes anything that the endpoint reports, stores or logs, also when only one of several arguments is invalid.',
 ['inputs','histories'],'all operations with all invalid arguments at any position among valid ones, mixed with permitted operations, in both device roles and connection roles',
 'The tests call the operations with valid arguments and do not look at what a refused call leaves behind.',
 ['gem/*.go','hsms/protocol.go'],
 [('role and argument checks','gem/status_equipment_client.go, gem/alarm.go, gem/collection_event_handlers.go, gem/id_utils.go'),('message checks','hsms/protocol.go')],['errors returned, frames on the wire, answers of the endpoint before and after'])
p('C30','Nothing is left behind',
 'After an endpoint is disabled, a server stopped or a session closed, whatever happened before, every goroutine it started ends within its configured timeouts, its connections and its listening socket are closed, and its port can be used again; sessions that are closed are held by no manager, server or channel, and channels that were emptied by no session. While an endpoint runs, the goroutines and the memory it uses depend on the connection, the requests that are open and the objects defined, not on how many messages, connections, timed-out requests and waits, deleted definitions or restarts there have been before.',
 ['histories','schedules','faults'],'all histories of connections that are refused, selected, lost, reset, separated or doubled, of requests answered, doubly, late or not at all, of GEM definitions made and deleted, of Disable and Enable, for HSMS and GEM endpoints in both connection roles, and for servers, sessions and channels',
 'The tests run for seconds, disable an endpoint at most once in one state and never look at what remains.',
 ['hsms/*.go','gem/handler.go','server.go','session.go','manager.go','channel.go','api.go'],
 [('transactions, timers, connection thread','hsms/protocol.go'),('monitoring and waiters','gem/handler.go'),('sessions and their callbacks','session.go, channel.go, manager.go')],['goroutines, sockets and reachable memory of the process, ports'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
