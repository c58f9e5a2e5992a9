#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements, anchors and quantifiers stay in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                          "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
MSG="src/message.rs"; DD="src/data_dictionary.rs"; NET="src/network.rs"; ACC="src/io/acceptor.rs"
SID="src/session/session_id.rs"; SET="src/session/session_settings.rs"; SCH="src/session/session_schedule.rs"; SAS="src/session/session_and_state.rs"
REEXP="main.rs re-exports the crate-internal API under cfg(fixrs_verif)"

p("C01","BodyLength and CheckSum of a serialised message are correct",
  "For every message, once the body length and then the checksum have been set, the serialised bytes carry a BodyLength equal to the number of bytes after the BodyLength field up to the start of the CheckSum field, and a three-digit CheckSum equal to the sum of all bytes before the CheckSum field modulo 256. This holds for messages built field by field, for messages with repeating groups and trailer fields, for multi-byte text, and for parsed messages whose totals are set again.",
  ["inputs","histories"],"every message content (any header, body, group and trailer fields, any values) and every order in which it was built",
  "No test computes a body length or a checksum: nothing in the suite calls set_body_len or set_checksum.",
  [MSG],[("calc_checksum / calc_body_len over the same traversal that serialises","src/message.rs Message")],observe=["Message::to_string after set_body_len, set_checksum"],hook=REEXP)
p("C02","Serialised messages are framed in FIX order",
  "The serialised form of any message is a sequence of tag=value fields each terminated by SOH, beginning with BeginString, BodyLength and MsgType in that order, with all header fields before all body fields before all trailer fields, and with CheckSum, when present, as the very last field. Every field that was set, including every field of every repeating-group instance, appears exactly once.",
  ["inputs","histories"],"every message, built or parsed, with any set of fields in any insertion order and any process-level hash seed",
  "Field storage is hash ordered, so the order differs from run to run; no test serialises a message at all.",
  [MSG],[("header field order 8,9,35; trailer order ending in 10","src/message.rs Message::new"),("FieldMapIter","src/message.rs")],observe=["Message::to_string"],hook=REEXP)
p("C03","Every well-formed message is accepted and read back exactly",
  "Every message that conforms to the data dictionary (header first, declared group counts equal to the instances present, each instance starting with its delimiter and in dictionary order, groups nested to any depth, in header or body) is accepted. Afterwards each header and body field is readable with exactly the value sent from its own section, trailer fields likewise, and every group has the declared number of instances, each holding exactly the fields sent in that instance and nothing else.",
  ["inputs","configurations"],"every dictionary and every message conforming to it",
  "Four hand-written messages over one dictionary are parsed; depth, counts, adjacency of groups, empty groups and other dictionaries are never varied.",
  [MSG,DD],[("parse_header/parse_body/parse_trailer/parse_group","src/message.rs")],observe=["Message::from_str, get_field, get_group, Group index"],hook=REEXP)
p("C04","No field of an accepted message is lost, repeated or altered",
  "Whenever the parser accepts an input, the fields held by the resulting message (header, body, trailer and all group instances together) are exactly the tag=value pairs of the input, each as often as it occurs there. Inputs that cannot be represented without dropping or merging a field, such as one repeating a tag within the same section or group instance, are rejected instead of being accepted with data missing.",
  ["inputs"],"every input string, well-formed or not, that the parser accepts",
  "The tests look up a few expected fields and never compare the whole message with the whole input, nor parse inputs with repeated or unexpected tags.",
  [MSG],[("FieldMap insertion in parse_*","src/message.rs"),("tag_appear_more_than_once rejection","src/message.rs")],observe=["Message::iter of header/body/trailer against the input"],hook=REEXP)
p("C05","Malformed messages are rejected with the reason that applies",
  "A message with exactly one structural fault is rejected with the matching session reject reason: a tag that is not a plain decimal number without sign or leading zeros, or a missing '=', as invalid tag; empty value as tag without value; wrong leading fields, a header field after the header or a non-trailer field in the trailer as tag out of order; a non-numeric group count as incorrect data format; a group count that differs from the instances present as incorrect NumInGroup; an instance not starting with its delimiter as required tag missing; group members (including nested group counts) out of dictionary order as repeating group out of order; a repeated tag as tag appearing more than once. It is never accepted.",
  ["inputs","configurations"],"every well-formed message and every position at which one of these faults can be introduced",
  "No test feeds a malformed message to the parser.",
  [MSG,"src/quickfix_errors.rs"],[("early returns of parse_*","src/message.rs")],observe=["Message::from_str error text"],hook=REEXP)
p("C06","Untrusted bytes never crash the parser or exhaust memory",
  "For any input text and any dictionary, parsing a message and extracting session identities from it terminate without panicking, and the memory used is bounded in proportion to the input size (a few bytes cannot make the parser allocate gigabytes).",
  ["inputs"],"every string, including truncated, garbled, empty and adversarial ones (huge group counts, missing delimiters, deep nesting)",
  "Only four valid messages are ever parsed.",
  [MSG],[("length checks before indexing","src/message.rs parse_header, extract_field_value"),("group count bounded by remaining fields","src/message.rs parse_group")],observe=["panic hook, counting allocator around Message::from_str / get_session_id / get_reverse_session_id"],hook=REEXP)
p("C07","Parse and serialise are inverse on accepted messages",
  "If an input is accepted under a dictionary, the serialised form of the resulting message is accepted under the same dictionary and yields a message with the same fields in the same sections and group instances, in the same instance order. In particular group instances are serialised directly after their count field with their delimiter first and members in dictionary order.",
  ["inputs","configurations"],"every dictionary and every accepted message",
  "No test serialises a parsed message.",
  [MSG],[("FieldMap iteration with field_order","src/message.rs"),("parse_group set_field_order","src/message.rs")],observe=["Message::from_str . to_string . from_str"],hook=REEXP)
p("C08","Messages with repeating groups built through the API are valid FIX",
  "For any message built through the API with repeating groups, nested or not and however many instances, the serialised count field is immediately followed by exactly that many instances (when it was set with their number, as set_group does), each starting with the delimiter given for the group. Setting a group again replaces the earlier one, and a message whose instances were given the dictionary's field order parses back under that dictionary to the same groups, instances and values.",
  ["inputs","histories"],"every sequence of API calls building a message with groups",
  "No test builds a group through the API; hash ordering makes the outcome differ from run to run.",
  [MSG],[("FieldMap::set_group","src/message.rs")],observe=["Message::set_group/set_field, to_string, from_str"],hook=REEXP)
p("C09","Field access is faithful to the last value set",
  "Reading a field as text returns exactly the value last set for that tag in that section or group instance; reading it as another type returns that value parsed as the type, or an error if it does not parse; reading a tag never set there is an error. Setting one field never changes another field, section or group instance, and cloning a message yields an independent copy.",
  ["histories","inputs"],"every sequence of set, get, group and clone operations over any tags and values",
  "The tests read a handful of fields immediately after one parse.",
  [MSG],[("FieldMap fields/group maps","src/message.rs")],observe=["FieldMap/Message API against a reference map"],hook=REEXP)
p("C10","Session identity is extracted from raw messages correctly",
  "For every raw message, the identity extracted has the begin string, sender and target company, sub and location ids equal to the values of tags 8, 49/50/142 and 56/57/143 of its header, absent or empty ones counting as absent, and the reverse identity is the same with sender and target exchanged. Only whole fields count: a tag occurring inside a value or as the tail of a longer tag never contributes.",
  ["inputs"],"every raw message: any field order after the leading fields, any subset of identity fields, any values in other fields",
  "No test calls the identity extraction.",
  [MSG,SID],[("extract_field_value","src/message.rs"),("SessionIdBuilder::build","src/session/session_id.rs")],observe=["Message::get_session_id / get_reverse_session_id"],hook=REEXP)
p("C11","Session identities compare, hash and print consistently",
  "Two session identities are equal exactly when all their components are equal, an empty sub or location id counting as absent; equal identities hash alike and print alike, so that an identity built from a configuration section, by the builder, or from a message of that session finds the same entry in any map. The printed form is begin:sender[/sub][/location]->target[/sub][/location].",
  ["inputs","histories"],"every combination of components and every way of constructing the identity",
  "No test compares, hashes or prints a session identity.",
  [SID],[("Hash/Eq/Display of SessionId, set_session_id","src/session/session_id.rs")],observe=["==, Hash, HashMap lookup, Display"],hook=REEXP)
p("C12","Dictionary answers match the XML for every message and group",
  "For every valid dictionary XML, the loaded dictionary reports for each message, the header and the trailer exactly the fields declared there directly, through components (nested to any depth) and as group counts, and as required exactly those whose own declaration is marked required and whose immediately enclosing component or group reference, if any, is marked required too. Each group, at every nesting level, is reported with its declared members in document order and with its first member as delimiter.",
  ["configurations","inputs"],"every valid dictionary file, including the shipped FIX 4.3 one",
  "Tests use about fifteen hand-written snippets and for the shipped file only check directly declared fields; component-derived fields and groups of the shipped file and other nestings are not covered.",
  [DD,"resources/FIX43.xml"],[("add_xml_message/add_xml_component/add_xml_group","src/data_dictionary.rs")],observe=["get_msg_fields, get_msg_required_field, is_msg_group, get_msg_group, get_ordered_fields, delimiter"],hook=REEXP)
p("C13","Dictionary field table matches the XML",
  "For every valid dictionary XML, each declared field number reports the declared type (unrecognised type names as unknown) and exactly the declared set of allowed values (none if none are declared), and numbers not declared report nothing. Header and trailer membership queries answer exactly as declared, at every query after loading and after cloning.",
  ["configurations","inputs"],"every valid dictionary file and every tag number",
  "Tests check the table only for the shipped file and only for tags that exist.",
  [DD],[("add_fields_and_values, FixType::from_str","src/data_dictionary.rs")],observe=["get_field_type, get_field_values, is_header_field, is_trailer_field"],hook=REEXP)
p("C14","Defective dictionaries are refused with an error",
  "A dictionary file that has a defect in its field, message, header, trailer or used component definitions (not XML, missing section, missing or empty mandatory attribute, unparsable field number, duplicate field number or name, duplicate allowed value, duplicate message name or type, a field repeated in one message or group, a reference to an undeclared field or component, a component that contains itself, an unknown element inside a message, group or component) is refused with an error describing that kind of defect. It is never silently loaded and loading never panics.",
  ["configurations","inputs"],"every valid dictionary and every place at which one such defect can be introduced",
  "About ten fixed snippets are tested; defects inside components, groups, header or trailer and undeclared components are not.",
  [DD,"src/quickfix_errors.rs"],[("XmlError returns of the loader","src/data_dictionary.rs")],observe=["DataDictionary::from_str error variant"],hook=REEXP)
p("C15","Configuration lookups follow session-over-default precedence",
  "For every well-formed configuration, exactly the declared sessions exist, each identified by its own values completed from the default section, and for every session and setting a lookup returns the session's own value if it has one, otherwise the default section's, otherwise nothing; lookups restricted to one section never see the other. Values are the text after the first '=' without surrounding blanks and quotes, whatever the layout and order of lines and sections after the default one, and typed lookups parse that text or report an error.",
  ["configurations","inputs"],"every configuration text, set of sessions and setting",
  "The tests of precedence have empty bodies.",
  [SET,SID],[("Properties::from_str, parse_table, get_*config","src/session/session_settings.rs")],observe=["Properties API"],hook=REEXP)
p("C16","Defective configurations are refused at load",
  "A configuration is refused at load if the default section is missing, repeated or not first, the connection type is missing or invalid, or any session lacks (in its own and the default section) a supported begin string, a company id, or the port (acceptor) or host and port (initiator) it needs, has a port that is not a 16-bit number, or has the same identity as another session. Conversely a configuration with none of these defects loads.",
  ["configurations","inputs"],"every configuration and every single omission or corruption",
  "Two fixed defective configurations are tested.",
  [SET],[("Properties::from_str, Properties::check","src/session/session_settings.rs")],observe=["Properties::from_str panics (refuses) or returns"],hook=REEXP)
p("C17","Daily session window is honoured in the session's time zone",
  "For a schedule with start and end time and no days, the session is open at an instant exactly when the wall-clock time of that instant in the configured time zone lies between start and end inclusive, where an end before the start means the window runs over midnight. A non-stop schedule is always open.",
  ["inputs","configurations"],"every instant, time zone (with its historical and daylight-saving offsets), start and end time",
  "The schedule tests never call the schedule, depend on the time of day, and are excluded from the stable suite.",
  [SCH],[("SessionSchedule::is_session_time","src/session/session_schedule.rs")],observe=["is_session_time under a virtual clock (clock_gettime interposed in the harness)"],hook=REEXP)
p("C18","Weekly session window is honoured in the session's time zone",
  "For a schedule with start day and time and end day and time, the session is open at an instant exactly when the local weekday and time in the configured zone lie in the weekly interval from start to end inclusive, wrapping over the end of the week when end comes before start, including an interval that starts and ends on the same weekday.",
  ["inputs","configurations"],"every instant, time zone, pair of weekdays and pair of times",
  "No test exercises a weekly schedule.",
  [SCH],[("SessionSchedule::is_session_time","src/session/session_schedule.rs")],observe=["is_session_time under a virtual clock"],hook=REEXP)
p("C19","Schedules are created from configuration faithfully",
  "A schedule created for a session behaves as one with the start and end time, days and time zone found by session-over-default lookup (UTC when no zone is given); with neither start nor end time it is a non-stop schedule. Incomplete combinations (one time without the other, one day without the other, days without times) and unparsable values are refused at creation, and once created a schedule answers at every instant, including those next to daylight-saving changes, without failing.",
  ["configurations","inputs"],"every combination of present and absent schedule settings, and every instant",
  "No test creates a schedule from settings.",
  [SCH,SET],[("SessionSchedule::create_schedule","src/session/session_schedule.rs")],observe=["create_schedule then is_session_time under a virtual clock"],hook=REEXP)
p("C20","SendingTime is the current UTC time in FIX format",
  "Setting the sending time stores in header tag 52 the current UTC instant as YYYYMMDD-HH:MM:SS.sss, truncated to the millisecond, at every instant, leaving all other fields unchanged.",
  ["inputs"],"every instant the clock can show",
  "No test sets or reads a sending time.",
  [MSG],[("Message::set_sending_time","src/message.rs")],observe=["Message::set_sending_time under a virtual clock"],hook=REEXP)
p("C21","Inbound messages are delivered exactly once, in order, intact",
  "Every well-formed message a peer sends for a configured session is delivered to the application exactly once, under the right session identity, with exactly the content sent, and in the order sent on that connection. This holds however the bytes are split over TCP segments and however many messages share one, with many connections active at once, and when the application is slower than the peers, and with several engines in one process.",
  ["schedules","inputs","histories"],"every interleaving of connections, every segmentation of the byte streams and every application speed",
  "The network and io modules have no tests.",
  [ACC,NET],[("read_message framing loop","src/io/acceptor.rs"),("bounded channel to start_receiver_task","src/network.rs")],observe=["client sockets and Application::from_app"],hook=REEXP)
p("C22","Outbound messages reach the connected peer exactly once, in order",
  "Every message sent to a session while a peer of that session is connected is written to that peer's connection exactly once, byte for byte as serialised, and in the order sent by each sending thread. This holds for bursts of any length, for several threads sending at once, for peers that read slowly, and with several engines in one process.",
  ["schedules","histories","inputs"],"every interleaving of sending threads, burst length and reader speed",
  "The network and io modules have no tests.",
  [ACC,NET,SAS],[("Session::sync_send_to_target","src/session/session_and_state.rs"),("writer task","src/io/acceptor.rs")],observe=["Session::sync_send_to_target and the bytes read at client sockets"],hook=REEXP)
p("C23","Messages go only to the session they were sent to",
  "A message sent to one session is never written to a connection that belongs to another session, whether the sessions use different ports or share one, and regardless of how many peers connect, in which order, or how they disconnect and reconnect. A connection that has not identified itself receives nothing.",
  ["schedules","histories","configurations"],"every assignment of sessions to ports and every connection history",
  "The network and io modules have no tests.",
  [ACC,NET,SAS],[("responder routing","src/network.rs, src/io/acceptor.rs")],observe=["bytes read at every client socket"],hook=REEXP)
p("C24","A misbehaving peer cannot disturb other sessions",
  "Garbage, malformed or truncated messages, messages for unknown sessions, abrupt disconnects at any point, peers that never read and replies to peers that have gone neither crash the engine nor stop inbound and outbound delivery for the other connections. A malformed message that ends in its CheckSum field is never delivered to the application, and well-formed messages following it on the same connection still are; a message cut off by the end of its connection is never delivered.",
  ["fault_sequences","histories","schedules"],"every sequence of peer faults at every point of the traffic",
  "The network and io modules have no tests, and no test feeds malformed input anywhere.",
  [ACC,NET,SAS,MSG],[("error handling of reader, writer and receiver tasks","src/io/acceptor.rs, src/network.rs")],observe=["healthy control connections beside faulty ones"],hook=REEXP)
p("C25","Every configured port accepts every peer, again and again",
  "After start, every configured accept port accepts connections on the loopback address, and every peer that connects, alone or in a simultaneous burst, first or after any number of earlier connections have come and gone, is served without its connection being reset or ignored. A port that is taken by somebody else at start is served once it is free, without delaying the others, an engine that starts right after an earlier one on the same ports has ended, with peers still connected to it, serves its peers all the same, and peers that connect while the process has no file descriptor left are served when it has some again.",
  ["schedules","histories"],"every pattern of concurrent connects, disconnects and reconnects",
  "The network and io modules have no tests.",
  [ACC,NET],[("IoAcceptor::start accept loop","src/io/acceptor.rs"),("start_accepting_connections","src/network.rs")],observe=["connect and echo at client sockets"],hook=REEXP)
p("C26","Departed peers release what they held",
  "After a peer closes its connection, the engine stops working on it: within bounded work it uses no more processor time for it and closes its side of the connection, so that any number of past connections leaves an idle engine idle and its number of open descriptors bounded by the live connections.",
  ["histories","fault_sequences"],"every number and pattern of connections that have come and gone, closed cleanly or abruptly, at any point in a message",
  "The network and io modules have no tests.",
  [ACC],[("end-of-stream handling of reader and writer tasks","src/io/acceptor.rs")],observe=["/proc/self/fd and process CPU time of the engine process after disconnects"],hook=REEXP)
p("C27","The session registry behaves as one shared atomic map",
  "Concurrent registration, lookup, update and listing of sessions through any clones of the registry behave as if executed one at a time on a single shared map: a lookup returns the latest registered or updated session for that identity, and nothing registered is lost or seen under another identity. A listing shows, for each identity separately, a session that was the registered one at some moment while the listing ran; it is not a snapshot of all identities at one moment.",
  ["schedules","histories"],"every interleaving of registry operations by any number of threads holding clones",
  "No test touches the registry, and none is concurrent.",
  [NET],[("SessionMap over a sharded concurrent map","src/network.rs")],observe=["SessionMap::insert_session/get_session/entry/key_values_map histories"],hook=REEXP)
p("C28","No data race or undefined behaviour in any concurrent workload",
  "Parsing, serialising, sending and receiving from any number of threads, and the registry under concurrent use, execute without data races, out-of-bounds or use-after-free accesses or other undefined behaviour. Concurrent use of independent messages, or of one shared dictionary, gives the same results as sequential use.",
  ["schedules","inputs"],"every interleaving of concurrent users of the codec, dictionary, registry and sockets",
  "The tests are single threaded in every component and run without sanitizers.",
  [MSG,DD,NET,ACC,SAS],[("ownership and Arc/DashMap sharing","src/network.rs, src/session/session_and_state.rs")],observe=["ThreadSanitizer, AddressSanitizer and Miri runs of the monitored workloads; concurrent against sequential results"],hook=REEXP)
p("C29","Each session interprets messages by its own dictionary",
  "A session uses the dictionary file its configuration names (its own setting, else the default section's, else the shipped FIX 4.3 file), and messages arriving for that session are parsed by that dictionary and no other. The same bytes can therefore be accepted for one session and rejected, or grouped differently, for another.",
  ["configurations","histories"],"every assignment of dictionaries to sessions and every interleaving of their messages",
  "No test creates a session.",
  [SAS,NET],[("Session::with_settings","src/session/session_and_state.rs"),("dictionary lookup in start_receiver_task","src/network.rs")],observe=["Session::data_dictionary and messages delivered to the application"],hook=REEXP)
p("C30","Generated field constants agree with the dictionary file",
  "For every field declared in the shipped dictionary there is a generated field type whose tag number is the one declared, so that code using the generated constants and code using the loaded dictionary mean the same field.",
  ["programs","configurations"],"every field of the shipped dictionary",
  "Only BeginString, BodyLength and MsgType constants are used by anything the tests reach.",
  ["build/code_generator.rs","build/templates.rs","resources/FIX43.xml"],[("build script rendering fields.rs","build/")],observe=["Name::field() of every generated type against the dictionary loaded at run time"],hook=REEXP)
p("C31","The program serves exactly its configured sessions",
  "The program, started in a directory with a configuration and its dictionaries, listens on every configured port and answers every well-formed message of a configured session with exactly one complete logon message (sender, target, sequence number, encryption method and heartbeat interval included) of correct body length and checksum, stamped with the time of sending, on that session's connection. It sends nothing in answer to malformed messages or messages of unknown sessions and nothing to connections that have identified no session, and keeps running whatever its peers do. With a configuration that is defective, or names a dictionary that is missing or defective, it ends with an error instead of serving.",
  ["inputs","configurations","histories"],"every configuration, and every sequence of connections, messages and departures of its peers",
  "No test starts the program or opens a socket.",
  ["src/main.rs","src/application.rs",NET,ACC,SAS],[("main","src/main.rs"),("DefaultApplication::from_app","src/application.rs"),("start_receiver_task","src/network.rs")],observe=["exit status of the program and every byte its peers receive"],hook=None)
p("C32","The code generator renders every dictionary faithfully",
  "For every valid dictionary file, the code generator succeeds, the generated code compiles, and it offers for every declared field a type of that name whose tag number is the declared one and whose instances, made from a value of the kind that the field's type takes, carry that tag and that value.",
  ["programs","configurations"],"every valid dictionary file: any field numbers, names, types and enumerations, in any order",
  "The generator runs once per build on one file, and the tests use three of the types it generates.",
  ["build/main.rs","build/code_generator.rs","build/templates.rs"],[("code generation from the dictionary","build/code_generator.rs")],observe=["output of a program compiled from the generated code"],hook=None)
p("C33","Answers do not depend on what the process did before",
  "Loading a dictionary or a configuration, parsing, serialising, copying and changing a message, reading the identities of a raw message, asking a schedule at a given time and stamping a message at a given time give results that depend on their arguments alone: the same as in a process that does nothing else, however often, in whatever order, after whichever other operations (failed ones and those on nearly equal arguments included) and on whichever thread.",
  ["histories","schedules","inputs"],"every history of operations of the process, on any number of threads",
  "Each test runs a few fixed calls once; none repeats an operation after others or compares processes.",
  [MSG,DD,SID,SET,SCH],[("from_str","src/message.rs"),("from_str","src/data_dictionary.rs"),("Properties::from_str","src/session/session_settings.rs"),("is_session_time","src/session/session_schedule.rs")],observe=["results of the same operations in one busy process and in fresh processes"],hook=REEXP)
p("C34","A busy application holds its peers back",
  "While the application is busy with one message, what peers go on sending is held back at their connections: the memory of the engine does not grow with the amount offered. When the application goes on, every message that was offered is delivered, exactly once, intact and in the order of its connection, and no connection has been ended.",
  ["schedules","fault_sequences"],"every amount offered by any number of peers, for any time the application stands still",
  "The network and io modules have no tests.",
  [NET,ACC],[("bounded channel to the receiver thread","src/network.rs start_accepting_connections"),("start_socket_listener_task","src/io/acceptor.rs")],observe=["heap of the engine's process, deliveries to the application"],hook=REEXP)
p("C35","What the process holds on to does not grow with its history",
  "When nothing is in flight, the memory in use does not depend on how much the process has done before: not on how many messages it has received, whether they were delivered, rejected or nobody's, not on how many connections have come and gone, however they ended, not on how many messages were sent to sessions, connected, unconnected or unknown, or how often sessions were registered again, and not on how many dictionaries, configurations and messages were read and dropped.",
  ["histories"],"every history of operations, connections and messages, however long",
  "A leak of a few bytes shows only after many operations; the tests run each call a few times and measure nothing.",
  [NET,ACC,SAS,MSG,DD],[("start_receiver_task","src/network.rs"),("socket tasks of a connection","src/io/acceptor.rs"),("Responder","src/io/mod.rs"),("sync_send_to_target","src/session/session_and_state.rs")],observe=["bytes allocated and not freed by the engine's process, between equal portions of work"],hook=REEXP)
p("C36","The time messages and configurations take grows in proportion to their size",
  "Processor time grows in proportion to the amount of work: parsing a message, accepted or rejected, serialising it, copying it, computing its totals, and reading identities of a raw message, in the number of its fields, instances of groups at any depth, or bytes of a value; setting and reading fields and instances of a message under construction; loading a configuration, in the number of its sections and settings; receiving a message from a connection, in its length and however it is split; receiving many messages and sending many messages, in their number, even to a peer that reads late. Sixteen times the work does not take a hundred times the time.",
  ["inputs","schedules"],"every message, configuration and number of messages, whatever their shape (not dictionaries, whose references are looked up in the file)",
  "Tests use messages of a dozen fields, for which a quadratic algorithm is as fast as a linear one; a peer may send megabytes.",
  [MSG,SET,ACC,SAS],[("from_vec and parse_group","src/message.rs"),("FieldMap","src/message.rs"),("read_message","src/io/acceptor.rs"),("Responder","src/io/mod.rs")],observe=["processor time of thread or engine at two sizes of the same work"],hook=REEXP)
p("C37","Every peer's messages have their turn",
  "However much other peers send without ever pausing, on whichever sessions and ports, and although the application takes less than they offer, a message that has arrived from another peer is delivered before more than a bounded number of other messages are (a few dozen here, at any rate fewer than 1500), and the application's answer to it is written to its connection as promptly. This holds for messages on connections that were quiet and for the first message of a connection made under that load.",
  ["schedules","histories"],"every amount of traffic from any number of other peers, at any moment",
  "The network and io modules have no tests; starvation needs lasting load from several peers.",
  [NET,ACC],[("bounded channel to the receiver thread","src/network.rs start_accepting_connections"),("start_receiver_task","src/network.rs"),("accept loop and start_socket_listener_task","src/io/acceptor.rs")],observe=["deliveries to the application and bytes received by peers, in order"],hook=REEXP)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
