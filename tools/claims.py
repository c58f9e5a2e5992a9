M = "runtime monitoring: "
TRUST = " Explores sampled executions only; trusts the oracle written from the property text."
CLAIMS = [
 ("C01", M + "byte-level totals oracle over generated and reparsed messages", "Recomputes BodyLength and CheckSum from the serialised bytes of every message of a random workload." + TRUST),
 ("C02", M + "framing monitor over serialised bytes", "Checks order, framing and conservation of fields on the bytes of every serialised message." + TRUST),
 ("C03", M + "generated conforming messages with read-back oracle", "Random dictionaries and conforming messages, every field read back." + TRUST),
 ("C04", M + "field conservation monitor over accepted inputs", "Multiset of input fields against the fields held, on mutated inputs." + TRUST),
 ("C05", M + "single-fault injection with expected reject reason", "One structural fault per message, reason compared." + TRUST),
 ("C06", M + "hostile inputs with panic, termination and allocation monitors", "Panics, processor time and allocation peaks observed through a counting allocator." + TRUST),
 ("C07", M + "round-trip oracle on accepted inputs", "Parse, serialise, parse again, compared structurally." + TRUST),
 ("C08", M + "group layout monitor on messages built through the API", "Bytes and read-back compared with a model of the calls made." + TRUST),
 ("C09", M + "random operation histories against a map model", "Field maps compared with a reference model after random operations." + TRUST),
 ("C10", M + "identity extraction against an independent field scanner", "Raw messages with decoys, extracted identities compared." + TRUST),
 ("C11", M + "pairwise equality, hash and print monitors over identity pools", "All pairs of generated pools compared with component-wise equality." + TRUST),
 ("C12", M + "dictionary answers compared with an abstract dictionary", "Random dictionaries and the shipped one, all membership facts compared." + TRUST),
 ("C13", M + "field table answers compared with an abstract dictionary", "All numbers around the declared ones queried, from originals and clones." + TRUST),
 ("C14", M + "defect injection into dictionary files", "One defect per file; accepted or panicking loads are violations." + TRUST),
 ("C15", M + "configuration lookups against a section model", "Random configurations, all lookups compared." + TRUST),
 ("C16", M + "defect injection into configurations, with sound controls", "One defect per file; loads that succeed are violations." + TRUST),
 ("C17", M + "virtual clock and interval oracle, daily windows", "Instants at and around boundaries and clock changes under an interposed clock; trusts chrono-tz zone data." + TRUST),
 ("C18", M + "virtual clock and interval oracle, weekly windows", "As C17 for weekly windows." + TRUST),
 ("C19", M + "schedules from generated settings, judged under a virtual clock", "Combinations of settings with defects, behaviour compared at instants." + TRUST),
 ("C20", M + "virtual clock and calendar oracle", "Instants 1970 to 9999, text compared with independent calendar arithmetic." + TRUST),
 ("C21", M + "offline checker over recorded deliveries of a live engine on loopback sockets", "Every delivery to the application compared with what the peers sent: once, in order, intact, right session." + TRUST),
 ("C22", M + "offline checker over the bytes every peer received", "Every received byte attributed to one sent message; per-sender order, exactly once." + TRUST),
 ("C23", M + "addressee checker over the bytes every peer received", "Sessions sharing ports, peers that come and go, silent connections that must stay silent." + TRUST),
 ("C24", M + "fault injection by hostile peers beside controlled well-behaved sessions", "Eleven kinds of hostile acts; crashes, undelivered or wrongly delivered messages are violations." + TRUST),
 ("C25", M + "connection monitor over bursts and reconnects", "Every peer of every burst must be accepted and answered." + TRUST),
 ("C26", M + "descriptor and processor time monitor after disconnects", "Process-wide descriptors and processor time of an idle engine after many departures." + TRUST),
 ("C27", M + "linearizability checker over recorded concurrent registry histories, and deliveries of a live engine while sessions are registered", "Stamped histories of threads holding clones, searched per identity for a sequential explanation; sessions replaced under a running engine must receive and send." + TRUST),
 ("C28", M + "ThreadSanitizer, AddressSanitizer and Miri over the monitored workloads, concurrent against sequential results", "The codec, dictionary, registry and engine workloads under instrumentation; reports attributed to the crate's own accesses are violations. Sockets are not interpreted by Miri." + TRUST),
 ("C29", M + "differential monitor of deliveries against a parse under the session's own dictionary", "Several sessions with different dictionaries receive the same bodies." + TRUST),
 ("C30", M + "observed constants of every generated type against an independent reading of the dictionary file", "Every declared field of the shipped dictionary, exhaustively: number of the type, tag of an instance, answers of the loaded dictionary for that number."),
 ("C31", M + "black-box monitor of the shipped program as a process of its own", "Every byte received from the program is judged; random configurations, peers that come and go, defective configurations that must not start." + TRUST),
 ("C32", M + "observed output of programs compiled from code generated for random dictionaries", "Generator run, generated code compiled and executed per random dictionary; tag and value of an instance of every type."),
 ("C33", M + "differential monitor of one busy process against fresh processes", "Workloads of nearly equal operations repeated in random order on several threads; all answers to an operation equal, a sample compared with a process that does nothing else."),
 ("C34", M + "heap monitor and delivery checker while the application stands still", "Heap of the engine's process sampled while peers offer 24 MB; afterwards the exactly-once checker of C21." + TRUST),
 ("C35", M + "monitor of the bytes in use between portions of a growing history", "Every allocation of the engine's process is counted; after equal portions of work and with nothing in flight the bytes in use are compared; growth that goes on as the history gets longer is a violation." + TRUST),
 ("C36", M + "processor time measured at two sizes of the same work", "The same work at two sizes, 16 times apart; the least of several measurements of processor time must not grow 6 times (sending: 2.2 times, receiving: 4 times) faster than the size." + TRUST),
 ("C37", M + "online fairness monitor: deliveries that overtake a message", "Peers that never pause load the engine; for messages of other peers the deliveries before their turn, and before their answer arrives, are counted and bounded." + TRUST),
]
PENDING = "its monitor is still being built"
NOT = []
