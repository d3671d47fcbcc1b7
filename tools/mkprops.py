#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
DEC, ENC, REC, PKT = "src/packet/decoder.rs", "src/packet/encoder.rs", "src/packet/records.rs", "src/packet.rs"
NAME, SVC, ADV, DIS, RES, TAP = "src/name.rs", "src/service.rs", "src/service/advertising.rs", "src/service/discovery.rs", "src/resolver.rs", "src/tap.rs"
AADV, ADIS, ARES = "uwuhi-async/src/service/advertising.rs", "uwuhi-async/src/service/discovery.rs", "uwuhi-async/src/resolver.rs"

p("C01", "Decoding untrusted bytes never crashes, hangs or over-produces",
  "For every byte string handed to the message decoder, and every way of walking it (entry by entry, by iterator, skipping sections, viewing records as typed data, rendering entries as text), each call returns a value or an error: it never panics, and it always terminates within bounded memory. A section never yields more entries than the header announces for it, and once an error has been reported neither this section nor any later one yields another entry or error.",
  ["inputs", "histories"], "all byte strings (random, structured, mutated valid messages) x all walks over the decoder API",
  "The tests decode nine hand-written inputs, all but four of them valid; a panic or runaway loop needs one particular malformed input among all datagrams an attacker can send.",
  [DEC, REC], [("bounds-checked reads", "decoder.rs Reader::read_slice/read_obj/split_off"), ("strictly backward pointers", "decoder.rs Reader::read_domain_name"), ("has_errored latch and remaining counters", "decoder.rs MessageDecoder::next/next_rr")],
  ["MessageDecoder::new/next/iter/answers/authority/additional", "ResourceRecord::as_enum/rdata/Display/Debug", "Question Display/Debug"],
  [("has_errored", "latched after the first error", DEC), ("q/ans/auth/addl_remaining", "entries still to be read per section", DEC)])

p("C02", "Messages decode to exactly what their bytes say",
  "For every message, with or without name compression, the decoder yields header fields, questions (name, type, class without the unicast-response bit) and records (owner name, type, class, cache-flush bit, TTL, raw data) that are exactly those an independent RFC 1035/6762 reading of the bytes yields, in order and in the right section. This is independent of how the sections are walked and of bytes after the message; for a damaged message it holds for every entry before the first damage, where an error is reported.",
  ["inputs", "histories"], "all generated messages (0..hundreds of entries per section, sizes past the 255 and 16383 byte offset limits, all compression layouts), their mutations, and all walks",
  "Tests compare a handful of fixed packets; compression layout, field values with high bits set, section boundaries and offsets are unbounded.",
  [DEC, PKT, "src/num.rs"], [("field decoding", "decoder.rs read_question/read_resource_record"), ("section transitions", "decoder.rs change_section/remaining"), ("big-endian integers", "num.rs U16/U32")],
  ["MessageDecoder", "decoder::Question", "decoder::ResourceRecord"])

p("C03", "Compressed names resolve exactly and parsing resumes in the right place",
  "A domain name in a message decodes to the label sequence found by reading its labels and following its compression pointers, whatever their number and targets, as long as each pointer leads strictly before the start of the run of labels it ends; whatever follows the name is read from directly after the name's in-place bytes. A pointer to itself, into its own run or further ahead is rejected as a pointer loop, reserved label types as an invalid value, and a name cut off by the end of the data as an unexpected end; resolving never loops or panics.",
  ["inputs"], "all byte layouts of labels and pointers: chains of any depth, shared tails, targets inside the header or record data, overlapping runs, self/forward/mutual pointers, truncations",
  "Tests contain one valid pointer, two self-loops and one out-of-range pointer; chains, overlaps, offsets above 255 and truncated pointers are not reached.",
  [DEC], [("pointer bound", "decoder.rs Reader::read_domain_name (min_pos)"), ("cursor restore", "decoder.rs Reader::read_domain_name (self.pos.set)")],
  ["decoder::Question::qname and the entries after it", "typed records containing names"])

p("C04", "Encoding then decoding is the identity",
  "Any header, list of questions and lists of records (of every supported record type, with any class and TTL) written with the message encoder into a large enough buffer are read back unchanged, in order and in the same sections, both by this library's decoder and by an independent reader of the wire format. The section counts in the header equal the number of entries written, the returned length is exactly the end of the message, and this holds whether the encoder is finished explicitly or dropped, and whatever the buffer contained before.",
  ["inputs", "histories"], "all encoder call sequences: header values, 0..hundreds of entries per section, all record types with boundary field values, names up to many labels, strings up to 255 bytes",
  "test_roundtrip covers one or two values per record type, outside of a message; the message encoder itself is not tested at all.",
  [ENC, REC, PKT], [("write_rr length back-patch", "encoder.rs MessageEncoder::write_rr"), ("count/TC finalisation on drop", "encoder.rs EncoderInner::drop"), ("RecordData::encode/decode pairs", "records.rs")],
  ["MessageEncoder::finish and the buffer", "MessageDecoder over the buffer"])

p("C05", "Encoding into a short buffer truncates honestly",
  "For every message and every buffer of at least the header size, encoding never panics and never reports success for a message that did not fit: finish returns the full length with the truncation bit clear exactly when the whole message fits, otherwise it reports truncation and the truncation bit is set in the header. In both cases the other header fields are intact and every question or record that fitted completely is decoded back unchanged and in order.",
  ["inputs", "fault_sequences"], "all messages x all buffer sizes from the header size to beyond the full length, i.e. the buffer running out at every byte offset",
  "No test encodes into a buffer that is too small; the cut can fall at any byte, including inside a length field or nested record data.",
  [ENC, REC], [("truncating writes", "encoder.rs Writer::write_slice"), ("truncation state handed through nested writer", "encoder.rs MessageEncoder::write_rr"), ("TC bit on drop", "encoder.rs EncoderInner::drop")],
  ["MessageEncoder::finish", "header and entries decoded from the buffer"], [("trunc", "set once a write did not fit", ENC)])

p("C06", "Header accessors read and write exactly their own bits",
  "For every 12-byte header, each accessor returns the value at its RFC 1035 position, and each setter changes exactly the bits of its own field: after any sequence of setters every accessor, and the transmitted header, show the last value set for its field and the untouched rest. Opcodes and response codes up to 15 are kept as they are; larger ones never disturb other fields.",
  ["inputs", "histories"], "all 65536 flag words, ids and counts x all sequences of setter calls",
  "The one header test starts from the zero header and sets one opcode and one response code; interference between fields depends on the other bits.",
  [PKT, "src/num.rs"], [("HeaderFlags masks and shifts", "packet.rs HeaderFlags"), ("modify_flags", "packet.rs Header::modify_flags")],
  ["Header getters/setters", "bytes written by MessageEncoder::set_header", "MessageDecoder::header"])

p("C07", "Labels and domain names: exactly the valid ones, lossless text form",
  "A label can be created from exactly the byte strings of 1 to 63 bytes and keeps those bytes; a domain name parsed from text has exactly the dot-separated parts as labels, a single trailing dot is optional, '.' is the root, and empty or overlong parts are rejected with the matching error. Building a name by pushing, extending, collecting or parsing yields the same name, iteration returns its labels in order, equality, order and hash of labels follow their bytes, and displaying a name whose labels are plain text and parsing it again gives the same name.",
  ["inputs", "histories"], "all byte strings and strings (lengths around 0, 63, 64; arbitrary Unicode; any number of dots) and all name construction sequences",
  "Tests check six literal strings; no length boundary is exercised.",
  [NAME, "src/error.rs"], [("Label::try_new checks", "name.rs Label::try_new_impl"), ("FromStr for DomainName", "name.rs"), ("escape_ascii display", "name.rs")],
  ["Label::new/try_new/as_bytes/parse/Display/Eq/Ord/Hash", "DomainName::from_str/labels/push_label/extend/collect/iter/Display"])

p("C08", "Typed record views never misreport record data",
  "Viewing a record as a typed record gives nothing for unsupported types, the exact field values for well-formed data of the supported types (including names compressed against the rest of the message), and an error for data that is too short or malformed for its type. The view never uses bytes after the end of the record's own data, and neither it nor the content of the data affects which entries follow.",
  ["inputs"], "all record types x all record data bytes and lengths, placed anywhere in a message between other entries",
  "Tests decode one well-formed value per type in isolation; wrong lengths, neighbouring bytes and malformed content are not covered.",
  [REC, DEC], [("rdata sub-reader bounded by RDLENGTH", "decoder.rs Reader::split_off"), ("RecordData::decode", "records.rs"), ("Record::from_rr dispatch", "records.rs records! macro")],
  ["decoder::ResourceRecord::as_enum/rdata/type_", "record accessors"])

p("C09", "Query types and classes match exactly the records they ask for",
  "A query type matches a record type if and only if it is ALL, or it is MAILB and the type is one of MB, MG, MR, or it is neither of these nor AXFR/MAILA and the two codes are equal. A query class matches a class if and only if it is ANY or the codes are equal, and the named type, class, opcode and response code constants have their IANA-assigned codes on the wire and in text.",
  ["inputs"], "all 65536 query type codes x all record types, all 65536 query class codes x classes",
  "No test calls either predicate.",
  [PKT, "src/packet/macros.rs"], [("QType::matches", "packet.rs"), ("QClass::matches", "packet.rs"), ("ffi_enum constants", "packet.rs")],
  ["QType::matches", "QClass::matches", "wire codes of constants"])

p("C10", "The advertiser answers with exactly the matching registered records",
  "For any set of registered host names and service instances and any well-formed query, the advertiser's response contains, for each question, every registered record whose name, type and class match it and nothing else: addresses for host names; SRV, TXT, service PTR and service-type PTR records for instances; and there is no response if nothing matches. The response carries the query's id, the response and authority flags, a nonzero TTL and class IN on every record; if it does not fit one mDNS packet it is cut with the truncation flag set, and the records that fit are intact.",
  ["inputs", "histories"], "all registration histories x all queries (any number of questions, types incl. ALL/MAILB/unknown, classes incl. ANY and the unicast-response bit, compressed names, other sections present)",
  "The advertiser has no tests; which records match depends on the registration history, and truncation on their number.",
  [ADV, ENC, PKT], [("record database", "advertising.rs add_name/add_instance"), ("matching loop", "advertising.rs Advertiser::handle_packet"), ("truncated replies still sent", "advertising.rs Advertiser::handle_packet")],
  ["Advertiser::handle_packet return value"], [("db", "registered records", ADV), ("response_buf", "reused for each response", ADV)])

p("C11", "The advertiser survives and ignores anything that is not a proper query",
  "For every byte string and every registration history, handling a packet neither panics nor hangs, and packets that are responses, use another opcode than a standard query, carry an error code or are malformed in the header are never answered. Handling a packet never influences later ones: after any sequence of packets, every query gets exactly the answer a freshly set up advertiser with the same registrations gives, and the memory held does not grow with the number of packets.",
  ["inputs", "histories"], "all packet sequences (garbage, mutated queries, responses, floods of questions) interleaved with registrations and valid queries",
  "The advertiser has no tests; a crash or state leak needs a specific hostile packet followed by a valid one.",
  [ADV, DEC, ENC], [("query/opcode/rcode filter", "advertising.rs Advertiser::handle_packet"), ("fresh header per response", "encoder.rs MessageEncoder::new"), ("count overflow handling", "encoder.rs")],
  ["Advertiser::handle_packet return value over a packet history"], [("response_buf", "reused for each response", ADV)])

p("C12", "Advertised services are discovered with the same data",
  "Whatever service instances and host names an advertiser registers, walking the library's own client steps against it (list service types, list instances of each type, load an instance's details, resolve its host) yields exactly the registered service types, instances, host, port, TXT metadata and addresses. This holds both when queries and responses are passed through in memory and over a real multicast socket.",
  ["inputs", "histories"], "all sets of registrations (names with arbitrary bytes, several instances per type, shared hosts, any port, any TXT metadata) x all client walks",
  "No test connects the two roles; each conversion (names, labels, transport, TXT) must agree on both sides for every value.",
  [ADV, DIS, RES, SVC], [("add_instance record layout", "advertising.rs Advertiser::add_instance"), ("from_ptr/from_srv/from_txt", "service.rs"), ("encode_query/decode_answer", "discovery.rs, resolver.rs")],
  ["SyncDiscoverer/SyncResolver results", "discovery::encode_query/decode_answer + Advertiser::handle_packet"])

p("C13", "TXT metadata follows the DNS-SD key/value rules",
  "For every TXT record, the key/value view holds, for each key, the first entry with that key: keys compare ASCII case-insensitively and keep their spelling, everything after the first '=' is the value byte for byte, no '=' means a flag without a value (different from an empty value), and entries without a key or with a non-UTF-8 key are ignored. Lookup, iteration, emptiness and text form agree with that, adding a flag makes that key a flag and leaves the others alone, and the view is lossless when advertised.",
  ["inputs", "histories"], "all TXT entry lists (duplicates in any case, empty entries, '=' anywhere, arbitrary bytes) and all sequences of added flags",
  "No test touches TXT metadata.",
  [SVC, REC, ADV], [("from_txt", "service.rs TxtRecords::from_txt"), ("add_flag/get/iter", "service.rs TxtRecords"), ("advertised form", "advertising.rs Advertiser::add_instance")],
  ["TxtRecords::get/iter/is_empty/Display", "TXT records answered by the advertiser"], [("map", "lower-cased key to record", SVC)])

p("C14", "Service identifiers parse from PTR records exactly",
  "A service type parsed from a PTR record has the target's first label as name and the transport named by the second (_tcp or _udp), an instance has one more leading label as its free-form name; targets with too few labels, without a domain part, with another transport or with a service name not starting with an underscore are rejected, none is rejected otherwise. Rebuilding the name from the parsed parts gives the target back, and constructing identifiers from parts keeps these parts and enforces the same underscore rule.",
  ["inputs"], "all PTR target names (0..6 labels, arbitrary bytes, near-miss transports, upper case, underscores) and all constructor arguments",
  "No test constructs or parses a service identifier.",
  [SVC], [("Service::from_ptr", "service.rs"), ("ServiceInstance::from_ptr", "service.rs"), ("ServiceTransport label mapping", "service.rs")],
  ["Service/ServiceInstance accessors, Display, Eq, Ord"])

p("C15", "Client message codecs: right queries out, exactly the answers in",
  "The resolver's query asks for exactly the A and AAAA records of the name, with recursion desired; the discoverer's asks exactly the given types for the given name. From any response to a query the resolver's decoder extracts exactly the addresses in its answer section, in order, ignoring other sections, other record types, queries and responses carrying another query's id, and reports malformed messages as errors; the discoverer's decoder hands over each supported, well-formed answer record in order until told to stop, skipping unsupported and malformed ones, and nothing from a non-response.",
  ["inputs", "histories"], "all names, type lists and response messages (all sections, compression, damaged entries), all callback decisions",
  "No test covers these functions.",
  [RES, DIS], [("encode_query", "resolver.rs, discovery.rs"), ("decode_answer", "resolver.rs, discovery.rs")],
  ["bytes returned by encode_query", "addresses appended / records passed to the callback"])

p("C16", "The stub resolver returns the first matching response's addresses",
  "Resolving a name sends one query to every configured server, ignores every packet that is not a usable response to it (garbage, malformed or cut messages, queries, responses with another id, responses without addresses), and returns exactly the addresses of the first response that has any, in order and unmixed with others'; if none arrives within the timeout (the one set, or the default) it returns a timeout error; an answer within it, up to Duration::MAX, is used however late it comes and however many packets arrive before it, also faster than they can be read. The synchronous and asynchronous resolvers behave alike over IPv4 and IPv6 (also link-local, where the scope selects the link), keep no addresses from earlier calls, and reject unusable host names and, as documented, adding servers of another address family or to a multicast resolver.",
  ["histories", "fault_sequences", "inputs"], "all sequences of datagrams received after the query (losses, junk, duplicates, late and mismatched replies) x repeated calls on one resolver x number of servers",
  "The resolvers have no tests; the async crate has none at all.",
  [RES, ARES], [("receive loop", "resolver.rs SyncResolver::resolve_domain"), ("receive loop (async)", "uwuhi-async resolver.rs AsyncResolver::resolve_domain"), ("add_server assertions", "both")],
  ["datagrams seen by fake servers", "iterator returned by resolve", "error kinds"], [("ip_buf", "addresses collected", RES)])

p("C17", "Discovery reports every service exactly once, in order, until stopped",
  "For any sequence of packets received while discovering, the callback is called exactly once for each distinct service instance (or service type), however many there are, found in the PTR answers, in order of first appearance and whatever garbage, malformed entries, other records or repetitions lie between, and never again after it asked to stop. The query sent is a PTR query for the service (or the service enumeration name) in the configured domain, and the synchronous and asynchronous discoverers behave alike.",
  ["histories", "inputs"], "all sequences of response datagrams with any mix of PTR targets, repeats, junk and damage; all stopping points",
  "The discoverers have no tests.",
  [DIS, ADIS, SVC], [("deduplication", "discovery.rs discover_instances/discover_service_types"), ("receive loop", "discovery.rs send_query"), ("async copies", "uwuhi-async discovery.rs")],
  ["callback invocations", "datagrams seen by a fake server"])

p("C18", "Loaded instance details are those of the received SRV and TXT records",
  "Loading an instance's details sends an SRV and TXT query for that instance's full name in the configured domain and returns the host and port of the first SRV record received and, if a TXT record arrives before the search ends, its key/value metadata, whichever of the two comes first in a response. Garbage, malformed entries and unrelated record types never change the result; if no SRV record arrives in time the result is a timeout error, and the synchronous and asynchronous discoverers behave alike.",
  ["histories", "inputs"], "all sequences of response datagrams with SRV, TXT, other and damaged records in any order and any packet split",
  "The discoverers have no tests.",
  [DIS, ADIS, SVC], [("load_instance_details", "discovery.rs"), ("load_instance_details (async)", "uwuhi-async discovery.rs"), ("InstanceDetails::from_srv", "service.rs")],
  ["InstanceDetails host/port/txt_records", "datagrams seen by a fake server"])

p("C19", "Discovery keeps asking until answered, and stops at its time limit",
  "While no response arrives, a discoverer repeats the identical query after each retransmit timeout, so that any finite number of lost queries or responses within the discovery time only delays the result; this holds for the times that were set, up to Duration::MAX, as well as for the default ones. Discovery ends without error once the discovery time is over, even if unrelated or useless packets keep arriving, faster than they can be read, for both the synchronous and the asynchronous discoverer; no query is sent once the time is over, so that its response is not left to the next call.",
  ["fault_sequences", "histories"], "all numbers of lost queries/responses, useless packets in between, timeouts",
  "No test runs a discoverer; loss and retransmission need a network peer.",
  [DIS, ADIS], [("retransmit loop", "discovery.rs send_query"), ("retransmit loop (async)", "uwuhi-async discovery.rs send_query"), ("discovery_timeout check", "both")],
  ["datagrams seen by a fake server", "return of the discovery call"])

p("C20", "The advertiser daemon keeps serving every querier whatever it receives",
  "A listening advertiser, synchronous or asynchronous, answers every proper query it receives on the mDNS port, by unicast or multicast, to the address it came from and with exactly the response its packet handler gives for it, in the order received. No sequence of received packets (garbage, malformed, empty, oversized, responses, unanswerable queries) makes it stop, answer somebody else, or answer a packet that is no proper query.",
  ["histories", "fault_sequences"], "all sequences of datagrams from several clients, unicast and multicast, valid and hostile, in any order",
  "No test opens a socket.",
  [ADV, AADV], [("listen loop", "advertising.rs SyncAdvertiser::listen_blocking"), ("listen loop (async)", "uwuhi-async advertising.rs AsyncAdvertiser::listen"), ("socket setup", "advertising.rs Advertiser::create_socket")],
  ["datagrams received by the clients"])

p("C21", "The traffic tap logs every message completely and never stops",
  "For every sequence of received packets the tap keeps running, and for each message it logs one line for the header and one for each question and record, in message order and with its section, up to the first malformed entry, where it logs a problem instead. Damaged packets, whatever their content, affect the log of no other packet.",
  ["histories", "inputs"], "all sequences of datagrams: valid messages with all sections, damaged and truncated ones, garbage, empty and full-buffer packets",
  "The tap has no tests; its formatter is exercised by four well-formed packets.",
  [TAP, DEC], [("receive loop", "tap.rs SyncTap::listen"), ("formatter", "decoder.rs MessageDecoder::format")],
  ["log records emitted while the tap listens"])

p("C22", "Rendering network data as text is faithful and inert",
  "The text form of names, labels, questions, records, TXT strings and service identifiers taken from the network contains no control or non-ASCII bytes from it: those are escaped or replaced, so a hostile peer cannot inject lines or terminal sequences into logs; nor do the lines the library itself logs, at any level, while it reads packets and TXT records, answers queries or makes calls. The text of a question or record contains its owner name, type, class, TTL and each data field in readable form, in order; the debug text of labels, names, service identifiers and TXT values shows their content, different values of a TXT key differently; text and debug formatting never fail.",
  ["inputs"], "all names, record types and record contents (arbitrary bytes), well-formed and malformed",
  "Tests render two labels, four messages and no hostile content.",
  [DEC, REC, NAME, SVC], [("escape_ascii", "name.rs Label Display/Debug"), ("replacement of non-graphic bytes", "records.rs TXT Display"), ("Display impls", "decoder.rs, records.rs, service.rs")],
  ["Display/Debug output"])

p("C23", "Async operations never block others and can be abandoned at any point",
  "Every asynchronous operation (resolving, discovering, loading details, listening) only suspends its own task while it waits, and gives others their turn while packets keep arriving: any number of them, and the tasks that feed them, make progress together on a single-threaded executor, each ending with the result it would have on its own. An operation dropped before it has finished leaves its object usable: later calls give exactly the results a fresh object would, answers that arrived for the abandoned call are never used for a later one, and a listener that is dropped and started again still answers every query exactly once.",
  ["schedules", "histories"], "all interleavings of several operations on one executor; all points at which a future can be dropped, with any packets already received or arriving late",
  "The async crate has no tests at all.",
  [ARES, ADIS, AADV], [("resolve_domain", "uwuhi-async resolver.rs"), ("send_query", "uwuhi-async discovery.rs"), ("listen", "uwuhi-async advertising.rs")],
  ["results of the futures", "progress of other tasks on the executor", "datagrams received by clients"], [("ip_buf", "addresses collected by a dropped call", ARES)])

p("C24", "Advertisers, taps and clients on one host do not interfere with each other",
  "However many advertisers (synchronous or asynchronous) and taps run on one host, started and ended in any order, each multicast query reaches all of them: every advertiser answers it exactly as it would alone, every tap logs it, the queriers get all of these responses, and discovery and resolution find what any of the advertisers announces. Any number of resolvers and discoverers exist and ask at the same time, also the same server, and each gets exactly its own answer. None is kept from starting by, or affected by the end of, another.",
  ["histories", "inputs"], "all orders of starting and ending several responders and taps x all packets x several clients, on one host or two; all sets of clients asking at once x all interleavings of their answers",
  "No test opens a socket.",
  [ADV, AADV, TAP], [("socket setup", "advertising.rs Advertiser::create_socket"), ("socket setup", "tap.rs SyncTap::new"), ("listen loops", "advertising.rs, uwuhi-async advertising.rs, tap.rs")],
  ["datagrams received by the clients", "log records emitted while taps listen", "results of discovery and resolution"])

p("C25", "Multicast clients ask the whole link and hear every responder",
  "A multicast resolver or discoverer, synchronous or asynchronous, sends each query to the mDNS group (224.0.0.251 or ff02::fb, port 5353), so that every responder on the link receives it, and takes answers from all of them: discovery browses the domain `local` and reports each distinct service that any responder announces exactly once, in order of arrival; addresses and instance details come from the first usable answer, whoever sends it. Responders that are silent, miss some of the queries, repeat others' answers or send junk hide nothing.",
  ["histories", "fault_sequences"], "all numbers of responders x all interleavings of their (useful, repeated, damaged) answers x lost queries x repeated calls",
  "No test opens a socket; the repository has no multicast tests.",
  [RES, DIS, ARES, ADIS], [("new_multicast_v4, new_multicast_v6", "resolver.rs, discovery.rs and their async copies"), ("receive loops", "resolver.rs, discovery.rs and their async copies")],
  ["datagrams seen by the responders", "addresses, callbacks and details returned"])

p("C26", "Network faults are reported as errors and leave nothing behind; nor do signals",
  "When a query cannot be sent (no address or route, an impossible destination), at the start of a call or when it is repeated, resolving, discovering and loading details, synchronous or asynchronous, return an error that is no timeout, instead of an empty or stale result; a server whose port is closed counts as silent. Nothing of it sticks: as soon as the network or the server is back, calls on the same object give exactly the results a fresh one would, and running advertisers and taps answer and log everything they receive. Advertisers and taps that cannot have the mDNS port or join the group report an error, and can be started once they can; likewise, clients for which the system has no socket. An error of receiving ends a call with an error that is no timeout, and a client that cannot be sent to keeps no other from its answers. A signal the program handles (or being stopped and continued) neither ends a waiting call or listen loop nor changes its result, and however many come, unanswered calls still end and discoverers still repeat their queries.",
  ["fault_sequences", "histories"], "all points of a history at which the network or the server goes away and comes back, or a signal comes x all operations, sync and async, IPv4 and IPv6",
  "No test opens a socket, let alone breaks one.",
  [RES, DIS, ADV, TAP, ARES, ADIS, AADV], [("resolve_domain", "resolver.rs and its async copy"), ("send_query", "discovery.rs and its async copy"), ("create_socket, listen loops", "advertising.rs and its async copy, tap.rs")],
  ["returned errors and results", "datagrams received by servers and clients", "log records emitted while a tap listens"])

p("C27", "Nothing accumulates, however long clients, advertisers and taps are in use",
  "Memory, file descriptors and threads do not grow with use: neither with the number of calls made of a resolver or discoverer, synchronous or asynchronous (for ever new names, with ever new results, answered, unanswered or failing), nor with the number of asynchronous calls dropped before they end, nor with the number of clients, advertisers and taps made and dropped (or not made, for an error), nor with the number of packets (of whatever content and source) that an advertiser or tap has received. After any amount of use the same object gives the same right results.",
  ["histories", "schedules"], "all histories of calls, failures, abandoned calls, objects and packets, each with names, results and sources of its own",
  "Tests make one call or none; a leak of a few bytes shows after thousands.",
  [RES, DIS, ADV, TAP, ARES, ADIS, AADV], [("resolve_domain", "resolver.rs and its async copy"), ("send_query, discover_instances, discover_service_types, load_instance_details", "discovery.rs and its async copy"), ("listen loops, handle_packet, create_socket", "advertising.rs and its async copy, tap.rs")],
  ["bytes on the heap, /proc/self/fd and /proc/self/task, after a quarter and after all of a history", "returned results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
