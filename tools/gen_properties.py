#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that the anchors stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))
D = "src/shared/dns/"; B = "src/resolver/back_end/"; Z = "src/nameserver/zones/"; N = "src/shared/net/"
NOTEST = "The eleven existing tests touch only the bit buffer, each on one hand-written input; "

prop("W01", "Decoding any bytes ends with a value or an error",
 "For every byte sequence given to the decoder as a DNS message, header, question or record, decoding finishes and returns either a value or an error. It never crashes, never loops forever, and never uses time or memory out of proportion to what a 64 KiB message can need.",
 ["inputs"], "all byte strings of 0..65535 bytes: random, structured-then-mutated, cyclic/forward/out-of-range compression pointers, lying lengths and counts",
 NOTEST + "no test decodes a name, record or message at all, and the hostile inputs that matter (pointers past the end, lengths that overflow, bitmaps) form an unbounded space.",
 [D+"message.rs", D+"name.rs", D+"records.rs", D+"questions.rs", D+"header.rs", D+"utils.rs", "src/shared/buffer/buffer.rs"],
 [("bounds-checked reads", "BitsBuf::read_*"), ("jump limit on compression pointers", "Name::from_bytes"), ("data length checks", "decode_*_data")],
 ["Message::decode_from_bytes", "Header::decode_from_bytes", "Question::decode_from_bytes", "Record::decode_from_bytes"])

prop("W02", "Encoding then decoding gives back the same message",
 "For every message made of supported content, encoding it and decoding the bytes gives back the same header, the same questions and the same records in the same sections and order: owner, class, TTL and all the data of every record type. The encoded bytes are what RFC 1035 prescribes for that message without name compression, including each record's data length, and encoding never fails for a message that the system itself decoded or loaded.",
 ["inputs"], "all messages over every supported record type and every legal field value, and every message obtained by decoding",
 NOTEST + "no encoder or decoder of names, questions, records, headers or messages is tested; the product of record types, field values and section sizes is unbounded.",
 [D+"message.rs", D+"records.rs", D+"name.rs", D+"header.rs", D+"questions.rs", D+"types.rs", D+"class.rs", D+"utils.rs"],
 [("paired encode_*/decode_* functions", D+"records.rs"), ("header bit layout", "Header::encode_to_buf / decode_from_buf")],
 ["Message::encode_to_bytes", "Message::decode_from_bytes"])

prop("W03", "Messages are decoded as RFC 1035 defines them",
 "Whenever a message is accepted, what it decodes to (header fields, questions, records per section, names after decompression) is what the RFC 1035 wire format says those bytes mean; well-formed messages are accepted, and messages that are cut short, whose record data does not fill its declared length, or that use reserved, illegal or unsupported encodings (classes, operations, types the system knows but does not support) are rejected. Questions and records of unknown type are skipped as a whole without disturbing what follows, and the counts reported with a decoded message equal what it carries.",
 ["inputs"], "all byte strings of up to 65535 bytes, in particular compressed, mutated and boundary-length encodings",
 NOTEST + "agreement with the wire format must hold for every byte string, including compression graphs and unknown types no test builds.",
 [D+"message.rs", D+"name.rs", D+"records.rs", D+"questions.rs", D+"header.rs", D+"types.rs", D+"class.rs"],
 [("label/pointer walk", "Name::from_bytes"), ("rdata length comparison", "decode_*_data"), ("skip of unknown types", "decode_record_type")],
 ["Message::decode_from_bytes result vs. an independent decoder"])

prop("W04", "Domain names are always legal and compare by label",
 "Every domain name the system accepts, from text or from the wire, is a legal absolute name (labels of 1 to 63 letters, digits and inner hyphens; at most 255 octets on the wire), all such names are accepted, and converting between text and wire form loses nothing, the root included. Names are equal, and hash alike, exactly when they match label by label ignoring ASCII case. A name lies in a zone exactly when the zone's labels are the name's trailing labels, so every name lies in the root and in itself, and a name that merely ends with the same characters does not.",
 ["inputs"], "all strings and all byte encodings, and all pairs and triples of names",
 NOTEST + "no test creates a name; legality, equality and containment are relations over all names.",
 [D+"name.rs"],
 [("validate_name / validate_label", D+"name.rs"), ("Name::to_bytes / from_bytes", D+"name.rs"), ("is_in_zone, is_in_zone_root, is_only_in_auth_zone, Eq/Hash", D+"name.rs")],
 ["Name::from_string", "Name::from_bytes", "Name::to_bytes", "==/Hash", "Name::is_in_zone"])

prop("W05", "UDP truncation keeps a correct prefix and flags it",
 "For every message, its UDP form is at most 512 bytes and decodes to the same header except for the counts and the truncation flag, with the original sections cut at one point: every question and record before that point is present and whole, none after it is, and the counts say exactly that. The cut is the first item that would pass 512 bytes, and the truncation flag is set whenever something was left out and unchanged otherwise.",
 ["inputs"], "all messages, in particular those whose encoding lies around 512 bytes with the cut falling in each section",
 NOTEST + "the truncating encoder is not tested; the interesting behaviour depends on exact sizes and on which section overflows.",
 [D+"message.rs", "src/shared/buffer/buffer.rs", N+"udp_server.rs"],
 [("encode_to_bytes_trunc", D+"message.rs"), ("BitsBuf::truncate / set_write_pos", "src/shared/buffer/buffer.rs")],
 ["Message::encode_to_bytes_trunc", "UDP replies on the wire"])

prop("W06", "The bit buffer is a faithful sequence of bits",
 "For every sequence of bit, integer and byte reads and writes, position changes and truncations, the buffer behaves as one growable sequence of bits: a read returns exactly the bits stored at the read position and advances by what it read, or returns nothing and moves nothing when too few bits remain. A write replaces or appends exactly its bits and disturbs no other, and truncation drops exactly the tail.",
 ["histories", "inputs"], "all finite sequences of operations with all argument values and alignments",
 "The existing tests run about forty fixed calls; the behaviour depends on the combination of alignment, length, overwrite position and previous truncations, over all histories.",
 ["src/shared/buffer/buffer.rs"],
 [("masking and shifting in read_bits/write_bits", "src/shared/buffer/buffer.rs"), ("last / w_pos / r_pos bookkeeping", "src/shared/buffer/buffer.rs")],
 ["return values and positions of BitsBuf, and into_vec"],
 state=[("last", "number of valid bits", "BitsBuf")])

prop("N01", "Zone files load as exactly the records they state",
 "For every well-formed set of zone, included and sub zone files, loading succeeds and yields exactly the stated records: the same owners, types, TTLs and data, no more and no fewer, in file order within each record set. Relative names, '@' and blank owners, origin changes, inherited TTLs, included files, optional class and TTL in either order, comments, multi-line records, quoting and escapes all mean what the documentation says.",
 ["inputs", "programs"], "all well-formed zone file sets over the documented syntax",
 "No test loads a zone; the meaning of a line depends on all the preceding lines and files, so fixed samples settle little.",
 [Z+"tokens.rs", Z+"parser_auth.rs", Z+"parser_sub.rs", Z+"parser.rs", Z+"utils.rs"],
 [("Tokenizer", Z+"tokens.rs"), ("AuthParsingState / SubParsingState", Z+"parser_auth.rs, "+Z+"parser_sub.rs"), ("adjust_name, parse_ttl_class", Z+"utils.rs")],
 ["parse_zone_files -> ManagedZone, read through Zone::get / get_all_of_type"])

prop("N02", "Any zone file is loaded or refused, and loaded data is servable",
 "For every content of the zone, included and sub zone files (arbitrary bytes, odd whitespace, unterminated quotes or parentheses, files including each other), loading ends with the zone or an error, never with a crash or an endless loop. Whatever was loaded can be served: a query for any loaded name and type gets a reply that encodes and decodes correctly over both transports.",
 ["inputs"], "all file contents, including binary data, mutated zones, include cycles, over-long strings and names",
 "No test loads a zone, let alone a malformed one; the space of malformed files is unbounded.",
 [Z+"tokens.rs", Z+"parser_auth.rs", Z+"parser_sub.rs", Z+"utils.rs", "src/nameserver/handler.rs"],
 [("token errors", Z+"tokens.rs"), ("ParseErr", Z+"errors.rs"), ("length checks on names and character strings", Z+"utils.rs")],
 ["parse_zone_files result", "replies of NameserverHandler over the loaded zone"])

prop("N03", "Inconsistent zones are refused",
 "A zone set is loaded only if it keeps the documented rules: the zone starts with one SOA owned by its top node, has NS records and only at its top node, and holds only internet-class records inside the zone and outside every sub zone with TTLs not below the SOA minimum. Each sub zone holds only NS records, at least one and all at its top node, and A records for nameservers that a sub zone names, all inside the sub zone and not below its minimum TTL, with glue for every nameserver that lies in a managed sub zone. Breaking any one of these rules, or the syntax of any record, makes loading fail.",
 ["inputs", "configurations"], "all zone sets that break one rule in any place, and all that break none",
 "No test loads a zone; each rule interacts with origins, includes, several sub zones and inherited TTLs.",
 [Z+"parser.rs", Z+"parser_auth.rs", Z+"parser_sub.rs", Z+"utils.rs", Z+"errors.rs"],
 [("validate_auth_zone / validate_subzone", Z+"parser.rs"), ("ensure_* helpers", Z+"errors.rs")],
 ["parse_zone_files result"])

prop("N04", "The nameserver answers exactly what its zones say",
 "For every loaded zone set and every query: a name outside the zone is refused; a name in a sub zone gets a non-authoritative referral carrying exactly that sub zone's NS records and the glue known for them, and no answers; any other name gets, authoritatively, exactly the records of the asked type, else the name's CNAME, else a name error with the zone's SOA. No other record appears in the answer or authority sections.",
 ["inputs", "configurations"], "all zone sets and all queries (every name around the zone tree, every supported type, any letter case)",
 "No test runs the nameserver handler; the answer is a function of the whole zone content and the question.",
 ["src/nameserver/handler.rs", Z+"parser.rs", D+"name.rs"],
 [("handle_query / handle_auth_zone / handle_subzone", "src/nameserver/handler.rs"), ("Zone::get", Z+"parser.rs")],
 ["replies of NameserverHandler::handle_request and of the nameserver binary"])

prop("H01", "Every request gets one matching reply, or none if unreadable",
 "Both services reply exactly once to every request whose header can be read, and never to anything else: not to undecodable headers and not to messages that are themselves responses. The reply is a well-formed response with the request's id, operation code and recursion-desired flag, the service's recursion-available flag, a clear truncation flag unless data was cut, and the request's questions or none. Unsupported operations, classes and query types get 'not implemented', malformed or ill-shaped requests get an error code ('format error', or 'not implemented' for an unknown type), and only proper queries get any other code.",
 ["inputs"], "all byte strings sent as requests to either service: valid, invalid in one way, mutated and random",
 "No test runs either handler; one unhandled shape of request is enough to lose the reply or the worker.",
 ["src/nameserver/handler.rs", "src/resolver/handler.rs", N+"udp_server.rs", N+"tcp_server.rs", D+"message.rs", D+"header.rs"],
 [("validate_dns_request / handle_err / handle_decode_err", "src/*/handler.rs"), ("DnsReadResult", N+"traits.rs")],
 ["bytes passed to DnsWrite::reply and bytes on the sockets"])

prop("S01", "Each client gets its own complete reply over UDP and TCP",
 "Under any number of concurrent clients and any split of the TCP byte stream into segments, each request receives exactly one reply, on its own socket, that answers that request and not another. TCP replies are preceded by their exact length and complete up to 65535 bytes, and larger ones are cut to that size and flagged; the UDP and TCP replies to a query agree up to UDP truncation.",
 ["schedules", "inputs"], "all interleavings of concurrent UDP and TCP clients, all segmentations of requests, all reply sizes",
 "No test opens a socket; cross-talk, framing and size errors need concurrency, fragmentation or very large record sets.",
 [N+"udp_server.rs", N+"tcp_server.rs", N+"setup.rs", "src/shared/thread_pool.rs", "src/bin/nameserver.rs"],
 [("per-request UdpResponse/TcpResponse", N+"udp_server.rs, "+N+"tcp_server.rs"), ("length prefix and read_exact", N+"tcp_server.rs")],
 ["client sockets of the running binaries"])

prop("S02", "Hostile clients cannot stop the servers from answering",
 "After any sequence of malformed datagrams, malformed or half-sent or idle or abruptly closed TCP connections, and requests of any shape, both servers of the running service keep answering well-formed queries correctly, with all their workers still available. Idle or half-sent connections hold a worker no longer than the configured timeouts.",
 ["inputs", "histories", "fault_sequences"], "all sequences of hostile client behaviour against a running service with few worker threads",
 "No test starts a server; losing workers one malformed packet at a time shows only after a history of them.",
 [N+"udp_server.rs", N+"tcp_server.rs", "src/shared/thread_pool.rs", "src/nameserver/handler.rs", "src/resolver/handler.rs"],
 [("worker loop", "src/shared/thread_pool.rs"), ("read/write timeouts", N+"tcp_server.rs setup_connection")],
 ["probe queries on the sockets of the running binaries, interleaved with the hostile traffic"])

prop("S03", "If one transport cannot run, the whole service stops",
 "When the UDP or the TCP server cannot start, the other one is stopped as well and starting the servers returns within a few seconds: no listener stays behind, whatever the address family, the thread counts and the order in which the two servers come up. When both can start, both keep serving.",
 ["schedules", "configurations", "fault_sequences"], "all choices of failing transport, IPv4/IPv6/wildcard address, thread counts and start-up interleavings",
 "No test starts the servers; the outcome depends on the race between one server failing and the other starting.",
 [N+"setup.rs", N+"udp_server.rs", N+"tcp_server.rs", "src/shared/thread_pool.rs"],
 [("stop flag, channel and wake-up message", N+"setup.rs"), ("stop check in the accept/recv loops", N+"udp_server.rs, "+N+"tcp_server.rs")],
 ["return of start_servers", "ports free afterwards", "exit of the binaries"])

prop("S04", "The thread pool runs every job exactly once, in parallel",
 "Every job handed to the pool runs exactly once, and has finished when dropping the pool returns. Up to the configured number of jobs run at the same time, never more; jobs start in the order they were submitted by one thread. A job that panics affects no other job and does not reduce the number of workers.",
 ["schedules", "fault_sequences"], "all interleavings of submitters and workers, all pool sizes, any subset of jobs panicking or blocking on each other",
 "No test uses the pool; lost jobs, serialised workers and dead workers depend on schedules and on panicking jobs.",
 ["src/shared/thread_pool.rs"],
 [("shared receiver behind a mutex", "Worker::new"), ("Stop messages and joins on drop", "Drop for ThreadPool")],
 ["start/end events recorded inside the jobs"])

prop("S05", "Accepted configurations work, invalid ones are refused",
 "A configuration file is accepted exactly when it is well-formed JSON with all required fields of the right type and range, valid addresses, non-zero timeouts, thread counts and limits, and valid zone names. Every value is used for what its field says, every accepted configuration gives a service that answers on both configured addresses and ports, and a refused one ends the program with a failure before anything is served.",
 ["configurations"], "all configuration files of both services: valid ones, and ones invalid in any one field",
 "No test reads a configuration; each field can be lost, swapped or left unvalidated on its own.",
 ["src/nameserver/conf.rs", "src/resolver/conf.rs", "src/bin/nameserver.rs", "src/bin/resolver.rs", "conf/nameserver.conf.json", "conf/resolver.conf.json"],
 [("Conf::from_file / validate", "src/*/conf.rs"), ("wiring of values", "src/bin/*.rs")],
 ["Conf::from_file result", "exit status and sockets of the binaries"])

prop("R01", "The resolver returns what the authoritative servers hold",
 "When the nameservers of the DNS tree answer honestly and reachably, a lookup of any name and type returns exactly the records the authoritative zone holds: the chain of aliases followed from the asked name, in order and up to the configured limit, then the complete record set of the asked type at its end; a name error exactly when that end does not exist (or does not exist as far as its authoritative server says). It never returns records of another name or type as answers, and alias loops and over-long chains give 'server failure'.",
 ["inputs", "configurations", "histories"], "all delegation trees (in-zone, parent-zone and foreign nameservers, with and without glue), alias graphs, names, types and cache contents left by earlier lookups",
 "No test performs a lookup; correctness depends on the whole delegation tree and on what earlier lookups left in the cache.",
 [B+"recursive.rs", B+"requests.rs", B+"utils.rs", "src/resolver/handler.rs"],
 [("iterative descent", "query_nameservers_iteratively"), ("classification of responses", "perform_request"), ("alias handling", "handle_cname"), ("sub-lookups of nameserver names", "resolve_ns_subquery")],
 ["client replies of ResolverHandler against a simulated DNS tree"])

prop("R02", "Cached data is never served beyond its lifetime",
 "Whatever the history of lookups, clock advances and changes upstream, every record the resolver returns is one that an upstream response carried no longer ago, when the lookup took it up, than that response's TTL for the record set, with a TTL not above what then remained of that lifetime. Serving or re-using a cached record never prolongs it, and once it has expired the resolver asks upstream again.",
 ["histories", "inputs"], "all sequences of lookups, time steps and upstream changes, all TTLs including 0 and mixed TTLs in one set",
 "No test uses the cache; expiry depends on time and on the history of insertions.",
 [B+"recursive.rs", B+"cache.rs"],
 [("save_records_in_cache / search_records_in_cache", B+"recursive.rs"), ("expiry instants", B+"cache.rs")],
 ["client replies and upstream queries under a virtual clock"],
 state=[("cache entry", "(expiry instant, records) per (name, type)", B+"cache.rs")])

prop("R03", "Only genuine replies to the resolver's own queries count",
 "A datagram influences a lookup only if it comes from the address and port of the nameserver that was asked, is a response, carries the id of the outstanding query and repeats its question; anything else can at most make that attempt fail. Query ids are unpredictable, each query is a well-formed single question, and queries go only to root servers and to addresses learned for the nameservers of zones that enclose the name.",
 ["fault_sequences", "inputs"], "all forged, misdirected, stale or mismatched datagrams injected before, after or instead of the genuine reply",
 "No test sends a query; acceptance must hold for every forged datagram at every point of a lookup.",
 [B+"requests.rs", D+"header.rs"],
 [("send_query / send_udp_packet", B+"requests.rs"), ("random header id", "Header::default")],
 ["upstream queries and client replies with forged datagrams injected at the socket boundary"])

prop("R04", "A nameserver can only influence names of its own zones",
 "Whatever records a zone's nameserver puts in any section of its responses, lookups of names outside that zone (and outside zones delegated below it) still return the data of their own authoritative servers, during the same lookup and in every later one. In particular aliases to, delegations of, and addresses for foreign names given by that server are not believed.",
 ["histories", "fault_sequences"], "all contents of responses by a hostile zone's servers, in all histories of lookups mixing hostile and honest zones",
 "No test performs a lookup; cache poisoning needs a hostile server and a later victim lookup.",
 [B+"requests.rs", B+"recursive.rs", B+"utils.rs"],
 [("extract_next_nss_for_subzone / extract_next_nss_for_cname", B+"requests.rs"), ("cache keys", "save_records_in_cache / save_nss_in_cache")],
 ["client replies for honest names after hostile responses"])

prop("R05", "Every lookup ends after a bounded number of queries",
 "Whatever the upstream servers send or fail to send (delegation or alias loops, endless chains of nameservers without address, garbage, silence), a lookup ends after a bounded number of upstream queries and a bounded amount of its own work, without a crash, and the client gets exactly one reply. No single query waits without a time limit.",
 ["inputs", "fault_sequences", "histories"], "all behaviours of upstream servers, adaptive ones included, and all cache contents they can produce",
 "No test performs a lookup; termination must hold against adversarial servers.",
 [B+"recursive.rs", B+"requests.rs", B+"utils.rs"],
 [("loop detection and limits", "detect_cname_loops, detect_zones_loop, max_cname_redir, max_ns_queried, retries"), ("socket timeouts", "send_udp_packet")],
 ["number of upstream queries per lookup", "client reply count"])

prop("R06", "One working nameserver per zone is enough",
 "A lookup succeeds with the right answer as long as, for every zone on the way, at least one of the nameservers the configuration allows to try answers properly within the allowed retries, whatever the others do: silence, refusals, failures, garbage, unrelated or empty responses, names that do not resolve. If all of them fail the client gets 'server failure', and later lookups succeed again once the servers recover.",
 ["fault_sequences", "configurations", "histories"], "all assignments of faults to nameservers and attempts that leave one working server within the limits",
 "No test performs a lookup; failover must hold for every pattern of faults.",
 [B+"recursive.rs", B+"requests.rs"],
 [("nameserver loop and first error", "query_nameservers_iteratively"), ("send_query_with_retries", B+"requests.rs"), ("sort_nameservers", B+"utils.rs")],
 ["client replies with faults injected per server and attempt"])

prop("R07", "The cache is an atomic map with exact expiry",
 "Every concurrent history of cache operations is equivalent to some one-at-a-time order of them, consistent with real time, on a map whose entries vanish exactly when their time to live has passed: an entry is returned in full until then and never afterwards, an expired previous value is not reported, and cleaning removes all expired entries and only those. The periodic cleaning reclaims expired entries that nobody asks for.",
 ["schedules", "histories"], "all interleavings of get, set, remove, in-place update and clean by many threads over few keys, with clock advances",
 "No test uses the cache; atomicity and expiry are properties of schedules and time.",
 [B+"cache.rs"],
 [("one mutex around the map", "Cache::data"), ("is_expired", B+"cache.rs"), ("start_clean_routine", B+"cache.rs")],
 ["call/return events of Cache operations", "drops of cached values"])

prop("R08", "Tracing and logging never change results",
 "For every lookup, the reply to the client and the sequence of upstream queries are the same whatever the trace settings (silent, verbose, colours) and log level are. A silent trace is empty, and every other trace can be printed and mentions each upstream server asked.",
 ["configurations", "inputs"], "all trace and log settings, all lookups including failing ones and ones with nested sub-lookups",
 "No test performs a lookup or prints a trace.",
 [B+"trace.rs", B+"recursive.rs", "src/resolver/handler.rs", "src/shared/logs.rs"],
 [("skip_if_silent / skip_if_not_verbose", B+"trace.rs"), ("Display for Trace", B+"trace.rs")],
 ["replies, upstream query sequences and rendered traces of paired runs"])

prop("R09", "What is cached and unexpired is not asked for again",
 "While the records a lookup found are unexpired, repeating the lookup (by any client, in any letter case) sends no query upstream and returns the same records; and a lookup of another name under a zone whose nameservers and their addresses are cached starts at that zone's servers rather than at the root.",
 ["histories"], "all histories of lookups and clock advances within the lifetimes of the records",
 "No test performs a lookup; effectiveness of the cache is a property of histories.",
 [B+"recursive.rs", B+"cache.rs"],
 [("search_records_in_cache, search_nss_in_cache_with_trace", B+"recursive.rs"), ("save_nss_in_cache", B+"recursive.rs")],
 ["upstream queries sent during repeated and sibling lookups"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
