"""What each check runs: (cases, seconds) per tier, what it must have seen, how cases are made."""

WIRE = "cases are seeded; structured RFC 1035 messages, plain or compressed, valid or mutated, plus pointer/length soups, 64 KiB monsters and random bytes"

SIM = "cases are seeded DNS trees (zones, delegations, in-zone and foreign nameservers, alias graphs, all record types) behind interposed sockets and clock"

CHECKS = {
    "W01": dict(quick=(1000000, 60), thorough=(10**9, 540), technique="panic, CPU-time and allocation monitors over hostile decoder inputs",
                rule=WIRE + "; distinct = distinct input bytes with the pattern of entry points accepting them",
                must_see=["message accepted", "message refused", "inputs heavy", "inputs pointers"],
                note="Totality of every decoder entry point on the inputs generated; 10 s CPU and 256 MiB live memory per case count as 'never ends' and 'out of proportion'."),
    "W02": dict(quick=(1000000, 60), thorough=(10**9, 540), technique="reference-model monitor: independent RFC 1035 encoder, round trips",
                rule="cases are seeded messages of all nine record types with boundary values, and messages decoded from hostile bytes; distinct = distinct encodings carrying at least a question or a record",
                must_see=["decoded, encoded and decoded again", "messages of hundreds of records in a section"] + ["type %d" % t for t in (1, 2, 5, 6, 11, 12, 13, 15, 16)],
                note="Byte-exact agreement with an encoder written from RFC 1035, and field-exact round trips, on the messages generated."),
    "W03": dict(quick=(1000000, 60), thorough=(10**9, 540), technique="differential monitor against an independent three-valued RFC 1035 decoder",
                rule=WIRE + ", unknown types mixed in, data lengths off by one, pointer chains at far offsets; distinct = distinct inputs on which a definite verdict was compared",
                must_see=["accepted", "messages of hundreds of records in a section", "refused: rdata length", "refused: pointer loop", "refused: pointer outside", "refused: illegal label", "pointer chains followed"],
                note="Agreement with a decoder written from RFC 1035; inputs on which the RFC leaves freedom (forward pointers, over ten jumps, trailing bytes, non-UTF-8 strings) may be refused but not misread."),
    "W04": dict(quick=(1600000, 60), thorough=(10**9, 540), technique="reference-model monitor of names as label lists",
                rule="cases are texts and wire names around every border of legality, related pairs and triples of names, maps keyed by names; distinct = distinct texts, encodings and triples",
                must_see=["legal texts", "illegal texts", "legal wire names", "illegal wire names", "pairs equal", "pairs contained"],
                note="Agreement with a label-list model of names on the names generated."),
    "W05": dict(quick=(1000000, 60), thorough=(10**9, 540), technique="reference-model monitor of the truncating encoder",
                rule="cases are messages whose size and cut position are steered around 512 bytes in every section; distinct = distinct expected encodings",
                must_see=["not cut", "cut in questions", "cut in answers", "cut in authorities", "cut in additionals", "exactly 512 bytes"],
                note="Byte-exact agreement with a recomputed prefix, and decoding of it, on the messages generated."),
    "W06": dict(quick=(1600000, 60), thorough=(10**9, 540), technique="history monitor against a vector-of-bits model",
                rule="cases are histories of 3..120 buffer operations with random alignment, overwrites and truncations; distinct = distinct final contents and operation mixes",
                must_see=["operations", "contents compared"],
                note="Every return value, position and content compared with a model after every operation of the histories generated."),
    "N01": dict(quick=(300000, 40), thorough=(10**9, 540), technique="reference-model monitor: rendered zone files against the records they state",
                rule="cases are abstract zone sets rendered to text in random style (relative names, '@', blank owners, origins, nested includes, inherited TTLs, TTL/class order, parentheses, comments, quoting, escapes, CRLF); distinct = distinct file contents",
                must_see=["zone sets loaded", "with included files", "with sub zones", "with origin changes", "with multi-line records", "with escapes", "with '@'"],
                note="Every loaded record set compared in order and content with the stated one, and counts per type, on the zone sets generated."),
    "N02": dict(quick=(60000, 60), thorough=(10**9, 540), technique="panic, stack, CPU-time and allocation monitors over hostile zone files; served replies decoded independently",
                rule="cases are mutated valid files, token soups, endless parentheses, self-inclusion, odd whitespace, enormous record sets; distinct = distinct contents with their verdict",
                must_see=["loaded", "refused", "mutated files", "hostile files", "enormous sets loaded", "replies encoded"],
                note="Termination and absence of crashes on the files generated (8 MiB stack, 30 s CPU, 1 GiB), and encodability of replies for up to 40 names and types per loaded set."),
    "N03": dict(quick=(200000, 40), thorough=(10**9, 540), technique="monitor of refusals: valid zone sets with exactly one documented rule broken",
                rule="cases are valid zone sets in which one rule (SOA, NS, zone borders, classes, TTL minima, sub zone contents, glue, record syntax) is broken at a random place in a random file; distinct = distinct files and rules",
                must_see=["broken: " + k for k in ("no NS", "NS not at top", "owner outside", "owner in sub zone", "TTL below minimum", "inherited TTL below minimum", "class", "second SOA", "SOA missing", "SOA not at top", "SOA syntax", "SOA without class", "$ORIGIN", "$INCLUDE origin", "sub zone NS not at top", "sub zone without NS", "sub zone address of no nameserver", "sub zone owner outside", "sub zone TTL below minimum", "glue missing, same sub zone", "glue missing, other sub zone")],
                note="Refusal of every broken set generated; the unbroken set is loaded first, so that only the broken rule can be the reason."),
    "N04": dict(quick=(60000, 40), thorough=(10**9, 540), technique="reference-model monitor of nameserver replies",
                rule="cases are loaded zone sets with 5..40 queries each at, below, above and beside their names, in random letter case; distinct = distinct replies",
                must_see=["refused", "referral", "referral with glue", "answer", "alias", "name error"],
                note="Response code, authority flag and all sections compared with a reference nameserver for the queries generated."),
    "R01": dict(quick=(60000, 60), thorough=(10**9, 540), technique="reference-model monitor: the real resolver over a simulated network and clock, against the simulated DNS tree's own data",
                rule=SIM + " with honest servers (alias chasing, referrals with and without glue, hints, compression, truncation and stream fallback vary by server); 1..12 lookups per case, some by concurrent clients; distinct = distinct questions with their replies",
                must_see=["records", "aliases and records", "name error", "aliases and name error", "alias loop", "long chain refused", "from cache", "truncated replies", "tcp connections", "lookups by concurrent clients", "enormous limits"],
                note="Answer, alias chain and response code compared with the tree for every lookup generated; also that every upstream query is well formed and goes to a server some unexpired data named."),
    "R02": dict(quick=(60000, 60), thorough=(10**9, 540), technique="history monitor: every returned record is traced back to the upstream reply that carried it, under a virtual clock",
                rule=SIM + "; histories of lookups, clock advances (to the nanosecond around expiries) and upstream changes of data, lifetimes, names and nameserver addresses; distinct = distinct replies with their age",
                must_see=["records from cache", "records from upstream", "asked again after expiry", "changed data", "changed lifetimes", "removed a name", "moved a nameserver"],
                note="Each record returned must be covered by an upstream reply whose lifetime had not passed when the lookup began, with no more than the remaining lifetime, over the histories generated."),
    "R03": dict(quick=(24000, 60), thorough=(10**9, 540), technique="fault injection at the socket boundary with a reference-model monitor; statistics over query ids",
                rule=SIM + "; forged datagrams (other address, port, id, question, not a response, garbage, echoes) arrive before or instead of the genuine reply; distinct = distinct questions with replies and junk seen",
                must_see=["right despite forged replies", "right despite off-path datagrams", "attempts failed by junk", "junk: other id", "junk: other name", "junk: other type", "junk: not a response", "junk: other port", "junk: neighbour address", "id sequences tested"],
                note="Replies and upstream destinations must be those of the genuine tree; ids must look uniform and unpredictable in the sequences observed (bit balance, repeats, differences)."),
    "R04": dict(quick=(60000, 60), thorough=(10**9, 540), technique="taint monitor: victim lookups after and during lookups answered by a hostile zone",
                rule=SIM + " with one hostile zone whose servers add, replace or redirect anything in every section (twelve kinds of poison); distinct = distinct victim questions with replies",
                must_see=["victim answered right", "victim's absence right", "victim reached through hostile alias", "poison: foreign answer", "poison: foreign address", "poison: parent delegation", "poison: sibling delegation", "poison: root", "poison: alias with foreign nameservers"],
                note="Every lookup of a name outside the hostile zone must give its own zone's data, and queries about such names must never reach the addresses the hostile zone advertised."),
    "R05": dict(quick=(6000, 75), thorough=(10**9, 540), technique="bounded-work monitors (upstream queries, socket waits, CPU time, stack, memory) against adaptive adversaries",
                rule="cases are lookups answered by an adversary with one of 21 strategies or a mixture (loops and chains of delegations and aliases, layered cached delegations, garbage, silence, slow and enormous streams); distinct = distinct (queries sent, strategy, simulated duration)",
                must_see=["strategy %d" % k for k in range(25)] + ["ended with code 2", "ended with code 0", "hostile replies", "tcp connections"],
                note="At most 4000 upstream queries per allowed retry, no wait above the configured timeouts, one reply to the client, 30 s CPU per case, 2 MiB stack, 512 MiB, for the adversaries generated."),
    "R06": dict(quick=(80000, 60), thorough=(10**9, 540), technique="fault injection per nameserver and attempt with a reference-model monitor",
                rule=SIM + "; each zone keeps one working nameserver within the configured limits, the others are silent, refuse, fail, answer rubbish, are lame or do not resolve; some cases have a total outage and recovery; distinct = distinct questions with replies and fault patterns",
                must_see=["records", "name error", "aliases and records", "fault Silent", "fault Refused", "fault Lame", "fault Rcode", "fault TcDead", "outages", "failed during outage", "nameserver names that do not resolve", "servers that need every retry"],
                note="Every lookup must give the tree's data as long as one server per zone answers, and server failure (not a wrong answer) during an outage, for the fault patterns generated."),
    "R08": dict(quick=(1600, 75), thorough=(10**9, 540), technique="paired-run differential monitor over trace and log settings",
                rule=SIM + ", honest, faulty, forged or hostile; the same lookups are run under every combination of trace settings and log levels on the same world; distinct = distinct (reply, upstream sequence)",
                must_see=["worlds compared under all settings", "honest worlds", "faulty worlds", "hostile worlds", "traces read", "verbose traces read"],
                note="Replies and upstream queries equal across settings; silent traces empty; every asked server named in the others."),
    "R09": dict(quick=(80000, 60), thorough=(10**9, 540), technique="history monitor over upstream queries under a virtual clock",
                rule=SIM + "; lookups repeated within the lifetime of what they found, in other letter case, by another handler on the same cache, and lookups of sibling names; distinct = distinct questions with replies",
                must_see=["repeated lookups", "repeated lookups with aliases", "lookups started at a cached zone"],
                note="No upstream query during repeated lookups and the same records, and sibling lookups start at the cached zone's servers, for the histories generated."),
    "R07": dict(quick=(90000, 60), thorough=(10**9, 540), technique="offline linearizability checker over recorded concurrent histories, with drop-tracking values and a virtual clock",
                rule="cases are histories on the real cache: one thread with the clock stepped to the nanosecond around expiries (every result and every kept value compared with a map), 2..6 threads with jitter inside hashing, comparing, cloning and updating (decided by a linearizability search per key), mass increments, and the real cleaning routine; distinct = distinct histories of results and distinct interleavings of overlapping calls",
                must_see=["caches of thousands of entries", "used at the instant of expiry", "used just before expiry", "found", "cleaned and compared", "overlapping calls", "concurrent histories decided", "increments counted", "rounds reclaimed by the routine"],
                note="Every result explained by a sequential map with exact expiry on the histories generated; nothing unexpired dropped, everything expired dropped by cleaning, no value leaked or dropped twice."),
    "S04": dict(quick=(40000, 60), thorough=(10**9, 540), technique="online monitors in the jobs of the real pool under stress: run counts, order, concurrency, liveness and thread leaks",
                rule="cases are pools of 1..13 workers through 1..5 phases (crowds of jobs from several submitters, panicking jobs of five kinds, all workers held at once, queues behind held workers, jobs that wait for each other) and a drop with jobs still queued; distinct = distinct (size, phases, start order)",
                must_see=["pools dropped", "jobs run", "crowds", "crowds with panics", "all workers busy at once", "queues behind held workers", "jobs in pairs", "pools of 1", "pools of 13"],
                note="Exactly-once execution, first-in first-out starts, full parallelism, panic containment, complete drop on the schedules that occurred; 40 s without progress counts as stuck."),
    "H01": dict(quick=(70000, 60), thorough=(10**9, 540), technique="reference-model monitor of the request-to-reply envelope, on the handlers and on the sockets of the real servers",
                rule="cases are 5..40 requests to a nameserver with a generated zone set or to a resolver on a simulated tree: queries, with and without options, other and undefined operations, responses, any number of questions, unwanted records, all classes and types, odd flags, illegal names, cut, mutated and random bytes; handed to the handler or sent to the real servers over UDP and TCP; distinct = distinct requests (without id) with the response code",
                must_see=["kind: " + k for k in ("any message", "class", "cut short", "illegal name", "mutated", "number of questions", "odd flags", "other operation", "query", "query with options", "random bytes", "records in a query", "response", "undefined operation", "unknown type", "unsupported type")] + ["over UDP", "over TCP", "handed over", "replies that could not be sent", "requests that could not be received", "nameserver replied with code 5", "resolver replied with code 2", "resolver replied with code 3", "deserve no reply"],
                note="Number of replies, id, flags, code and questions judged for every request generated, the category (query, not implemented, format error) being computed from the bytes by an independent decoder."),
    "S01": dict(quick=(7000, 60), thorough=(10**9, 540), technique="history monitor of concurrent clients on the sockets of the real servers, against a reference nameserver and the simulated DNS tree",
                rule="cases are 1..8 concurrent clients with 1..12 requests each to the real UDP and TCP servers (IPv4 and IPv6, four sizes of worker pools, random pauses in handlers) in front of a nameserver with record sets steered around 512 and 65535 octets, or of a resolver; same or different ids, 1..8 outstanding datagrams, TCP requests in any segmentation, half-closed, slow readers; distinct = distinct replies and histories",
                must_see=["replies over UDP", "replies over TCP", "rounds of clients after the same things", "requests of 512 octets over UDP", "requests of 65535 octets over TCP", "cut", "cut at 65535", "replies of nearly 65535 octets", "sent at once", "sent in pieces", "sent byte by byte", "sent with pauses", "rounds of several clients", "rounds with a resolver", "rounds with a nameserver", "rounds with 1 UDP and 1 TCP workers", "rounds with 4 UDP and 4 TCP workers"],
                note="One reply per request, to its own socket, for its own question, whole or cut at the right place, for every request of the histories generated."),
    "S02": dict(quick=(3000, 60), thorough=(10**9, 540), technique="fault injection by hostile clients (and exhausted descriptors) on the sockets of the real servers, with probes and a worker census",
                rule="cases are 1..3 rounds of up to 12 hostile acts (malformed, empty and lying datagrams and frames, resets, cut, idle, half-sent and dripping connections, clients gone before the reply, failing accept, receive and dup calls) followed by probes and, at the end, by as many simultaneous requests as there are workers; read timeout 300 ms; distinct = distinct histories",
                must_see=["hostile datagrams", "descriptors run out", "rounds survived", "all UDP workers there", "all TCP workers there", "services with a nameserver", "services with a resolver"] + ["connections " + k for k in ("closed at once", "cut and closed", "dripping", "framed rubbish", "gone before the reply", "half sent", "idle", "lengths that lie", "reset")] + ["ended: " + k for k in ("idle", "half sent", "dripping")],
                note="Probes answered correctly, connections ended within the timeout, all workers alive after every history generated."),
    "S03": dict(quick=(1300, 75), thorough=(10**9, 540), bins=True, technique="fault and delay injection in the start-up of the real servers and programs, with liveness and listener-leak monitors",
                rule="cases are starts of the two servers on IPv4, IPv6 and wildcard addresses, same or different ports, 1..300 threads, where one, both or none cannot run (port taken, address not of this host or not an address, refused threads, refused socket option), with delays of 50 us .. 700 ms injected into the calls of either side and clients (some held in progress) meanwhile; 1 in 25 starts a real program; distinct = distinct configurations of faults, delays and clients",
                must_see=["both run", "still serving", "delayed calls", "nameserver ended", "resolver ended", "returned with requests in progress", "a thread could not start", "UDP on 0.0.0.0", "TCP on 0.0.0.0", "UDP on IPv4", "TCP on IPv4"] + ["%s could not start: %s" % (a, b) for a in ("UDP", "TCP") for b in ("Taken", "Foreign", "Rubbish")],
                note="Starting returns within 20 s without panicking and the ports are free 15 s later when one side cannot run; both still serve a minute later when both can, on the start-ups generated."),
    "S05": dict(quick=(600, 75), thorough=(10**9, 540), bins=True, shards=24, technique="reference-validator monitor of generated configuration files, and black-box monitors of the real programs under a recording preload shim",
                rule="cases are 60 configuration files of either service, valid (any layout, key order, unknown keys, extreme values) or broken in one place, read in process; or a real program with a valid configuration, whose addresses, ports, worker counts, time limits, zones, TTLs, resolver limits, trace settings, cleaning period and log level are observed from outside (fake Internet behind a preload shim); or programs with broken configurations, zone files and arguments; distinct = distinct configuration texts",
                must_see=["nameserver files accepted", "resolver files accepted", "nameserver files refused", "resolver files refused", "nameservers served", "resolvers served", "resolvers with enormous values", "threads counted", "TCP workers counted by idle connections", "UDP workers counted by lookups", "alias limit used", "limits of nameservers and retries used", "upstream read timeout used", "silent traces", "refused by the programs", "refused zone files", "refused number of arguments", "refused paths"] + ["log level " + l for l in ("ERROR", "WARN", "INFO", "DEBUG", "TRACE")] + ["traces verbose %s color %s" % (a, b) for a in ("true", "false") for b in ("true", "false")],
                note="Every field's value compared with the file, every field's effect observed on the running programs, every refusal with failure status and without a bound socket, for the configurations generated."),
}
