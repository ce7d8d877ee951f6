import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","The cache answers only equivalent queries, and answers them faithfully",
"The cache may reuse a stored response only for a query that agrees with the one that fetched it in name (ignoring letter case), type, class, DNSSEC-OK flag, checking-disabled flag and client subnet (address and prefix length); any other query, and any query with more than one question, goes upstream. A reply from the cache carries the asking client's own transaction ID and question and the response code and records the upstream last delivered for that key, no matter what an earlier receiver did to its copy; only the order of address records may differ when shuffling is on. With hardening below NXDOMAIN enabled, and only then, a name whose nearest cached ancestor (with the same type and options) is cached as non-existent is also answered NXDOMAIN.",
["inputs","histories","configurations"],"every history of queries over names/types/classes/flags/subnets, with every interleaving of stores, hits, expiries and mutations of returned messages, with shuffling and hardening on or off",
"Tests exercise a handful of fixed keys; leaking one answer into another key needs two queries differing in exactly one key component, in the right order, within the lifetime, possibly after a caller mutated its reply.",
["cache.go","cache-memory.go","cache-blob.go","lru-cache.go","cache-redis.go"],
[("cache lookup and reply restoration","cache.go: Cache.Resolve/answerFromCache/ageCachedAnswer"),("key construction","lru-cache.go: lruKeyFromQuery"),("stored form","cache-blob.go")],
[("stored entries","map from query key to response, insertion time and expiry","cache-memory.go / lru-cache.go")],
["reply returned by the cache element","queries seen by the upstream element"])

p("C02","No cached record outlives its TTL and every lifetime limit is honoured",
"A record that reached the cache with TTL t is never served t or more seconds after it arrived, and while served its TTL is t minus the whole seconds it spent in the cache; a clock stepping backwards counts as zero age. Replies without any records are reused for at most the configured negative TTL (60 s by default), server failures for at most the smaller of that and 300 s, and a configured per-response-code limit shortens any of these. Truncated replies, errors, dropped queries and response codes other than success, NXDOMAIN, SERVFAIL, REFUSED, NOTIMP and FORMERR are never stored, while a fresh storable reply is reused without contacting the upstream.",
["inputs","histories","configurations"],"every response shape (records in any section with any TTLs, any response code, truncation, error, drop), every sequence of queries and time advances, every limit configuration",
"Tests check single TTLs with real sleeps; the guarantee is about all combinations of per-record TTLs, codes, limits and query times, including the seconds right at expiry.",
["cache.go","cache-memory.go","cache-blob.go","cache-redis.go"],
[("expiry calculation","cache.go: storeInCache/minTTL"),("ageing on lookup","cache.go: ageCachedAnswer/cacheAge"),("expiry on lookup and garbage collection","cache-memory.go: Lookup/startGC")],
[("entry timestamp/expiry","time stored and time after which it may not be served","cache-blob.go")],
["TTLs in the reply","whether the upstream was queried"])

p("C03","A bounded cache keeps the most recently used answers and flush empties it",
"A cache with capacity n never holds more than n responses, and when it must make room it discards exactly the least recently used one, where both storing and looking up count as use. After the configured flush query is answered, no response stored before the flush is served again, and the flush query itself is answered with an empty success and never forwarded. Concurrent lookups, stores, flushes and garbage collection never corrupt the store or lose an unrelated fresh entry.",
["histories","schedules","configurations"],"every sequence of stores, lookups, replacements, expiries and flushes for small capacities, and concurrent mixes of them",
"The unit tests insert a few keys in one order; the eviction victim depends on the whole access history and on interleavings with garbage collection.",
["lru-cache.go","cache-memory.go","cache.go"],
[("recency list and index","lru-cache.go: addKey/touch/resize/deleteFunc/reset"),("locking around it","cache-memory.go")],
[("recency order","entries from most to least recently used","lru-cache.go")],
["hits and misses seen through the cache element","Size() of the backend"])

p("C04","The cache file survives crashes and restores exactly what was saved",
"At every instant, including after a kill, a failed or partial write, or overlapping saves, the cache file is absent or one complete snapshot that was saved, never a mixture or a fragment, with the permissions of the file it replaced, and a failed save leaves the previous snapshot in place and no temporary file behind. A restart from it serves every still-valid answer under exactly its original key with its TTLs reduced by the time since it was first cached, keeps at most the configured capacity of the most recently used ones, and skips unreadable records without losing readable ones before them or failing to start. Start-up removes only stale temporary files of its own making from the configured directory and nothing else.",
["crash_points","fault_sequences","histories"],"every crash point and write fault during a save, every cache content, every corrupt or foreign file content, every clean-up directory content",
"Tests save and load once without faults; a crash or short write at a specific system call, or a reader racing a save, is not something a unit test enumerates.",
["cache-memory.go","lru-cache.go","atomicfile.go"],
[("atomic replacement","atomicfile.go: writeFileAtomic"),("stale temp clean-up","atomicfile.go: removeStaleTempFiles"),("save/load format","lru-cache.go: serialize/deserialize")],
[("cache file","last complete snapshot","filesystem")],
["file content seen by other processes","replies after a restart","system calls of a save"])

p("C05","Background refresh is invisible and never degrades a cached answer",
"When a cached answer's remaining lifetime falls below the prefetch threshold, the client is still answered at once from the cache and its reply is not affected by the refresh; a refresh happens only for answers whose original lifetime exceeded the eligibility limit and only with the same question and options. A refresh that fails or reports a failure, is dropped, is truncated, has no records or has a shorter remaining lifetime than the stored answer leaves the stored answer untouched; otherwise the new answer replaces it with a full fresh lifetime. The query-frequency prefetcher passes every reply through unchanged and refreshes only queries that were asked at least the configured number of times within the window.",
["histories","schedules","inputs"],"every history of hits around the threshold, every refresh outcome, every interleaving of refresh completion with further queries and expiry",
"Tests drive one refresh with real sleeps; the outcome depends on when the refresh completes relative to further queries and on each possible kind of refresh result.",
["cache.go","prefetch.go"],
[("prefetch on hit","cache.go: Resolve prefetch goroutine"),("frequency prefetch","prefetch.go")],
None,["replies and their TTLs","queries seen upstream"])

p("D01","Identical concurrent queries share one lookup, and nobody gets another's answer",
"While a lookup for a query is outstanding, further queries equal to it in name (ignoring letter case), type, class, DNSSEC-OK flag, checking-disabled flag and client subnet cause no additional upstream lookup and all receive that lookup's outcome (answer, error or drop), while queries differing in any of these are looked up on their own. Every caller's reply carries its own transaction ID and question and is a private copy. Once the lookup has finished and been handed out, the next such query starts a fresh lookup, and no caller is left waiting after its lookup finished.",
["schedules","inputs","histories"],"every interleaving of arrivals and completions of equal and unequal queries, every upstream outcome",
"Tests use a couple of goroutines and a sleep; sharing across keys, handing out the same message or missing a wake-up needs a specific interleaving around completion.",
["request-dedup.go"],
[("in-flight table and hand-out","request-dedup.go: Resolve")],
[("in-flight table","key to pending lookup","request-dedup.go")],
["upstream queries","each caller's reply"])

p("G01","Fail-over groups answer whenever any member can and switch over correctly",
"A fail-rotate or fail-back group starts a query at its currently preferred member and moves on to the next in configured order (wrapping round) whenever a member fails, offering the query to each at most as often as there are members in total and returning the first usable response as it is; a failure is an error, REFUSED or NOTIMP, and, where configured, SERVFAIL or an answer without useful records, while a deliberate drop or block counts as success. If, with nothing else going on, every member fails, the last outcome is returned; several concurrent failures of the same preferred member move the preference by one step only. Fail-rotate keeps the new preference until that member fails; fail-back returns to the first member once the reset time has passed with no further fail-over, never earlier and not later, and with a reset time of zero every query starts at the first member.",
["histories","schedules","fault_sequences","configurations"],"every pattern of member successes/failures over time, every interleaving of concurrent queries, every reset-time setting",
"Tests fail one member once; skipping or double-advancing members needs two queries failing on the same member at once, or a failure racing the reset timer.",
["failback.go","failrotate.go","resolver.go"],
[("preference and advance","failback.go/failrotate.go: current/errorFrom"),("reset timer","failback.go: startResetTimer"),("success classification","resolver.go: isSuccessResponse")],
[("preferred member","index new queries start with","failback.go/failrotate.go active")],
["order of members contacted per query","the reply"])

p("G02","Balancing groups use their members as promised and lose no query to one failure",
"A round-robin group hands consecutive queries to its members in strict rotation, even under concurrency, and returns whatever that member returns. A random group tries only members that have not failed within the reset time, removes a member that fails and brings each removed member back exactly once after the reset time; a load-balancing group tries each member at most once per query, in an order that favours members with shorter observed response times without ever starving one completely; both return the first usable response and an error (or the last failure) only when no member is left to try. A fastest group sends every query to all members at once and returns the first response to arrive that is neither an error nor a server failure, or the last outcome if there is none, without waiting for slower members.",
["histories","schedules","fault_sequences"],"every pattern of member outcomes and latencies, every interleaving of concurrent queries, every random choice",
"Random choices and concurrency make single-run assertions weak: losing a member for good, resurrecting it twice or returning a failure while a member could answer needs specific overlapping failures.",
["roundrobin.go","random.go","loadbalance.go","fastest.go","resolver.go"],
[("rotation","roundrobin.go: Resolve"),("deactivate/reactivate","random.go: deactivate/reactivateLater"),("weighted pick without replacement","loadbalance.go: Resolve/pick/updateOnSuccess/updateOnFailure"),("first usable response","fastest.go: Resolve")],
[("active members","members eligible now","random.go resolvers")],
["members contacted per query and when","the reply"])

p("R01","The rate limiter admits exactly the configured number per client per window",
"In each fixed time window, for each client network (address masked to the configured IPv4 or IPv6 prefix), the first N queries, N being the configured number, are passed to the upstream and every further one goes to the limit resolver if there is one and is dropped otherwise. No interleaving of concurrent queries, including around a window boundary, lets more than N through in one window or refuses one of the first N. Queries of one client network never count against another.",
["schedules","inputs","histories","configurations"],"every interleaving of concurrent queries across window boundaries, every client address and prefix setting",
"Over-admission needs concurrent queries straddling a window boundary; tests send sequential queries inside one window.",
["rate-limiter.go"],
[("window and counters","rate-limiter.go: Resolve")],
[("counters","queries per client network in the current window","rate-limiter.go")],
["which resolver receives each query"])

p("T01","A router sends each query to the first route whose every condition holds",
"A query is forwarded, unmodified, to the resolver of the first route in configured order that matches, and its result is returned as it is; if none matches the query fails with an error and reaches no resolver. A route matches when all of its given conditions (query type, class, name pattern, client network, client-subnet network, DoH path, listener, TLS server name, weekday, not-before and before time of day) hold, and an inverted route matches exactly when the same route not inverted would not. A condition on the client subnet holds only if the query carries one, and the last one given decides.",
["inputs","configurations","histories"],"every combination of conditions, inversion and route order, every query, client and time of day",
"The condition space is a product of a dozen independent conditions with inversion and ordering; tests sample a few rows.",
["router.go","route.go"],
[("matching","route.go: match"),("first match","router.go: Resolve")],
None,["which resolver receives the query"])

p("B01","Query block- and allowlists decide every query exactly by their rules",
"A query is blocked if and only if some blocklist rule matches its name (or, for device lists, the device address it carries) and no allowlist rule does; a domain rule 'x' matches x only, '.x' matches x and everything below, '*.x' only what is below, ignoring letter case and trailing dots and regardless of which other rules are listed or in what order, a regular expression matches the lower-case name, and a hosts rule matches its exact name. An allowed query goes to the upstream or the allowlist resolver; a reverse lookup of an address in a hosts list gets the listed names; any other blocked query goes to the blocklist resolver if configured, and otherwise gets NXDOMAIN, or the listed addresses of the queried family for a hosts rule, without anything being sent upstream. With several lists the first matching list decides the spoofed data.",
["inputs","configurations"],"every rule set (with overlapping, nested and duplicate rules in any order), every query name and type",
"Rule interaction depends on sets and insertion order of rules sharing suffixes; tests check small fixed lists.",
["blocklist.go","blocklistdb-domain.go","blocklistdb-regexp.go","blocklistdb-hosts.go","blocklistdb-multi.go","mac-db.go"],
[("decision order","blocklist.go: Resolve"),("domain rule tree","blocklistdb-domain.go"),("hosts rules","blocklistdb-hosts.go")],
None,["reply and which resolver was contacted"])

p("B02","Address and name filters never let a matching client or response through",
"A client whose address (or, if so configured, client-subnet address) lies in a listed network is refused or redirected and everyone else is passed through; a successful response containing, in any section, a listed address is replaced by NXDOMAIN or the alternative resolver's answer, or in filter mode has exactly the matching address records removed (NXDOMAIN or redirect if no answer remains), and likewise for responses containing a listed name in an alias, mail, name-server, pointer, service, text or authority record. In inverted mode the same holds for addresses or names that are not listed. Membership is exact for any set of IPv4/IPv6 networks, overlapping or nested, in any order.",
["inputs","configurations"],"every list of networks and names, every client address, every response",
"Membership in overlapping networks and per-section handling is a product space; tests sample a few addresses.",
["client-blocklist.go","response-blocklist-ip.go","response-blocklist-name.go","cidr-db.go","ip-blocklist-trie.go","ip-db-multi.go"],
[("network trie","ip-blocklist-trie.go"),("response scan","response-blocklist-ip.go/response-blocklist-name.go")],
None,["reply and which resolver was contacted"])

p("B03","List refresh is atomic and a failed refresh keeps the last good rules",
"Every query is judged by one complete version of each list that was loaded successfully, never by a partial, mixed or empty one, and each successful refresh takes effect for all queries that start after it. If a refresh fails in any way (missing or unreadable source, error status, connection cut mid-transfer, invalid rule) the previously active rules stay in force and later refreshes are still attempted. With a cache directory, the list stored there is always one complete downloaded list and is used at the next start.",
["fault_sequences","schedules","histories","crash_points"],"every sequence of source contents and failures over refreshes, every interleaving of queries with a refresh, every list type",
"A window in which a half-loaded or empty list is in force is only visible to a query racing the reload or to a specific failure in mid-transfer.",
["blocklist.go","client-blocklist.go","response-blocklist-ip.go","response-blocklist-name.go","blocklistloader-http.go","blocklistloader-local.go","blocklistdb-multi.go","atomicfile.go"],
[("refresh loops","blocklist.go/client-blocklist.go/response-blocklist-*.go"),("loaders","blocklistloader-*.go")],
[("active list","rules in force","blocklist.go")],
["verdicts for probe queries before, during and after refreshes","cache directory content"])

p("N01","A shared upstream connection gives each caller its own answer or an error",
"Over a shared upstream connection, whatever the server does (answers out of order, late, twice, with unknown IDs, with other questions or undecodable bytes, stays silent, closes, refuses to connect), every caller gets within its timeout either the response the server sent to that very query, with the caller's own transaction ID, or an error. Queries in flight at the same time carry distinct IDs on the wire, and one caller's timeout, failure or cancelled query never affects another's. After any disconnect the next query opens a new connection, and no answer from an earlier query or connection is ever delivered to a later one.",
["schedules","fault_sequences","histories"],"every interleaving of callers with server replies, losses, duplicates, disconnects and timeouts",
"The relevant interleavings (reply racing a timeout, write error racing a reply, reconnect with requests queued) are not reachable deterministically in the tests.",
["pipeline.go","dnsclient.go","dotclient.go","dtlsclient.go","message.go"],
[("request matching","pipeline.go: inFlightQueue"),("reader/writer life cycle","pipeline.go: start"),("question check","message.go: validateResponseQuestion")],
[("in-flight requests","wire ID to waiting caller","pipeline.go")],
["each caller's result and time","messages on the wire"])

p("N02","On every upstream transport a reply is accepted only if it answers the question",
"Over UDP, TCP, TLS, HTTPS, QUIC and oblivious HTTPS a resolver accepts a reply only if it decodes and repeats the question (name ignoring letter case, type, class) of the query; a reply without or with another question, an HTTP error status, an oversized body, a connection failure or silence beyond the timeout all yield an error and never an answer. The accepted reply is returned with the content the server sent, under the transaction ID of the query where the transport replaces IDs, and the caller's query message is not modified. Queries with EDNS0 are padded to a multiple of 128 bytes over TLS and HTTPS, padding is removed before sending in plain text, and over QUIC the ID is zero on the wire and the keep-alive option is never sent.",
["inputs","fault_sequences","configurations"],"every reply the server may produce for every query on every transport",
"Tests talk to well-behaved servers; the guarantee is about arbitrary replies.",
["dnsclient.go","dotclient.go","dtlsclient.go","dohclient.go","doqclient.go","odohclient.go","pipeline.go","message.go","padding.go"],
[("question check","message.go: validateResponseQuestion"),("HTTP reply handling","dohclient.go: responseFromHTTP"),("QUIC query/reply","doqclient.go: Resolve"),("padding","padding.go")],
None,["result returned to the caller","bytes received by the server"])

p("L01","Every query a listener accepts gets exactly one correct reply, on every protocol",
"For each query received over UDP, TCP, TLS, DTLS, HTTPS (GET or POST, over TCP or QUIC), QUIC or oblivious HTTPS, the client gets exactly one reply: the resolver's answer under the client's transaction ID, or SERVFAIL with the client's ID and question if resolving failed; if the resolver says drop, no DNS reply is sent (the connection is closed or, over HTTP, answered 403) and the listener keeps serving others. Queries without a question and undecodable requests never reach a resolver and never stop the listener, and unsupported HTTP methods, missing parameters and oversized bodies get an HTTP error. The resolver is told the true client address, protocol, listener, TLS server name and HTTP path.",
["inputs","schedules","fault_sequences"],"every request (well-formed or not) on every protocol, every resolver outcome, many concurrent clients",
"Tests send one good query per protocol; drops, errors, malformed requests and mixes of concurrent clients on one connection are a product space.",
["dnslistener.go","dotlistener.go","dtlslistener.go","dohlistener.go","doqlistener.go","odohlistener.go"],
[("common handler","dnslistener.go: listenHandler"),("HTTP handler","dohlistener.go"),("QUIC handler","doqlistener.go"),("oblivious handler","odohlistener.go")],
None,["bytes the client receives","queries and client information the resolver receives"])

p("L02","Only permitted clients ever reach a resolver",
"If a listener restricts client networks, a query from an address outside them never reaches the resolver (it is refused, or the connection is not served), and one from inside always does; with mutual TLS required, a client without a certificate from the configured authority is never served. The address used is that of the connection, except that behind a configured HTTP proxy network the last forwarded-for address is used if and only if the connection comes from that network and the address is valid and not loopback; nothing a client outside the proxy network sends can change the address attributed to it.",
["inputs","configurations"],"every allowed-network and proxy-network configuration, every client address and forwarded-for header, every protocol",
"Header parsing and network combinations are unbounded inputs; tests check a few.",
["dnslistener.go","dohlistener.go","doqlistener.go","odohlistener.go","tls.go"],
[("network check","dnslistener.go: isAllowed"),("forwarded-for handling","dohlistener.go: extractClientAddress"),("TLS client authentication","tls.go")],
None,["whether the resolver was called and with which client address"])

p("L03","Replies fit the client's transport and are padded only where encrypted",
"A reply over UDP or DTLS is never larger than the size the client advertised (512 bytes without EDNS0), and if records had to be left out it is marked truncated, otherwise it is complete; replies over stream transports are complete. Over TLS, DTLS and HTTPS a reply to an EDNS0 client is padded to a multiple of 468 bytes, limited by the client's advertised size, and over UDP and TCP no padding is sent; clients that did not use EDNS0 get no padding or EDNS0 record added by this. Apart from that the reply has the same response code, flags and records as the resolver's answer.",
["inputs","configurations"],"every answer size and shape, every advertised size, every protocol",
"Sizes interact with compression, padding and existing options; tests check a few fixed sizes.",
["dnslistener.go","padding.go","dohlistener.go"],
[("truncation","dnslistener.go: listenHandler"),("padding","padding.go: padAnswer/stripPadding")],
None,["bytes the client receives"])

p("S01","Forged data in signed zones never reaches the client as an answer",
"With DNSSEC validation on (and not in log-only mode), a successful or NXDOMAIN response is delivered only if every record set in its answer carries a currently valid signature by its zone whose keys chain through matching delegations to a configured trust anchor, or an authenticated proof shows the zone to be unsigned, and any claimed absence of the name or type is proven by authenticated denial records; otherwise the client gets SERVFAIL. This holds for records altered, added, unsigned, signed by a wrong, foreign or out-of-zone key, expired or not yet valid, for stripped or forged delegation and denial proofs, and for mixtures of valid and forged record sets in any order. Data served as authenticated is never accepted on the strength of keys beyond their TTL, and failures while fetching keys never turn into acceptance or a crash.",
["inputs","fault_sequences","histories","schedules"],"every zone hierarchy, every way an attacker may alter any message on the path, every order and repetition of queries",
"Attack combinations across messages (answer, key and delegation lookups) form a large product; tests cover a list of single alterations.",
["dnssec.go","dnssec/validator.go","dnssec/denial.go","dnssec/denial_existence.go","dnssec/keystore.go"],
[("chain of trust","dnssec/validator.go: Validate/validateRRset/buildChainOfTrust"),("denial proofs","dnssec/denial.go, dnssec/denial_existence.go"),("key cache","dnssec/keystore.go")],
[("validated keys","zone to keys with lifetime","dnssec/keystore.go")],
["reply to the client (records or SERVFAIL, AD flag)"])

p("S02","Valid and provably unsigned answers are delivered and labelled correctly",
"A response whose record sets all validate is delivered with the authenticated-data flag set, also while a zone is signed with several keys, several anchors are configured or names differ in letter case; one from a provably unsigned zone is delivered without being marked authenticated by the validator; other response codes, errors and drops are passed through. The validator always asks the upstream for DNSSEC data but the caller's query is not modified, and signature and denial records, the EDNS0 record and the DNSSEC-OK flag appear in the reply only if the client asked for them (or queried for that type). In log-only mode failing answers are delivered too, unmarked.",
["inputs","configurations","histories"],"every zone hierarchy and key set, every client flag combination, every response kind",
"False rejections and leaks depend on combinations of client flags, record types and zone layouts that tests only sample.",
["dnssec.go","dnssec/validator.go"],
[("wrapper","dnssec.go: Resolve/stripDNSSEC"),("validation","dnssec/validator.go")],
None,["reply to the client","query seen upstream"])

p("M01","Query modifiers change exactly what is configured and only on their own copy",
"The client-subnet, EDNS0-option and name-replacing elements forward exactly one query that differs from the received one only as configured: delete removes all matching options, add leaves exactly one with the configured or client address masked to the configured prefix, add-if-missing keeps existing ones, privacy masks the address bits beyond the prefix so that they never leave, replace applies its expressions in order. The message the caller passed in is never altered, whatever the upstream returns. The reply comes back as received except that a replaced name is put back in the question and in the answer records bearing it, so the rewritten name does not appear there.",
["inputs","configurations"],"every query with any EDNS0 content, every address and prefix, every replacement list",
"Leaks of address bits or in-place changes depend on option combinations and on what the caller does afterwards; tests check simple cases.",
["ecs-modifier.go","edns0-modifier.go","replace.go"],
[("subnet edits","ecs-modifier.go"),("option edits","edns0-modifier.go"),("name replacement","replace.go")],
None,["query seen upstream","caller's message after the call","reply"])

p("M02","Response modifiers transform answers as documented and touch nothing else",
"TTL limiting puts every record's TTL within the configured bounds after applying the configured selection (lowest, highest, average, first, last, random); minimizing removes exactly the authority and additional sections; collapsing keeps exactly the answer records of the queried type and class under the queried name, or returns the configured code if there are none; DNS64 adds synthesized addresses exactly when an IPv6 address query got a successful answer without one and the client did not ask for DNSSEC, one per IPv4 address and prefix with the standard embedding and the owner name of the IPv4 record; TCP probing only reorders address records and may raise their TTL; truncate-retry asks the second resolver exactly when the first answer was truncated; static answers are the configured records for the queried name. Errors, drops and responses the element does not apply to pass through unchanged, with the caller's transaction ID and question.",
["inputs","configurations"],"every upstream response (any sections, codes, types, TTLs), every option setting",
"Each element is a function over an unbounded message space; tests check a few messages each.",
["ttl-modifier.go","response-minimize.go","response-collapse.go","dns64.go","fastest-tcp.go","truncate-retry.go","static.go","static-template.go","drop.go"],
[("TTL selection and limits","ttl-modifier.go"),("collapse/minimize","response-collapse.go/response-minimize.go"),("synthesis","dns64.go"),("probing","fastest-tcp.go")],
None,["reply compared with the upstream's response"])

p("X01","The socket server hands out only the sockets it is allowed to",
"Unless it is configured to be unrestricted, the socket hand-out server gives clients only IPv4 or IPv6 TCP or UDP sockets, of exactly the requested kind, and answers any other request with a permission error and no descriptor; unrestricted, it returns what the operating system gives or its error. Malformed requests, disconnects and concurrent clients never stop it from serving others, never leak a descriptor to another client, and every well-formed request gets exactly one response in order. A stale socket file is replaced at start, a live one or another kind of file is not, and stopping removes it.",
["inputs","histories","schedules","configurations"],"every request (domain, type with flags, protocol), every sequence and interleaving of clients, malformed packets included",
"The request space is three integers with flag bits; tests check a few values.",
["xsocketserver_linux.go","xsocket_linux.go"],
[("request handling","xsocketserver_linux.go: handle/allowed"),("socket file life cycle","xsocketserver_linux.go: listen/Stop")],
None,["response and descriptor received by a client"])

p("U01","Failing or slow scripts never reduce capacity or leak between queries",
"A script element runs at most the configured number of scripts at the same time and, however many queries fail (script errors, wrong return values, upstream errors), afterwards still serves that many at once; each caller gets exactly what its own run returned: the message, a drop or an error. Sandboxed scripts cannot reach files, processes or load further code; a script without an entry point or with a syntax error is rejected at start.",
["schedules","fault_sequences","programs"],"every sequence and interleaving of succeeding, failing and slow runs, every attempt to reach a forbidden facility",
"Capacity loss shows only after as many failures as there are slots, mixed with concurrent load.",
["lua.go","lua-script.go"],
[("interpreter pool","lua.go: Resolve"),("sandbox","lua-script.go")],
[("free interpreters","slots available","lua.go")],
["replies and number of concurrently running scripts"])

p("P01","A configuration is accepted only if its graph is sound, and runs as written",
"The server starts if and only if every referenced resolver, group or router exists, no identifier is defined twice, no references form a cycle, and each element has the members and settings its type requires; otherwise it exits with an error before serving anything. Once started, a query entering a listener takes exactly the path the configuration describes, through every member, fall-back, allow-, block-, limit- and retry-resolver and route as configured.",
["configurations","inputs"],"every small configuration graph, including dangling, duplicate and cyclic references through every kind of reference",
"The set of reference graphs is combinatorial; tests load a few example files.",
["cmd/routedns/main.go","cmd/routedns/config.go","cmd/routedns/resolver.go"],
[("dependency graph and instantiation","cmd/routedns/main.go: start/instantiateGroup/instantiateRouter")],
None,["exit status and replies of the server process"])

p("W01","A listener in a network namespace follows the namespace's life cycle",
"A listener bound to a network namespace is started whenever the namespace appears and stopped whenever it disappears, never runs twice at once, is never left running once the namespace is gone, and after any finite sequence of appearances and disappearances, start failures and slow stops ends up running if and only if the namespace is present. A failed start while the namespace is present is retried. Each start uses a freshly built listener and the previous one has stopped before.",
["schedules","fault_sequences","histories"],"every sequence of namespace events interleaved with start failures, start delays and stop delays",
"The supervisor is a small concurrent state machine whose bad states need events arriving during a start, stop or retry delay.",
["cmd/routedns/main.go","netns_watch_linux.go"],
[("supervisor loop","cmd/routedns/main.go: runNetNSSupervisor")],
[("running listener","current instance or none","cmd/routedns/main.go")],
["Start/Stop calls on the built listeners"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
import re
for x in P:
    n=len(re.findall(r"[.!?](?:\s|$)",x["statement"]))
    if n>3: print(x["id"],n)
