import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
CI="core/include/prometheus/"; CS="core/src/"
p("C01","Counters and gauges never lose, double or tear an update",
 "Every call on a counter or gauge shared by any number of threads takes effect exactly once, at one instant between its call and its return: increments and decrements add exactly their argument, Set and Reset store exactly the given value (zero), and Value and Collect return the value of that instant. A counter never goes down except through Reset, and a negative increment of a counter changes nothing. SetToCurrentTime stores the wall-clock time, in whole seconds, of an instant within the call, also when the wall clock is stepped.",
 ["schedules","histories","fault_sequences"],"every interleaving of any number of threads calling any mix of these operations on the same object, including spurious failures of weak compare-and-swap and wall-clock jumps",
 "The unit tests call each operation from one thread; a lost update needs a context switch between the load and the write-back or a compare-and-swap that fails, which the tests never produce deliberately.",
 [CS+"counter.cc",CS+"gauge.cc",CI+"counter.h",CI+"gauge.h"],"atomic double updated by a compare-exchange retry loop (fetch_add from C++20 on)",[("value_","current value")])
p("C02","Histogram observations and snapshots are atomic",
 "Observe, ObserveMultiple, Reset and Collect on a shared histogram each take effect at one instant between call and return, so a collected snapshot never shows part of an observation, of a bulk observation or of a reset. In every snapshot each observation is counted in the bucket with the smallest upper bound that is greater than or equal to it and in every larger one, bucket counts are cumulative and end with +Inf, whose count equals the sample count, and the sample sum is the sum of exactly the counted observations. A bulk observation with the wrong number of buckets throws and leaves the histogram unchanged.",
 ["schedules","histories","inputs"],"every interleaving of observing, bulk observing, resetting and collecting threads and every observed value, including the bucket boundaries themselves and infinities",
 "The tests observe from one thread, so no snapshot is ever taken in the middle of an observation, a bulk observation or a reset.",
 [CS+"histogram.cc",CI+"histogram.h"],"one mutex per histogram around sum and bucket updates and the snapshot; binary search on the boundaries",[("bucket_counts_","per-bucket counters"),("sum_","sum of observations")])
p("C03","Summary count and sum are atomic and never age",
 "Observe and Collect on a shared summary each take effect at one instant between call and return: every snapshot's sample count and sample sum belong to the same set of observations and contain every observation that returned before the collection began. Count and sum cover all observations since construction: neither the passing of time nor the age of the observations, nor any quantile configuration, ever removes one. A snapshot lists exactly the configured quantiles, in the configured order.",
 ["schedules","histories","configurations"],"every interleaving of observing and collecting threads, every quantile/age configuration and every advance of the clocks between the calls",
 "The tests observe from a single thread and in one short burst of real time.",
 [CS+"summary.cc",CI+"summary.h"],"one mutex per summary around count, sum and the quantile estimator",[("count_","observations so far"),("sum_","sum so far")])
p("C04","Summary quantiles cover exactly the sliding time window",
 "An observation older than the summary's max_age never influences a reported quantile, and an observation younger than max_age*(1-1/age_buckets) always takes part, however long the gaps between calls are and whichever threads make them. Age is measured on the monotonic clock only: stepping the wall clock forward or backward changes nothing. When the window holds no observation every quantile is NaN.",
 ["histories","schedules","fault_sequences"],"every history of observations and collections at arbitrary times, every max_age and number of age buckets, every monotonic pause/suspend jump and wall-clock step",
 "The one existing test sleeps a second of real time with a single configuration; gaps of many windows, rotations at exact boundaries, suspends and wall-clock steps are out of its reach.",
 [CS+"detail/time_window_quantiles.cc",CI+"detail/time_window_quantiles.h",CS+"summary.cc"],"ring of quantile estimators reset one per max_age/age_buckets of elapsed monotonic time",[("current_bucket_","estimator that is reported"),("last_rotation_","time of the last rotation")])
p("C05","Summary quantiles are observed values of about the right rank",
 "Every quantile a summary reports while its window is non-empty is one of the values observed in that window. For a quantile q configured with a tolerated error e of at most a tenth of its distance to 0 and to 1, the value reported when n values are in the window has a rank within 2*e*n plus 5 ranks of q*n, for any order and distribution of the observations and any interleaving of observing and collecting.",
 ["histories","inputs","schedules"],"every sequence of observed values (sorted, reversed, repeated, interleaved, crossing the internal buffering threshold) interleaved with collections at any point, from any number of threads and across window rotations",
 "The tests check two fixed data sets collected once at the end; how collecting in the middle (which flushes and compresses the estimator) affects accuracy is never sampled.",
 [CS+"detail/ckms_quantiles.cc",CI+"detail/ckms_quantiles.h",CS+"summary.cc"],"CKMS biased-quantile stream summary with a batch insertion buffer",[("sample_","compressed samples"),("buffer_","values not merged yet")])
p("C06","A family holds exactly one metric per label set",
 "On a family shared by any threads, Add, Remove, Has and Collect each take effect at one instant: adding the same labels again, concurrently or later, returns the one existing metric and keeps its value and configuration, adding after a removal starts a fresh metric, and removing drops only that metric. Every collection lists exactly the metrics present at one instant, each once, labelled with the family's constant labels followed by its own labels, under the family's name, help and type; a family without metrics yields nothing. Adding a metric with an invalid label name or one that collides with a constant label throws and leaves the family unchanged, even momentarily, for every other thread.",
 ["schedules","histories","inputs"],"every interleaving of adding, removing, querying, updating and collecting threads over any label sets, valid or not",
 "The tests use one thread; two threads adding the same labels at once, or collecting while another thread's invalid metric is being refused, never happen there.",
 [CS+"family.cc",CI+"family.h",CS+"detail/utils.cc"],"hash map from labels to owned metric under the family's mutex",[("metrics_","label set to metric")])
p("C07","A registry never mixes up family names, types or owners",
 "On a registry shared by any threads, registering, removing and collecting families each take effect at one instant; a name is never held by two families of one registry at once, whatever their types. Registering a name that is taken by another type always throws; by the same type it throws in Throw mode, and in Merge mode returns the existing family if the constant labels are equal and throws otherwise; a refused registration changes nothing. Remove returns true exactly for a family the registry holds and then only that family disappears; a collection contains every family held at one instant exactly once and no other.",
 ["schedules","histories","configurations"],"every interleaving of registrations, removals and collections from any threads, both insert behaviours, all five metric types and any constant labels",
 "The tests register from one thread; the check-then-insert window between two registrations of one name is never exercised.",
 [CS+"registry.cc",CI+"registry.h",CS+"detail/builder.cc"],"per-type family vectors under the registry's mutex",[("counters_, gauges_, histograms_, infos_, summaries_","families held")])
p("C08","Concurrent use of the library is free of data races and memory errors",
 "Any mix of the documented thread-safe operations on metrics, families, registries, serializers and gateways, run from any number of threads, performs no data race, no access to freed or out-of-bounds memory, no double free, and no undefined abort. Objects that the program removes or destroys while other threads keep collecting through weak references stay valid until the last collection using them ends. When all objects are destroyed, all memory the library allocated has been released.",
 ["schedules","histories"],"every interleaving of any mix of the thread-safe calls, including object removal and destruction concurrent with collection",
 "The tests are single threaded (apart from the HTTP server's own threads) and are not run under a race detector; a race also needs the right interleaving to do damage.",
 [CS+"family.cc",CS+"registry.cc",CS+"histogram.cc",CS+"summary.cc",CS+"gauge.cc","pull/src/handler.cc","push/src/gateway.cc"],"mutex per object, atomics for values, weak/shared pointers for ownership")
p("C09","A failed allocation leaves every object unchanged and usable",
 "If a memory allocation fails inside any call on metrics, families, registries, serializer, or when registering collectables, the call reports it as std::bad_alloc, holds no lock, leaks nothing and leaves the object as it was before the call: nothing is half added, half observed, or lost. The same call made again once memory is available succeeds, and all later results are as if the failed call had never been made.",
 ["fault_sequences","inputs"],"every allocation made inside every such call failing in turn, at any point of a history and with other threads using the same objects",
 "No test makes an allocation fail.",
 [CS+"family.cc",CS+"registry.cc",CS+"summary.cc",CS+"detail/ckms_quantiles.cc",CS+"histogram.cc",CS+"text_serializer.cc","push/src/gateway.cc"],"RAII locks, build-then-publish ordering, container strong guarantees")
p("C10","No set of concurrent calls deadlocks or starves",
 "Every call on metrics, families, registries, exposers and gateways returns once the threads involved are scheduled fairly and the callbacks, collectables and peers it waits for respond: no combination of concurrent calls deadlocks, loses a wake-up or spins for ever. A thread that stalls in the middle of a call on one object does not stop calls on unrelated objects, and in particular a stall while one collectable is being collected stops neither updates of the metrics nor registration elsewhere.",
 ["schedules","fault_sequences"],"every interleaving of any mix of calls, including collectables that call back into other registries, and arbitrarily long stalls of any thread at any point",
 "A deadlock needs two threads to take locks in conflicting order at the same time; the tests are single threaded.",
 [CS+"registry.cc",CS+"family.cc",CS+"histogram.cc","pull/src/handler.cc","pull/src/exposer.cc","push/src/gateway.cc","push/src/detail/curl_wrapper.cc"],"lock hierarchy exposer/handler/gateway -> registry -> family -> metric; each level private to its object")
p("C11","Serialised text says exactly what was collected, on any stream",
 "Serialising any collected families yields valid Prometheus text exposition format (0.0.4) that parses back to the same families in the same order: name, type, help, labels and timestamps exactly, counts exactly and other values to 16 significant digits, with NaN and infinities, whatever characters help texts and label values contain. The text does not depend on the caller's stream or global locale, formatting flags, precision, width or fill, nor on concurrent serialisations elsewhere, and the stream's locale and formatting are afterwards as before. If the stream fails in the middle, what it received is a prefix of that text and its formatting state is restored too, also when the failure is thrown as an exception.",
 ["inputs","configurations","fault_sequences","schedules"],"every collection of families, every initial state of the output stream, every point at which a write to the stream fails (short write, exception), every interleaving with other threads' serialisations",
 "The tests serialise single metrics into fresh string streams under one locale; failing streams, prepared stream flags and unusual help texts are not sampled.",
 [CS+"text_serializer.cc",CS+"serializer.cc",CI+"text_serializer.h"],"writes through a std::ostream imbued with the classic locale for the duration of the call")
p("C12","Every complete scrape response is well-formed and faithful",
 "Every HTTP response to a scrape that reaches the client completely has status 200, Content-Type text/plain, a Content-Length (and, only if the client's Accept-Encoding names gzip, Content-Encoding gzip) that matches the body exactly, and a body that after decoding is the valid exposition of the collectables registered on exactly that URI. Each value in it lies between the metric's value before the request was sent and after the response was received. This holds for any number of concurrent clients and URIs, any segmentation, delay or loss of connections, and also when compression is impossible, in which case the body is sent uncompressed.",
 ["schedules","fault_sequences","configurations"],"every interleaving of server threads, updating threads and clients; every segmentation, delay, stall and reset of the connections; every failure of the compressor; any body size",
 "The existing exposer test only opens ports; nothing issues concurrent scrapes, slow reads, large bodies or compressor failures.",
 ["pull/src/handler.cc","pull/src/endpoint.cc","pull/src/exposer.cc","pull/src/metrics_collector.cc"],"request handler per URI: collect, serialise, optionally gzip, write header and body")
p("C13","Scrapes show exactly the live, registered collectables",
 "Once registering a collectable on a URI has returned, every scrape of that URI begun afterwards contains its metrics until it is removed or destroyed; once removing it has returned, no scrape of that URI begun afterwards contains its metrics and it is not called on behalf of that URI any more. A collectable that expired is skipped without affecting the others, a collectable in use by a scrape stays alive until that scrape has collected it, and URIs do not affect one another. Registering or removing never waits for a client that reads slowly.",
 ["schedules","histories","fault_sequences"],"every interleaving of registration, removal, destruction and scraping on any number of URIs, including clients that stall while reading the response",
 "The tests never scrape through the server, let alone while collectables come and go.",
 ["pull/src/handler.cc","pull/src/metrics_collector.cc","pull/src/endpoint.cc","pull/src/exposer.cc"],"vector of weak pointers under the handler's mutex, locked to shared pointers one by one during collection",[("collectables_","registered collectables of one URI")])
p("C14","Protected endpoints never answer without the callback's consent",
 "Once RegisterAuth for a URI has returned, every later request to that URI gets metrics only if it carries well-formed Basic credentials and the callback registered last accepted exactly the user name (up to the first colon) and password (the rest, any bytes) sent; every other request, including missing, malformed or undecodable headers, gets status 401 with the configured realm and no metrics. While a callback is being replaced each request is decided by the old or by the new one, never by none and never by a destroyed one. URIs of which neither is, ignoring case, a prefix of the other do not affect one another.",
 ["schedules","inputs","fault_sequences"],"every Authorization header, every interleaving of requests with the registration and replacement of callbacks, slow callbacks and stalled or reset clients",
 "Nothing in the test suite sends a request to a protected endpoint; replacement while a request is in flight needs a particular interleaving.",
 ["pull/src/basic_auth.cc","pull/src/endpoint.cc","pull/src/exposer.cc","util/include/prometheus/detail/base64.h"],"HTTP server auth hook per URI calling the user's callback",[("auth_handler_","handler in force")])
p("C15","The exposer's own metrics account for every scrape",
 "Each URI reports, among its metrics, the number of scrapes it has served, the number of body bytes it has transferred (as sent, after compression) and a latency summary in microseconds of monotonic time with one observation per scrape. Whenever no scrape of that URI is in progress they are exact; in any response they never count a scrape that had not yet been requested, and they never decrease. Wall-clock steps do not influence the latencies.",
 ["schedules","histories","fault_sequences"],"every interleaving of concurrent scrapes of any URIs with compressed and uncompressed, slow and failing clients, and every step of the wall clock",
 "No test reads the self-metrics after more than zero scrapes.",
 ["pull/src/handler.cc","pull/src/handler.h","pull/src/endpoint.cc"],"counters and summary updated at the end of the request handler")
p("C16","The exposer survives bad clients and shuts down cleanly",
 "Whatever clients do - connect and send nothing, send garbage or half a request, read slowly, stop reading, or reset the connection at any byte - the exposer never crashes, corrupts or permanently loses a worker: while they occupy fewer than all workers, and always once they are gone, well-behaved scrapes and calls on the exposer are served within bounded time. Destroying the exposer at any moment, with requests in flight, returns in bounded time, after which no collectable or callback is called again, no thread, memory or socket it served remains, and the port can be bound again.",
 ["fault_sequences","schedules","crash_points"],"every sequence of client misbehaviour and connection faults at any byte, and destruction of the exposer at any point of any number of in-flight requests",
 "The tests destroy idle exposers only.",
 ["pull/src/exposer.cc","pull/src/endpoint.cc","pull/src/handler.cc"],"exposer destructor: endpoints unregistered, server stopped (workers joined), endpoints destroyed")
p("C17","Push delivers each live collectable once, faithfully, in order",
 "A successful Push (POST) or PushAdd (PUT) delivers, in registration order, exactly one request per collectable alive at that time and none for others, to a URL that decodes to the job name, the gateway's labels and the collectable's labels whatever characters these contain, with the configured credentials, Content-Type and added headers and a body that is exactly the exposition of that collectable at an instant within the call. It returns 200 only if the Pushgateway answered every request with a status from 100 to 399; otherwise it stops at the first failing one and returns its HTTP status, or a negative value if no valid HTTP response arrived.",
 ["histories","inputs","fault_sequences","schedules"],"every job name, label set, set of collectables and server behaviour (statuses, delays, resets, split responses), with concurrent updates and registrations",
 "No test performs an HTTP request.",
 ["push/src/gateway.cc","push/src/detail/curl_wrapper.cc","push/src/detail/label_encoder.cc"],"sequential loop over weak pointers; one libcurl handle")
p("C18","Asynchronous push is complete, unmixed and truthful",
 "AsyncPush and AsyncPushAdd snapshot every live collectable before they return, and the future they give becomes ready only after the request of each of them has been completed exactly once, each body with its own URL, in any order and under any number of overlapping pushes. The future's value is 200 exactly if all these requests were answered with a status from 100 to 399, and otherwise one of the failures. AsyncDelete and AsyncDeleteForInstance behave like their synchronous forms.",
 ["schedules","fault_sequences","histories"],"every interleaving of the request threads, any number of overlapping asynchronous operations, and every server behaviour and network fault",
 "No test performs an asynchronous push.",
 ["push/src/gateway.cc"],"one async task per collectable plus one reducing task")
p("C19","Concurrent gateway calls never mix requests",
 "When threads use one gateway concurrently (push, push-add, delete, delete-for-instance, adding headers, registering collectables, asynchronous variants), every request that reaches the Pushgateway is one whole, correctly framed request of exactly one of those calls: its method, URL, headers, credentials and body belong together, and each call returns the outcome of its own requests. A delete request names exactly the job (or job plus gateway labels) and carries no body; a header whose addition returned true is part of every request begun afterwards, one whose addition returned false of none, and the HTTP client handle is never used by two threads at once.",
 ["schedules","histories","fault_sequences"],"every interleaving of any mix of gateway calls with any server behaviour, response delays and failing header additions",
 "The tests never use a gateway from two threads, or at all over a connection.",
 ["push/src/gateway.cc","push/src/detail/curl_wrapper.cc"],"mutex around the whole use of the curl handle; handle reset before every request")
p("C20","Pushes report network failures within the timeout and recover",
 "With a gateway timeout of t seconds every single request ends within t (plus a small constant) of simulated time, whatever the network does - refused, unanswered, reset, stalled or never-ending connections, failing name resolution (a system resolver that does not return cannot be interrupted) - and reports a failure exactly when no complete valid response below status 400 was received, for every call made and not only the first. A timed-out or failed push never reports success, never hangs other callers beyond their own timeouts, and leaves the gateway usable: the next push after the faults cease is delivered completely.",
 ["fault_sequences","schedules","histories"],"every sequence of connection faults at any byte and any time, in any order relative to the pushes of any number of threads",
 "No test has a network, let alone a failing one.",
 ["push/src/gateway.cc","push/src/detail/curl_wrapper.cc"],"libcurl timeout option set through the preset callback on every request; curl error codes returned negated")
p("C21","The gateway conserves its resources on every failure path",
 "Whichever initialisation, allocation, header, thread-start or transfer step of a gateway fails, every HTTP-client handle, global initialisation, header list, socket, thread and byte of memory it acquired is released exactly once by the time the gateway is destroyed or its construction has thrown. A failing step is reported to the caller (as an exception from construction, false from adding a header, an exception or failure result from a push) and leaves a constructed gateway usable.",
 ["fault_sequences","crash_points"],"every call the gateway makes into the HTTP client, allocator and thread library failing in turn, at any point of any use of the gateway",
 "No test makes a library call fail.",
 ["push/src/detail/curl_wrapper.cc","push/src/gateway.cc"],"constructor/destructor pairing of curl global, easy and slist resources")
p("C22","Metric and label name grammar",
 "Metric names are accepted exactly if they match [a-zA-Z_:][a-zA-Z0-9_:]* and do not start with two underscores; label names exactly if they match [a-zA-Z_][a-zA-Z0-9_]*, do not start with two underscores, and are not le on a histogram or quantile on a summary.",
 ["inputs"],"every byte string","The tests list a dozen names.",
 [CS+"check_names.cc"],"character predicates over the name")
p("C23","Base64 and URL label encoding are exact inverses",
 "Decoding what the base64 and URL-safe base64 encoders produce gives back the original bytes for every string, and decoding a malformed string throws.",
 ["inputs"],"every byte string","The tests list a dozen strings.",
 ["util/include/prometheus/detail/base64.h","push/src/detail/label_encoder.cc"],"table-driven codec")
p("C24","Label hashing is a function of the label set",
 "Two equal label sets have equal hashes, in every process and build of the same platform, and hashing distinguishes label sets well enough for constant-time lookup.",
 ["inputs"],"every label set","The tests compare a few pairs.",
 [CS+"detail/utils.cc",CS+"detail/hash.h","core/include/prometheus/detail/utils.h"],"hash_combine over name and value")
p("C25","A long-running process does not accumulate memory",
 "Whatever is created and given up again, over and over, leaves nothing behind while the process goes on: metrics and families that are removed, registries that are destroyed or unregistered from an exposer, collectables that expire, calls that are refused or fail, collections, serialisations, scrapes (served, refused or broken off), callbacks that are replaced, pushes and deletions (synchronous or not, successful or failed), and whole exposers and gateways. However often the same uses are repeated, from any threads and under any faults, the memory the library holds stays below a fixed amount, except for what still registered metrics remember of their observations.",
 ["histories","schedules","fault_sequences"],"every repetition of every mix of uses, from any number of threads, with failing allocations, threads, compression, connections and HTTP client calls in between",
 "The tests do everything once in a process that then ends; nothing they check depends on what is left behind.",
 [CS+"family.cc",CS+"registry.cc","pull/src/handler.cc","pull/src/endpoint.cc","pull/src/exposer.cc","push/src/gateway.cc","push/src/detail/curl_wrapper.cc"],"weak pointers with clean-up on registration; unique ownership of metrics and families; one replaceable handler per URI")
p("C26","A failure inside one request or push costs only that one",
 "If a collectable or an authentication callback throws, or a memory allocation fails while metrics are collected or turned into text for a request, the process goes on and only that request is affected: it gets a complete answer with status 500, or 401 if it could not be authorised - never status 200 without all metrics of the URI, never metrics without the callback's consent - and the exposer's own metrics count exactly the requests answered with 200. If that happens during a push, the call ends with that exception (an asynchronous one may pass it on through its future) and nothing incomplete is sent. In either case nothing stays locked or leaks, and all later requests, pushes and other calls behave as if it had not happened.",
 ["fault_sequences","schedules","crash_points"],"every allocation while metrics are collected and turned into text, and of every push, failing in turn, every exception type thrown by any collectable or callback at any collection, next to any other requests, pushes and calls",
 "No test lets a collectable, a callback or an allocation fail while a request is served.",
 ["pull/src/handler.cc","pull/src/basic_auth.cc","pull/src/metrics_collector.cc","push/src/gateway.cc"],"exceptions are caught before they reach the C code of the HTTP server; RAII for locks and compressor")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
