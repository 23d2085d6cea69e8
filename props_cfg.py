"""What check.py runs for each property."""
TRUST = ["the simulator (sim/rt): sequentially consistent interleavings at every instrumented memory access and library synchronisation call; weaker-than-seq-cst reorderings are not produced, but the happens-before race detector judges every pair of plain accesses",
         "g++ 13 -O1 with its thread-sanitizer instrumentation stands for the shipped build",
         "seeded sampling: schedules and faults that were not drawn are not covered"]
CORE_STUB = "scheduler, clocks (monotonic and wall), mutexes, condition variables, thread creation and the allocator are simulated; everything else is the real code"
LV = "Seeded search over simulated executions: every failure is a real execution of the real code with a replay file; the absence of one is evidence in proportion to the runs reported, not proof. "
def core(scen, real, note, assume=(), **kw):
    d = dict(kind="core", scen=scen, real=real, stub=CORE_STUB, assume=TRUST + list(assume), level_note=LV + note,
             technique="deterministic simulation (seeded schedules and faults) " + kw.pop("oracle"), quick_s=30, thorough_s=1500)
    d.update(kw)
    return d
PROPS = {
 "C01": core(["value"], "core: Counter, Gauge, Family, Registry", "Linearizability of counter and gauge histories of up to about 25 calls from up to 5 threads, values exactly representable.",
             ["values chosen so that every partial sum is exact in double arithmetic", "NaN increments are not used"], oracle="with a linearizability checker"),
 "C02": core(["hist"], "core: Histogram, Gauge, Counter", "Linearizability of histogram histories against a reference histogram, including wrong-size bulk observations.",
             ["increments of a bulk observation are non-negative; its sum may be zero or negative", "NaN observations are not used"], oracle="with a linearizability checker"),
 "C03": core(["summ"], "core: Summary, TimeWindowQuantiles, CKMSQuantiles", "Linearizability of count and sum, with clock jumps and stalls of many windows' length.", oracle="with a linearizability checker"),
 "C04": core(["window"], "core: Summary, TimeWindowQuantiles, CKMSQuantiles", "Which observations may and must influence a quantile is derived from the simulated monotonic clock around every call.",
             ["max_age is positive and a multiple of age_buckets nanoseconds"], oracle="on a simulated clock, with a sliding-window oracle"),
 "C05": core(["quant"], "core: Summary, TimeWindowQuantiles, CKMSQuantiles", "Rank bounds against the exact multiset of observations.", oracle="with an exact rank oracle"),
 "C06": core(["family"], "core: Family<T> for all five metric types, builders, label hashing, name checks", "Linearizability of family histories against a reference map from labels to metric instances.", oracle="with a linearizability checker"),
 "C07": core(["registry"], "core: Registry, builders, Family<T>", "Linearizability of registry histories against a reference map from names to families, in both insert modes.", oracle="with a linearizability checker"),
 "C11": core(["serial"], "core: TextSerializer, Serializer", "The text is read back by an independent parser and compared with what was collected; streams with arbitrary formatting state that fail at an arbitrary byte.",
             ["finite values whose 16-digit decimal is outside the range of double are not used", "metric and label names are valid"], oracle="injecting stream faults, with an independent parser"),
}
NET_STUB = ("TCP (latency, segmentation, windows, resets, stalls), name resolution, clocks (monotonic and wall), scheduler, threads, mutexes, condition variables, allocator, "
            "system calls made by civetweb and libcurl, and the HTTP peers are simulated; civetweb 1.16, libcurl and zlib are the real shared libraries")
def net(*a, **kw):
    kw.setdefault("quick_s", 40)
    d = core(*a, **kw)
    d["kind"] = "net"; d["stub"] = NET_STUB
    return d
PULL = ["civetweb's own timeouts follow the wall clock and it gives a request 500 ms on a kept-alive connection: requests that took longer, or during which the wall clock was stepped, may be answered with an error",
        "exceptions and allocation failures inside a request are injected by the scenarios of C26 only"]
PROPS.update({
 "C12": net(["scrape", "scrape", "scrape", "rush"], "Exposer, Endpoint, MetricsHandler, metrics collector, serializer, core", "Every complete response is parsed by an independent HTTP, gzip and exposition reader and bounded by the history of updates.", PULL, oracle="of the HTTP server and its network, with an independent reader"),
 "C13": net(["member"], "Exposer, Endpoint, MetricsHandler, metrics collector", "Which collectables must, may and must not appear in a scrape follows from the recorded history of registrations, removals and destructions.", PULL, oracle="of the HTTP server and its network, with a membership oracle"),
 "C14": net(["auth"], "Exposer, Endpoint, BasicAuthHandler, base64", "Which callbacks may decide a request follows from the recorded history; credentials are decoded independently.", PULL + ["callbacks that throw are exercised under C26"], oracle="of the HTTP server and its network, with a reference authoriser"),
 "C15": net(["scrape", "scrape", "scrape", "rush"], "Exposer, Endpoint, MetricsHandler, core", "The exposer's own metrics are compared with what the simulated clients counted.", PULL, oracle="of the HTTP server and its network, with an accounting oracle"),
 "C16": net(["abuse", "siege"], "Exposer, Endpoint, MetricsHandler, BasicAuthHandler, metrics collector", "Misbehaving clients, connection faults and destruction at any point; service afterwards within a bound of simulated time; threads, sockets, memory and callbacks afterwards.",
            PULL + ["connections that civetweb accepted but never handed to a worker are closed only by the end of the process (civetweb forgets its queue when it stops) and are not counted against the exposer"], oracle="of the HTTP server with misbehaving clients and connection faults"),
})
PUSH = ["the gateway outlives the futures it returned, and collectables are not registered while it is being destroyed",
        "libcurl sends a request again if a kept-alive connection turns out to be closed before any byte of the answer: 'exactly once' is about requests that were not abandoned that way",
        "libcurl accepts a response whose header block is cut off by the end of the connection",
        "operator new, thread creation, curl_global_init, curl_easy_init, curl_slist_append and the setting of string options are made to fail; malloc inside libcurl is not"]
PROPS.update({
 "C17": net(["push"], "Gateway, CurlWrapper, label encoder, serializer, core", "Every request that reaches the simulated Pushgateway is decoded independently and assigned to one call and one collectable; statuses, order, bodies and results are compared with the recorded history.", PUSH, oracle="of the HTTP client, its network and its peer, with a reference push model"),
 "C18": net(["async"], "Gateway, CurlWrapper, std::async, label encoder, serializer, core", "Snapshots, completion, readiness of the future and its value are judged over the history of each run, with overlapping asynchronous calls.", PUSH, oracle="of the HTTP client, its network and its peer, with a history oracle"),
 "C19": net(["calls"], "Gateway, CurlWrapper, std::async, label encoder, serializer, core", "Every request must be explained by exactly one of the concurrent calls, and every call's outcome by its own requests.", PUSH, oracle="of the HTTP client, its network and its peer, with a matching oracle"),
 "C20": net(["outage"], "Gateway, CurlWrapper, std::async, label encoder, serializer, core", "Outages of every kind at any byte; the timeout is judged per request on the simulated monotonic clock; the first push after the outage must succeed.",
            PUSH + ["libcurl waits for a system resolver that does not return; requests during such a failure are given 41 s more"], oracle="injecting network outages, with an outcome oracle"),
 "C21": net(["conserve"], "Gateway, CurlWrapper, std::async, label encoder, serializer, core", "Library, allocation and thread-start failures anywhere; handles, global initialisations, header lists, sockets, threads and memory are counted afterwards.", PUSH, oracle="injecting failures of every step, with resource accounting"),
})
PROPS.update({
 "C08": net(["mix!m", "scrape!m", "mix!m", "calls!m", "mix!m", "member!m", "registry!m", "async!m", "auth!m", "family!m", "abuse!m", "oom_net!m", "rush!m"], "everything: core, pull and push", "Happens-before race detection, object-lifetime and bounds checking on every instrumented access, leak accounting.",
            ["memory accesses inside libstdc++.so, libc, civetweb, libcurl and zlib are not instrumented"] + PULL + PUSH, oracle="with happens-before race and memory checking"),
 "C10": net(["mix!p", "isolate", "isolate_net", "registry!p", "family!p", "scrape!p", "isolate_net", "calls!p", "isolate", "member!p", "auth!p", "async!p", "rush!p"], "everything: core, pull and push", "Deadlocks and lost wake-ups are exact (no runnable thread); starvation is a bound of synchronisation steps under a fair schedule; isolation is a 20 s bound while another thread is stalled for 100 s or more of simulated time.",
            PULL + PUSH, oracle="with deadlock and bounded-progress detection"),
})
PROPS.update({
 "C09": net(["oom", "oom", "oom", "oom_net", "oom", "oom", "oom", "oom"], "core: everything; Exposer, Endpoint, handlers, Gateway (registration)", "Every allocation of every call is made to fail in turn, sequentially and next to other threads, against a model of what each thread owns; registrations are judged by the scrapes and pushes that follow.",
            ["whether a URI with nothing registered on it is served at all after a failed call is not judged"] + PULL + PUSH, oracle="injecting every allocation failure, with a reference model"),
})
PROPS.update({
 "C25": net(["steady", "steady_net"], "everything: core, pull and push", "Rounds that all do the same and undo it, from several threads and under faults; the blocks and bytes in use after each round must not keep growing.",
            ["a metric that is still registered may remember what was observed (the quantile sketch of a summary is not bounded here)"] + PULL + PUSH, oracle="of long runs, with memory accounting over rounds"),
})
PROPS.update({
 "C26": net(["fails", "fails_push"], "Exposer, Endpoint, MetricsHandler, BasicAuthHandler, metrics collector, Gateway, CurlWrapper, serializer, core", "Exceptions of several types thrown by collectables and callbacks and failing allocations inside requests and pushes, judged by the answers, the accounts, and a fault-free epilogue.",
            ["operator new called by the code under test fails; malloc inside civetweb, libcurl and zlib does not (compression is made to fail as a whole)"] + [PULL[0]] + PUSH[:3], oracle="injecting exceptions and allocation failures into requests, with an answer and accounting oracle"),
})
NOT_APPLICABLE = {
 "C22": "a pure function of one string: there is no schedule, clock, I/O or party for a simulator to vary (the refusals of invalid names are exercised as refused calls under C06, C07 and C09)",
 "C23": "a pure function of one byte string: nothing to schedule or to fault (the codecs run for real inside C14, C17 and C19, where their results are decoded independently)",
 "C24": "a pure function of one label set: no nondeterminism to control (hash-dependent lookup is exercised under C06)",
}
