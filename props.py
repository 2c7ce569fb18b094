"""Per property: how its harness is built and run, and what the manifest says about it."""
O = ["onionh.cpp"]
H = ["onionh.cpp", "http.cpp"]
TRUST = " Trusts clang's sanitizers, the harness oracle and the in-memory transport; sampling, not proof."
PROPS = {
    "C01": {"src": "c01_chunking.cpp", "extra_src": H, "fuzz_s": 240,
            "technique": "property-based testing: metamorphic relation over generated request streams and read partitions",
            "note": "Randomly generated valid and damaged request streams, each delivered in one read and in generated partitions, must show the handler the same request and give the same replies." + TRUST},
    "C02": {"src": "c02_fidelity.cpp", "extra_src": H, "fuzz_s": 120,
            "technique": "property-based testing: abstract request generated, encoded, and compared with what the handler reads",
            "note": "Round trip from an abstract request model through a wire encoder to the request accessors." + TRUST},
    "C03": {"src": "c03_robust.cpp", "extra_src": H + ["fakepam.cpp", "tmpwatch.cpp"], "wrap": ["mkstemp"], "fuzz_s": 300,
            "technique": "structured and coverage-guided fuzzing under ASan/UBSan with leak, descriptor and temporary file accounting",
            "note": "Generated and mutated byte streams against a server mounting the library's handlers; a crash, hang, sanitizer report, leak or dead server is a violation." + TRUST},
    "C04": {"src": "c04_limits.cpp", "extra_src": H + ["tmpwatch.cpp"], "wrap": ["mkstemp", "write"], "fuzz_s": 120,
            "technique": "property-based testing with fault injection: generated limits, body sizes, truncations and disk faults",
            "note": "Bodies sized around generated limits, truncated or with failing temporary files; acceptance follows an exact size model, temporary files are tracked by a wrapped mkstemp." + TRUST},
    "C05": {"src": "c05_framing.cpp", "extra_src": H, "fuzz_s": 120,
            "technique": "property-based testing: generated handler programs and transport faults against a strict HTTP reply reader",
            "note": "Generated handler programs run over full, short and failing transports; the bytes sent are read by an independent strict HTTP/1.x reader and compared with what the program wrote." + TRUST},
    "C06": {"src": "c06_keepalive.cpp", "extra_src": H, "fuzz_s": 120,
            "technique": "metamorphic property-based testing: request histories on one connection versus each request alone",
            "note": "Sequences of generated requests on one connection must get byte-identical replies (dates and session ids masked) to the same requests on fresh servers." + TRUST},
    "C07": {"src": "c07_routing.cpp", "extra_src": H, "fuzz_s": 120,
            "technique": "model-based property testing: generated route trees and paths against an independent matcher",
            "note": "Generated trees of routers, path handlers and chains; which handler runs, the path it is left with and the captured groups are compared with an independently written evaluator." + TRUST},
    "C08": {"src": "c08_export.cpp", "extra_src": H, "fuzz_s": 60,
            "technique": "property-based testing: generated directory trees and request paths against path resolution by the system",
            "note": "Generated trees with links, look-alike siblings and hostile names, exported by an unprivileged process; replies are compared with what the requested path really resolves to, listings are parsed and compared with the directory." + TRUST},
    "C09": {"src": "c09_files.cpp", "extra_src": H, "wrap": ["read"], "fuzz_s": 60,
            "technique": "property-based testing: generated files, ranges, tags and changes against a byte-range model",
            "note": "Generated files and histories of whole, ranged, conditional and HEAD requests over the in-memory transport and real sockets (sendfile), compared with slices of the known content." + TRUST},
    "C10": {"src": "c10_webdav.cpp", "extra_src": H, "wrap": ["rename", "write"], "fuzz_s": 60,
            "technique": "model-based stateful property testing with fault injection: WebDAV histories against a shadow directory tree",
            "note": "Histories of WebDAV requests run by an unprivileged process on a scratch share; after each one the share must equal a shadow tree on which the harness did the same with plain system calls, and a canary tree around it must be untouched." + TRUST},
    "C11": {"src": "c11_dict.cpp", "extra_src": O, "wrap": ["strcmp", "strcasecmp"], "fuzz_s": 120,
            "technique": "model-based stateful property testing of dictionary histories",
            "note": "Operation histories compared after each step with a reference multimap, under ASan with leak accounting." + TRUST},
    "C12": {"src": "c12_json.cpp", "extra_src": H, "fuzz_s": 120,
            "technique": "property-based testing: round trip, and differential test against an independent JSON reader",
            "note": "Generated dictionaries and texts against an independent JSON implementation, under ASan." + TRUST},
    "C13": {"src": "c13_codecs.cpp", "extra_src": O, "fuzz_s": 120,
            "technique": "property-based testing: round trips and differential tests against independent codecs",
            "note": "Generated byte strings and malformed encodings against independently written decoders, in exactly sized buffers under ASan." + TRUST},
    "C14": {"src": "c14_block.cpp", "extra_src": O, "fuzz_s": 60,
            "technique": "model-based stateful property testing of append histories",
            "note": "Append histories compared with a std::string after every step, under ASan." + TRUST},
    "C15": {"src": "c15_sessions.cpp", "extra_src": H + ["fakeredis.cpp"], "fuzz_s": 90,
            "technique": "model-based stateful property testing of multi-client session histories over both stores",
            "note": "Histories of requests by several clients with honest, forged, stale and damaged cookies over the in-memory and SQLite stores (with restarts and two servers on one file), compared with a map from session id to contents." + TRUST},
    "C16": {"src": "c16_wsin.cpp", "extra_src": H + ["ws.cpp"], "wrap": ["poll", "sleep"], "fuzz_s": 90,
            "technique": "property-based testing: generated frame streams and read patterns against an independent WebSocket encoder",
            "note": "Generated handshakes and client frame streams in generated pieces, read by generated applications; bytes, opcodes, pongs and close answers are compared with the stream that was encoded." + TRUST},
    "C17": {"src": "c17_wsout.cpp", "extra_src": H + ["ws.cpp"], "wrap": ["poll", "sleep"], "fuzz_s": 60,
            "technique": "property-based testing: generated write programs and transport faults against an independent frame decoder",
            "note": "Generated programs of writes, prints, opcode changes and closes over whole, partial and failing transports; the bytes sent are decoded by a strict independent decoder and compared with what the program passed." + TRUST},
    "C18": {"src": "c18_poller.cpp", "extra_src": O, "wrap": ["epoll_wait", "clock_gettime", "timerfd_create", "timerfd_settime", "shutdown"], "fuzz_s": 90,
            "technique": "model-based stateful property testing under a virtual clock: scripts of events, timeouts and callbacks",
            "note": "The real poller runs on real epoll and socket pairs; clock and timer are virtual, so that the script decides every arrival and every passing of time; readiness is judged by poll(2), deadlines by the script's own clock. The default queue size of one event is used." + TRUST},
    "C19": {"src": "c19_auth.cpp", "extra_src": H + ["fakepam.cpp"], "fuzz_s": 60,
            "technique": "model-based property testing: generated credential and session histories against a stand-in authenticator",
            "note": "Histories of requests with right, near-miss and damaged credentials and sessions; libpam is replaced by a recording stand-in with a generated user table, which says what each request deserves." + TRUST},
    "C20": {"src": "c20_cookies.cpp", "extra_src": H, "wrap": ["time"], "fuzz_s": 60,
            "technique": "property-based testing: generated cookies at a virtual clock, read back from the reply by an independent reader",
            "note": "Generated cookies around every limit, at a virtual clock; each accepted one must come back from the parsed reply as set, each refused one leave no trace." + TRUST},
    "C21": {"src": "c21_opack.cpp", "extra_src": H + ["gencode.cpp"], "wrap": ["fopen"], "repo_extra": ["tools/opack/*.c", "tools/common/*.c"], "extra_cflags": ["-Dmain=opack_main"], "libs": ["-rdynamic", "-ldl"],
            "technique": "property-based testing: generated trees are packed by the real tool, compiled, loaded and served, against the files on disk",
            "note": "Generated directory trees and files are packed by the real tool in a child process, the output is compiled with gcc and loaded into the harness, and every path is requested; served bytes, lengths and types are compared with the files. A fixed media type table stands in for /etc/mime.types." + TRUST},
    "C22": {"src": "c22_template.cpp", "extra_src": H + ["gencode.cpp"], "repo_extra": ["tools/otemplate/*.c", "tools/common/*.c"], "extra_cflags": ["-Dmain=otemplate_main"], "libs": ["-rdynamic", "-ldl"], "quick_s": 30,
            "technique": "property-based testing: generated templates are compiled by the real tool and gcc, rendered with generated contexts and compared with an independent evaluator",
            "note": "Generated templates and contexts; the tool runs in a child process, its output is compiled and loaded, and every rendering must equal what a separate evaluator of the template tree gives. Generated mistakes must be reported without a crash or output." + TRUST},
    "C23": {"src": "c23_concurrent.cpp", "extra_src": O + ["net.cpp", "perturb.cpp", "fakeredis.cpp"], "wrap": ["epoll_ctl", "epoll_wait", "close", "eventfd", "sqlite3_step", "timerfd_create", "accept", "accept4", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_rwlock_unlock"], "variants": ["tsan", "asan"], "share": {"tsan": 0.8, "asan": 0.5}, "quick_s": 30,
            "technique": "property-based testing of generated concurrent client scripts on real sockets and threads, under ThreadSanitizer and AddressSanitizer",
            "note": "Generated scripts run by real client threads against a pooled server, and by threads on shared dictionaries and session stores; each reply must be the one its own request deserves, counters must be linear, and ThreadSanitizer must see no race. Schedules are the ones the kernel gives; libraries the server calls are not instrumented." + TRUST},
    "C24": {"src": "c24_https.cpp", "extra_src": H + ["net.cpp"], "quick_s": 30,
            "technique": "differential property-based testing: generated request scripts over TLS and plain text, with record cutting and broken handshakes",
            "note": "Generated requests go to one server over TLS (several versions and suites, generated record and TCP cutting, key updates) and in plain text; the replies must agree. Broken, silent and plain clients must be dropped without reaching a handler while good ones are served. The GnuTLS client is trusted." + TRUST},
    "C25": {"src": "c25_cpp.cpp", "extra_src": H + ["net.cpp"], "cpp_bindings": True, "fuzz_s": 60,
            "technique": "differential property-based testing: generated histories through the C++ wrappers and through the C interface",
            "note": "The same generated operations, requests, reply programs and route trees go through the C++ wrappers and through the C functions they stand for; results, replies and leaks are compared under ASan." + TRUST},
    "C26": {"src": "c26_errors.cpp", "extra_src": H, "fuzz_s": 60,
            "technique": "property-based testing: generated handler outcomes and error handlers against a status model",
            "note": "Generated requests, handler programs, connection statuses and error handlers; the reply is read by an independent strict reader and compared with the outcome table." + TRUST},
    "C27": {"src": "c27_media.cpp", "extra_src": H, "wrap": ["fopen", "open"], "fuzz_s": 60,
            "technique": "property-based testing: generated media type tables and histories against a model; generated images against independent decoding",
            "note": "Generated tables stand in for /etc/mime.types (fopen is redirected); lookups are compared with a model after each update. Generated images go through the PNG and JPEG replies and are decoded by libpng and libjpeg, which are trusted." + TRUST},
    "C28": {"src": "c28_lifecycle.cpp", "extra_src": O + ["net.cpp"], "wrap": ["pthread_create", "pthread_join", "pthread_detach"],
            "technique": "model-based stateful property testing of server lifecycles on real sockets, with thread, descriptor and leak accounting",
            "note": "Histories of creating, configuring, listening, stopping and freeing servers in every mode over loopback sockets; each address must serve or refuse as a small model says, and threads, descriptors and allocations must be back at the start. Schedules are the ones the kernel gives." + TRUST},
    "C29": {"src": "c29_ptrlist.cpp", "extra_src": O, "fuzz_s": 30, "quick_s": 8,
            "technique": "model-based stateful property testing of list histories",
            "note": "Histories of adds, removals and filters compared after each step with a reference sequence, under ASan with leak accounting." + TRUST},
    "C30": {"src": "c30_memory.cpp", "extra_src": H + ["ws.cpp", "net.cpp", "fakepam.cpp", "fakeredis.cpp"], "wrap": ["poll", "sleep", "time", "pthread_create", "pthread_join", "pthread_detach"], "quick_s": 25,
            "technique": "property-based testing with fault injection: generated activities on a tracking allocator, repeated in a child in which one generated allocation fails",
            "note": "Activities generated over the whole library run on tracking memory and thread functions; every block must come from them and return to them once, every thread be joined or detached through them, and a failing allocation must be reported or survived, never crash." + TRUST},
    "C31": {"src": "c31_log.cpp", "extra_src": H, "quick_s": 20,
            "technique": "property testing of logging histories in fresh processes against a line model",
            "note": "Messages of every level, length and file name, logged by one or several threads of a fresh process under a generated environment, are matched one to one with the lines on the standard error and the entries at a recording syslog." + TRUST},
    "C32": {"src": "c32_random.cpp", "extra_src": O + ["rnd_default.c"], "quick_s": 12,
            "technique": "property-based testing of generated histories of the random generators in threads and processes against statistical and uniqueness oracles",
            "note": "Generated histories of both generators (the built-in one and the one of builds without GnuTLS) with guarded buffers: exactly the bytes asked for change, none stays the same in ten fills, nothing repeats between fills, threads and processes, identifiers use every allowed character at every place. Unpredictability as such is not decided, only these consequences; a chance collision does not reproduce, and is then not reported." + TRUST},
}
NOT_APPLICABLE = {
}
