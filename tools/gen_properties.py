#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

R = "src/onion/"
prop("C01", "What a request means does not depend on how its bytes are cut up",
 "For every byte stream that starts a request on a connection, the request the application sees (method, path, query, headers, cookies, form fields, uploads, raw body), the reply written and the keep-open/close decision are the same whether the bytes arrive in one read, one at a time, or cut at any other points. This covers the request line, headers, continuation lines, urlencoded and multipart forms, raw bodies and PUT bodies, including streams that end up rejected. (What follows the first request in the same read is outside this property: the server does not support pipelining.)",
 ["inputs", "schedules"], "every request byte stream (valid or not) and every segmentation of it into reads",
 "Tests feed a few fixed requests whole, or one fixed split; the guarantee is over all 2^(n-1) cuts of every stream.",
 [R+"request_parser.c", R+"request.c", R+"http.c"],
 [("incremental token reader keeps partial tokens between reads", R+"request_parser.c token_read_*"),
  ("multipart boundary matcher keeps partial boundary matches", R+"request_parser.c parse_POST_multipart_data")],
 [("parser position and partial token", "where in the request the parser is", R+"request_parser.c onion_token")],
 ["handler invocation arguments", "bytes written back to the client"])
prop("C02", "Well-formed requests reach the handler exactly as the client sent them",
 "For every well-formed HTTP request, the handler sees exactly the method, decoded path, decoded query parameters, header values (looked up without regard to case), cookies, urlencoded and multipart form fields, uploaded file contents and raw or PUT body that were encoded on the wire, byte for byte and in no other field. The language reported for the client is the first one it accepts. Repeated names keep all their values, and values that look like syntax (line breaks, boundary look-alikes, escapes, separators) are delivered literally. Multipart field and file names are taken free of double quotes and semicolons, and the boundary unquoted and at the very start of the body.",
 ["inputs"], "every well-formed request: all methods, all header sets, all parameter/field/file/cookie values within the configured limits",
 "Tests check a handful of fixed requests; values that resemble boundaries, escapes or line ends are where decoding goes wrong.",
 [R+"request_parser.c", R+"request.c", R+"codecs.c"],
 [("request line, header, query, cookie, form parsers", R+"request_parser.c, "+R+"request.c")],
 None, ["public request accessors called from a handler"])
prop("C03", "No byte stream crashes, hangs, corrupts or leaks the server",
 "Whatever bytes a client sends, complete or truncated, valid or hostile, the server never reads or writes memory out of bounds, uses freed memory, loops forever, or keeps memory, file descriptors or temporary files once the connection is closed. Every connection ends in replies to its requests or in being closed, and the next connection is served normally.",
 ["inputs", "histories"], "every finite byte stream on a connection, to a server mounting the library's own handlers (routes, export, WebDAV, websockets, auth, status page)",
 "A test only exercises the streams someone thought of; memory safety is over all streams and is invisible to assertions without a sanitizer.",
 [R+"request_parser.c", R+"request.c", R+"response.c", R+"codecs.c", R+"url.c", R+"websocket.c", R+"handlers/webdav.c", R+"handlers/exportlocal.c", R+"handlers/auth_pam.c"],
 [("bounded token buffer and per-token length checks", R+"request_parser.c"), ("clean-up of a request", R+"request.c onion_request_clean/onion_request_free")],
 None, ["sanitizer reports, live allocations, open descriptors, files in the temporary directory"])
prop("C04", "Post and file size limits hold, and uploads leave nothing behind",
 "For every configured pair of maximum post size and maximum file size, a request whose form data, raw body, PUT body or uploaded files exceed the applicable limit is refused without reaching the handler, and one within both limits is accepted in full. Temporary files hold the complete upload while the handler runs, and every temporary file the server created is gone once the request is over, however it ended, unless the handler moved it away itself.",
 ["inputs", "configurations", "histories"], "every limit configuration, body kind and size around the limits, truncation point and outcome of the request",
 "Tests use the default limits and complete uploads; off-by-one limits and files left after aborted uploads need generated sizes and truncation.",
 [R+"request_parser.c", R+"request.c", R+"onion.c"],
 [("limit checks when a body starts and grows", R+"request_parser.c prepare_POST*, parse_POST_multipart_*, parse_PUT"), ("unlinking of request files", R+"request.c unlink_files")],
 None, ["handler calls, reply status, contents of a private temporary directory"])
prop("C05", "Every reply is one well-formed HTTP message carrying exactly what was written",
 "For every sequence of status, header and body operations a handler performs, the bytes sent form exactly one parseable HTTP/1.x response: the chosen status code and reason, the current date in GMT, each header set once with its value (one containing a line break is never sent), and a body that decodes (by content length, by chunked encoding or by connection close) to exactly the bytes the handler wrote, or to nothing for HEAD and for 204 and 304 responses. A flush sends everything written so far. The connection is kept open only when the client can find the end of the message and asked for or allowed reuse, and a transport that accepts only part of a write at a time changes nothing; a handler that declares another length than it writes never leaves the client reading the next reply out of step. The ready-made replies (text with a status, extra headers, redirects, internal redirects) are such messages too.",
 ["inputs", "programs", "fault_sequences"], "every handler program over the response interface, HTTP version, method, connection header and pattern of short or failed transport writes",
 "Tests print a few small bodies; boundary sizes of the output buffer, chunk framing and partial writes need exploration.",
 [R+"response.c", R+"request.c", R+"http.c"],
 [("header serialisation, length/chunk bookkeeping, output buffer flush", R+"response.c")],
 [("buffered bytes and sent byte count", "what remains to be sent", "struct onion_response_t")], ["bytes passed to the transport", "return value of processing (keep alive or close)"])
prop("C06", "Requests on a reused connection are independent and answered in order",
 "When several requests are sent one after another on one connection, each gets exactly the reply it would get alone on a fresh connection, in order, and nothing of an earlier request (parameters, headers, cookies, body, files, session, path) is visible in a later one. The connection is left open after a reply only when that reply lets the client find its end and announces reuse, and nothing is answered after the connection was closed.",
 ["histories", "schedules"], "every sequence of requests on a connection, each sent after the reply to the one before, and every segmentation of them into reads",
 "Tests reuse a connection for a couple of identical requests; leakage needs sequences of different requests.",
 [R+"request.c", R+"request_parser.c", R+"http.c", R+"onion.c", R+"listen_point.c"],
 [("request reset between requests", R+"request.c onion_request_clean"), ("keep-alive decision", R+"response.c onion_response_free")],
 None, ["replies on one connection compared with the replies on fresh connections and fresh servers"])
prop("C07", "A request goes to the first matching route, with the right rest and captures",
 "For every tree of routes, a request is handled by the first route, in registration order, whose pattern matches: plain patterns match the whole remaining path, expression patterns match at its beginning, and nested routers and path prefixes see exactly the part of the path that remains. Captured groups arrive as query parameters numbered from 1 whatever parameters the client sends, a router or path prefix whose inner handlers decline lets the search continue after it with the path as it was, and when nothing accepts the request the reply is 404. A malformed expression is refused and changes nothing, and every handler's data is released exactly once. (A router commits to its first matching route; inner captures reuse the numbers of outer ones.)",
 ["inputs", "configurations"], "every route tree built from plain, expression, path and nested routes with accepting/declining handlers, and every request path",
 "Tests use small fixed route tables; order, prefixes, declines and captures interact combinatorially.",
 [R+"url.c", R+"handler.c", R+"handlers/path.c", R+"handlers/static.c", R+"request.c"],
 [("ordered match over compiled patterns", R+"url.c onion_url_handler"), ("handler chain", R+"handler.c onion_handler_handle")],
 None, ["which handler runs, its remaining path and its query parameters"])
prop("C08", "A directory export never reveals anything outside the exported directory",
 "Whatever path is requested, a directory export answers only with regular files that really lie inside the exported directory or with listings of directories inside it; dot-dot segments, encoded or doubled separators, symbolic links leading out, and sibling directories whose names merely begin with the exported one's never give access. Files and directories that are inside are served, and listings name every visible entry of exactly that directory with names escaped so that they cannot become markup, between the header and footer the application chose. (The size and owner a listing shows for a link leading out are not judged.)",
 ["inputs", "configurations"], "every directory layout (nested, links, sibling prefixes, special names) and every request path",
 "Tests try one or two fixed escapes; containment is over all paths and layouts.",
 [R+"handlers/exportlocal.c", R+"shortcuts.c"],
 [("canonicalise then compare with the canonical root", R+"handlers/exportlocal.c onion_handler_export_local_handler")],
 None, ["reply bytes compared with the contents of a generated scratch tree"])
prop("C09", "A served file arrives byte-exact, whole or as exactly the requested range",
 "For every file and request, serving it yields its exact bytes with the matching length and its media type; a byte range (both ends, open end, last N bytes) that overlaps the file yields exactly those bytes with a correct content-range and length, and one that does not overlap is refused. HEAD gives the same headers and no body, any other method the content, and no descriptor stays open. When the file cannot be read to its end or the client goes away, what was sent is a true beginning of the content and is never presented as complete. A client presenting the current entity tag gets 304, while a client presenting the tag of a version of another size or modification time (in whole seconds), or of another range, gets the content.",
 ["inputs", "configurations"], "every file size and content, range header, method and conditional header",
 "Tests use a few ranges of one file; end clamping, empty files and suffix ranges are boundary cases over all sizes.",
 [R+"shortcuts.c", R+"mime.c"], [("range and etag computation, sendfile/copy loop", R+"shortcuts.c onion_shortcut_response_file")],
 None, ["reply bytes"])
prop("C10", "WebDAV acts only inside its share and does what each verb says",
 "For every sequence of WebDAV requests against a share, the visible state of the share after each request is what the verb prescribes (upload stores exactly the sent bytes, delete removes, collection creation creates, move renames the source to the named destination, property queries list exactly the resource and, at depth one, its children, each under a URL that leads back to it and with exactly the asked properties, which are those of the resource, reads return the bytes), and failing requests change nothing. No request reads, creates, changes or removes anything outside the shared directory, and a request refused by the permission check has no effect. (Not judged: deleting or moving the share root itself, what is left of an overwritten file when the disk fails while copying over it, the reported size and date of links leading out, and the permission bits of overwritten files.)",
 ["inputs", "histories"], "every history of GET/HEAD/PUT/DELETE/MKCOL/MOVE/PROPFIND/OPTIONS requests with any path, destination and depth, over any share layout",
 "There is no WebDAV test in the suite; containment and verb semantics are over histories.",
 [R+"handlers/webdav.c", R+"shortcuts.c"], [("permission check on canonical paths", R+"handlers/webdav.c onion_webdav_default_check_permissions"), ("verb handlers", R+"handlers/webdav.c")],
 None, ["filesystem tree of a scratch share and a canary tree around it; replies"])
prop("C11", "Dictionaries behave as key-ordered multimaps and own exactly what they copy",
 "For every sequence of add, replace, remove, lookup, merge, copy, nest and traverse operations, a dictionary answers as a multimap kept in key order (case-insensitive when so configured): replace gives one entry of that key the new value (adding it when there is none), remove takes away one entry of that key and no other, duplicates are kept, counts and traversal agree, and copies are independent of or shared with the original as documented. A lookup takes a number of comparisons logarithmic in the number of different keys, whatever the history. Values flagged as copied or owned stay valid as long as the dictionary and are released exactly once.",
 ["histories", "inputs"], "every operation history over any keys, values and ownership flags, including long random and sorted insertion orders",
 "Tests run a few fixed insertion orders; balancing, duplicates and ownership need histories and a memory checker.",
 [R+"dict.c"], [("balanced tree insert/remove/skew/split", R+"dict.c"), ("ownership flags on nodes", R+"dict.c onion_dict_node_data_*")],
 [("tree root, reference count, comparator", "dictionary contents", "struct onion_dict_t")], ["public dictionary interface; sanitizer and live allocations"])
prop("C12", "JSON written from a dictionary reads back equal, and bad JSON is refused safely",
 "For every dictionary of strings and nested dictionaries, with any text in keys and values, the JSON produced is valid JSON denoting that dictionary, and reading it back gives an equal dictionary. For every text, reading never touches memory beyond the text: an object of strings and nested objects written by any conforming encoder (any whitespace and escapes) is read with its exact meaning, and malformed text is refused without leaking.",
 ["inputs"], "every dictionary and every text",
 "Tests round-trip a few fixed dictionaries; escapes, surrogates, truncation and nesting need generated texts.",
 [R+"dict.c", R+"codecs.c", R+"block.c"], [("encoder", R+"dict.c onion_dict_to_json, "+R+"codecs.c onion_json_quote_add"), ("parser", R+"dict.c onion_dict_from_json, "+R+"codecs.c onion_json_unquote_add")],
 None, ["produced text, an independent JSON reader, the re-read dictionary"])
prop("C13", "Encoders and decoders are exact, mutually inverse and never overrun",
 "For every input, base64, URL, HTML, C-string and JSON encoding produce text that an independent decoder of that format maps back to the input, contain no character the format reserves, and the library's own base64 and URL decoders invert them. Decoding arbitrary text never reads past its end or writes past its buffer, and SHA-1 equals the standard function.",
 ["inputs"], "every byte string (any length, any byte value) and every malformed encoding of it",
 "Tests cover a few strings; length residues, high bytes and truncated escapes need generation with a memory checker.",
 [R+"codecs.c"], [("encode/decode loops and output size estimates", R+"codecs.c")], None, ["return values; sanitizer"])
prop("C14", "A growing block always holds exactly the bytes appended to it",
 "For every sequence of append operations on a block (characters, strings, binary data, other blocks, rewind and clear), its size and contents equal the concatenation, readable as a terminated string, at every point and any total size. Appending never overruns memory, including when a block is appended to itself or to another.",
 ["histories", "inputs"], "every append history and growth pattern", "Tests append a few sizes; growth boundaries need histories.",
 [R+"block.c"], [("capacity growth", R+"block.c onion_block_max_size_grow/add_*")], None, ["public block interface; sanitizer"])
prop("C15", "Each session is private to its client, persists until removed, in every store",
 "For every history of requests from several clients, each client reads back exactly the session values stored under its own cookie and never another's, values survive across its requests (and across reopening the store for the persistent store), and after the session is removed it reads as empty. A session identifier the server did not issue never gives access to stored data nor becomes a session, identifiers are never repeated, and the session cookie is sent whenever a new session is created. What a request changed is in the store by the time its client has the whole reply, and a store that fails or loses its connection never brings the server down.",
 ["histories", "inputs"], "every interleaving of session operations by several clients over the in-memory, SQLite and Redis stores, with forged, stale and malformed cookies",
 "Tests run one or two clients through a fixed script.",
 [R+"sessions.c", R+"sessions_mem.c", R+"sessions_sqlite3.c", R+"sessions_redis.c", R+"request.c", R+"response.c"],
 [("session lookup by cookie, creation, removal", R+"request.c onion_request_guess_session_id/get_session_dict/session_free"), ("stores", R+"sessions_mem.c, "+R+"sessions_sqlite3.c, "+R+"sessions_redis.c")],
 None, ["Set-Cookie headers and values read by handlers"])
prop("C16", "WebSocket data from a client reaches the application intact",
 "For every valid stream of client frames (any opcode, length form, mask, fragmentation and arrival timing, with control frames between data frames), the application reads exactly the unmasked payload bytes in order, with the opcode of the frame they came in, whatever read sizes it uses. Pings are answered with a pong carrying the same payload, pongs are discarded, a close frame is answered and ends the connection, and the opening handshake answers with the accept key prescribed for the client's key and the first subprotocol it offers.",
 ["inputs", "schedules"], "every frame sequence, payload length including the 7/16/64-bit length boundaries, mask, and read pattern",
 "Tests send one or two short frames.", [R+"websocket.c"],
 [("frame header decode and unmask", R+"websocket.c onion_websocket_read_packet_header/onion_websocket_read"), ("handshake", R+"websocket.c onion_websocket_new")],
 [("bytes left in frame, mask position, opcode", "frame decoding state", "struct onion_websocket_t")], ["callback data, bytes written back"])
prop("C17", "WebSocket data from the application is sent as exact, valid frames",
 "For every sequence of writes, formatted prints, opcode changes and closes by the application, the bytes sent decode by the WebSocket framing rules to exactly the data the application passed, in order, with the selected opcode, with minimal correct length headers, unmasked, for payloads of any size. Each write reports that the whole payload was accepted.",
 ["inputs", "programs"], "every write sequence and payload size, including 125/126, 65535/65536 and multiples of internal buffer sizes",
 "Tests write a couple of short strings.", [R+"websocket.c"], [("frame header encode and chunked write", R+"websocket.c onion_websocket_write/start_frame")], None, ["bytes passed to the transport"])
prop("C18", "The event poller fires every ready event and deadline, once, and nothing removed",
 "For every history of adding, removing and timing descriptors and of data arrival, the poller calls a descriptor's callback when and only when it is ready, keeps it while the callback asks to and calls its shutdown exactly once when it ends (by return value, removal, hang-up, timeout or poller destruction). A descriptor idle past its timeout is shut down at the deadline (never before it, and within a second after), activity postpones the deadline, none passes while the descriptor's own callback runs, and stop makes polling return, after which it may be polled again. (With the default of one event per wait.)",
 ["histories", "schedules"], "every history of slots, timeouts, readiness, removals and clock advances", "Tests exercise one descriptor; timer re-arming and list surgery need histories with a controlled clock.",
 [R+"poller.c"], [("slot list, timerfd re-arming", R+"poller.c onion_poller_poll/onion_poller_timer")],
 [("sorted slot list and next deadline", "pending timeouts", R+"poller.c")], ["callback and shutdown calls against a virtual clock"])
prop("C19", "Protected content is reached only with credentials the authenticator accepted",
 "Behind the authentication handler, the protected handler runs only if the request carries Basic credentials that the authenticator accepts for exactly the user and password that were sent, and does run then; every other request, including malformed, truncated or oddly encoded credentials, gets 401 with a challenge naming the realm and no protected content. A request may instead carry the session of an earlier accepted login.",
 ["inputs", "configurations"], "every Authorization header value, realm, and set of valid accounts", "No test covers authentication.",
 [R+"handlers/auth_pam.c", R+"codecs.c"], [("credential split and check", R+"handlers/auth_pam.c")], None, ["whether the protected handler ran; reply"])
prop("C20", "Every cookie the application sets reaches the client exactly as set",
 "For every sequence of cookies set on a response, the reply carries one Set-Cookie line per accepted cookie with its name, value, path, domain, expiry and flags as given, correctly terminated, and parseable by a standard client; expiry dates denote the requested instant (on a server whose local time is UTC). A cookie that does not fit is refused with a failure result and changes nothing, and values containing line breaks cannot add headers.",
 ["inputs", "programs"], "every sequence of cookie names, values, attributes and sizes", "Tests set single small cookies.",
 [R+"response.c", R+"shortcuts.c"], [("cookie line formatting", R+"response.c onion_response_add_cookie"), ("header writing", R+"response.c")], None, ["reply header lines"])
prop("C21", "A packed asset serves exactly the bytes of the packed file",
 "For every file and directory tree given to the packing tool, the generated source compiles and its handlers serve each packed file's exact bytes, length and media type at its path, and nothing for other paths; files documented as ignored are not served.",
 ["inputs", "programs"], "every file content, file name and tree", "Tests only check that the tool runs on fixed assets.",
 ["tools/opack/opack.c", "tools/common/updateassets.c", R+"handlers/opack.c"], [("byte dump and path dispatch generation", "tools/opack/opack.c parse_file/parse_directory")], None, ["compiled generated source driven through requests"])
prop("C22", "A compiled template renders exactly what its source and context denote",
 "For every template built from text, comments, variables, conditions, loops, includes, inheritance and blocks, and every context, rendering the compiled template produces the literal text unchanged, with each variable's value inserted escaped for HTML, conditions and loops evaluated over the context, and overridden blocks in their parent's places. Malformed templates are reported as errors instead of producing output.",
 ["inputs", "programs"], "every template and context", "Tests compile three fixed templates.",
 ["tools/otemplate/parser.c", "tools/otemplate/tags.c", "tools/otemplate/tag_builtins.c", "tools/otemplate/functions.c", "tools/otemplate/variables.c", R+"codecs.c"],
 [("template parser and code generation", "tools/otemplate/*.c")], None, ["output of compiled templates vs an independent evaluator"])
prop("C23", "Concurrent clients each get their own correct replies, without data races",
 "With any number of threads and clients, each client receives exactly the replies its own requests deserve and each handler sees the address of its own client, shared dictionaries and sessions behave as if operations happened one at a time, shared reference-counted dictionaries live until their last holder releases them, and no data race or deadlock occurs. Stopping the server while requests are in flight finishes or drops them without crashing.",
 ["schedules", "histories"], "every interleaving of worker threads, clients and shared-structure operations", "Tests run one client at a time or a fixed small load.",
 [R+"onion.c", R+"poller.c", R+"dict.c", R+"sessions_mem.c", R+"listen_point.c"], [("locks and reference counts", R+"dict.c, "+R+"poller.c, "+R+"sessions_mem.c")], None, ["replies; thread sanitizer"])
prop("C24", "HTTPS serves exactly what HTTP serves",
 "For every request sequence, a client speaking TLS gets the same replies as over plain HTTP from the same handlers, with any body sizes in either direction and any record segmentation, and the handler can tell the connection is secure. A connection whose TLS handshake fails or that speaks plain HTTP is dropped without reaching a handler or disturbing others.",
 ["inputs", "schedules", "fault_sequences"], "every request sequence, body size, write segmentation and broken handshake", "Tests make a single fixed request over TLS.",
 [R+"https.c", R+"listen_point.c"], [("TLS session read/write loops", R+"https.c")], None, ["decrypted replies compared with plain ones"])
prop("C25", "The C++ interface gives the same results as the C interface",
 "For every history of operations on the C++ server, dictionary, URL, request and response wrappers (server settings included), the observable results equal those of the C interface performing the same operations, nothing is leaked or used after release, and missing keys or errors surface as the documented defaults or exceptions.",
 ["histories", "inputs"], "every history over the C++ wrappers", "Tests cover a few fixed calls.",
 ["src/bindings/cpp/dict.cpp", "src/bindings/cpp/dict.hpp", "src/bindings/cpp/url.cpp", "src/bindings/cpp/handler.cpp", "src/bindings/cpp/request.hpp", "src/bindings/cpp/response.hpp"],
 [("thin wrappers and ownership", "src/bindings/cpp/*")], None, ["wrapper results; sanitizer"])
prop("C26", "Unanswered, refused and failing requests always get the right error reply",
 "Whatever a handler returns or omits (not handled, forbidden, not implemented, internal error, close, keep open), the client receives exactly one complete reply with the status documented for that outcome (404, 403, 501, 500) whose page comes from the application's own error handler when one is set (which may choose another status), or, if the handler had already sent headers, that reply ended and the connection closed. After an error reply the connection is closed or reusable as announced, never left ambiguous, and requests with an unknown method or a nameless multipart field get the connection closed without reaching a handler.",
 ["programs", "inputs", "configurations"], "every handler outcome, method and malformed request, with and without a custom error handler", "Tests check 404 and 500 in one configuration.",
 [R+"request.c", R+"onion.c", R+"http.c", R+"request_parser.c"], [("status mapping and default error pages", R+"request.c onion_request_process, "+R+"onion.c onion_default_error")], None, ["reply bytes and connection state"])
prop("C27", "Media types follow the file extension table, and images decode to their pixels",
 "For every file name, the media type is the one the system table gives for its last extension, or plain text by default, with application updates taking precedence. For every image of any supported size and channel layout, the PNG reply is a valid image decoding to exactly the given pixels and the JPEG reply to an image of the same size close to them.",
 ["inputs", "histories"], "every file name, table, update history, and image size/content", "Tests look up a few extensions and no images.",
 [R+"mime.c", R+"extras/png.c", R+"extras/jpeg.c"], [("extension lookup", R+"mime.c onion_mime_get"), ("row writers", R+"extras/png.c, "+R+"extras/jpeg.c")], None, ["lookup results; decoded images"])
prop("C28", "A server can be configured, started, stopped and freed in any order, cleanly",
 "For every sequence of creating, configuring, listening (in every mode), stopping and freeing servers with any number of listen points, each configured address serves while listening, in plain text or over TLS with the certificate it was given, and is closed after stop (from outside, by a handler, or by SIGTERM or SIGINT), listening again works, and afterwards no memory, descriptor or thread remains. Idle connections are closed after the configured timeout, and detached servers return control to the caller at once. A server started by a service manager serves on the socket it was given.",
 ["histories", "configurations"], "every lifecycle history and mode", "Tests start and stop one server per mode.",
 [R+"onion.c", R+"listen_point.c", R+"poller.c"], [("listen loop, stop, free", R+"onion.c onion_listen/onion_listen_stop/onion_free")], None, ["sockets, descriptors, threads and allocations of the process"])

prop("C29", "A pointer list holds exactly the pointers put in it",
 "For every history of adding, removing and filtering pointers, walking the list visits exactly the pointers added and not yet removed, newest first, and its count agrees. Removing a pointer takes out its most recent entry and nothing else, filtering asks once about each entry and keeps exactly those accepted, and no memory is kept or touched after release.",
 ["histories"], "every history of list operations", "No test removes an element.",
 [R+"ptr_list.c"], [("singly linked list surgery", R+"ptr_list.c")], None, ["public list interface; sanitizer and live allocations"])

prop("C30", "An application's own memory and thread functions are used for everything",
 "When an application installs its own memory functions, every block the library takes from them is given back to them exactly once, nothing obtained elsewhere is ever given to them, and nothing taken from them is released any other way; with its own thread functions, threads are created, joined and detached only through them. When an allocation fails, the application's failure function is told (or the 'try' variants return no memory), and nothing is written through a missing block.",
 ["histories", "fault_sequences"], "every history of library use and every failing allocation", "No test installs memory functions.",
 [R+"low.c", R+"low.h"], [("replaceable allocator and thread functions", R+"low.c onion_low_initialize_memory_allocation, onion_low_initialize_threads")], None, ["calls seen by the application's functions"])
prop("C31", "Every logged message reaches the log once, whole and on a line of its own",
 "For every message, level, source position and logging configuration, the message is written exactly once, complete (or cut and marked when longer than a line may be), with its file and line, on one line never mixed with those of other threads, or not at all when the configuration filters its level out. Logging never reads or writes outside its buffers.",
 ["inputs", "configurations", "schedules"], "every message length and content, level, file name, ONION_LOG / ONION_DEBUG0 setting, and concurrent threads", "Tests only look at the log by eye.",
 [R+"log.c"], [("line assembly and filters", R+"log.c onion_log_stderr, onion_log_syslog")], None, ["bytes written to standard error; syslog calls"])
prop("C32", "Random data fills exactly what was asked, and session identifiers never repeat",
 "For every size, position, number of threads and history of initialising and releasing the random generator, a request for random bytes changes exactly the bytes asked for, all of them, and what it draws does not repeat between calls, threads or processes. Session identifiers are 32 alphanumeric characters, each place of which takes every allowed character, and never repeat.",
 ["inputs", "histories", "schedules"], "every buffer size and position, balanced history of initialisations and releases, threads and processes", "Tests compare two short draws.",
 [R+"random-default.c", R+"random-gnutls.c", R+"sessions.c"], [("generators and their reference count", R+"random-default.c, "+R+"random-gnutls.c"), ("identifiers", R+"sessions.c onion_sessions_generate_id")], None, ["bytes of the buffer and around it; identifiers"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
