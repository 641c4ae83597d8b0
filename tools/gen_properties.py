#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are edited)."""
import json, os
S = "server/src/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": S + w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

prop("C01", "Key-value commands behave like one sequential map",
 "For every sequence of requests handled one after another, set, get, try_get, upd, try_set, del, ex and type answer exactly as a plain map from (case-folded) key to last written value would: a read returns the value (and type) last successfully written under that key, or a missing-key error (null for try_get, false for ex and del) if there is none; upd writes only an existing key and try_set only an absent one, reporting which. "
 "A command never changes any key other than the one it names. "
 "Read commands and failed commands change nothing.",
 ["histories", "inputs"], "all command histories over any keys (few or thousands, short or long, similar names) and values of every type and size",
 "The unit tests run one or two fixed calls on fresh storage; they never run the interpreter, long histories, many keys, or mixes of value types and lifetimes.",
 ["analysis/interpreter.rs", "storage/hashmap_storage.rs", "storage/types.rs"],
 [("Interpreter::process_statement and the per-command methods", "analysis/interpreter.rs"), ("impl Storage for HashMapStorage", "storage/hashmap_storage.rs")],
 [("HashMapStorage.storage", "key to entry map", "storage/hashmap_storage.rs")],
 ["responses of Interpreter::interpret on tokenized+parsed text", "full read-back of every key"])

prop("C02", "Stored vectors and maps stay typed and act like a list and a dictionary",
 "Every stored vector or map holds only elements (and map keys) of its declared type; vpush, vpop, vget, vset and vlen act exactly like operations on a list, and mget, mset, mdel, mex and mlen exactly like operations on a dictionary, with the result persisting in the stored value (vpop on an empty vector gives null, mdel reports whether the entry existed). "
 "A command naming a missing key, the wrong kind of container, a wrongly typed element or map key, an out-of-range index or a missing map entry fails with the matching error kind (key, type or index error). "
 "A failing collection command leaves the stored collection unchanged.",
 ["histories", "inputs"], "all histories of collection commands, element types, indexes and sizes from empty to thousands of elements",
 "Tests touch StorageVector/StorageMap directly with at most three elements, and several of their assertions bind a variable instead of comparing; no test sends a collection command through the interpreter.",
 ["analysis/interpreter.rs", "storage/types.rs"],
 [("validate_key / validate_value on every write", "storage/types.rs"), ("get_vector_element_mut / get_map_element_mut in-place updates", "analysis/interpreter.rs")],
 [("StorageVector.vector", "list content", "storage/types.rs"), ("StorageMap.map", "dictionary content", "storage/types.rs")],
 ["responses of Interpreter::interpret", "full read-back of the collection after each command"])

prop("C03", "A lifetime hides an entry exactly when it runs out",
 "An entry written with a lifetime of L seconds is fully visible to every command until L seconds have passed, and from then on every command treats it as absent (reads and ex, upd, collection commands, lifetime commands, del reports false, try_set may create it), whether or not it has been physically removed yet; an entry without a lifetime never disappears. "
 "Rewriting an entry or updating its lifetime replaces the old lifetime completely, editing a collection in place keeps it, and the reported remaining lifetime is the time actually left. "
 "A command during which a lifetime runs out acts as it would at one instant, either before or after that. "
 "A lifetime too large to represent is refused with an error and has no effect. "
 "The clients of each of the three servers see exactly this, however often a request is repeated.",
 ["histories", "inputs"], "all histories mixing writes, lifetime changes, reads and the passing of any amount of time, with lifetimes from 0 to the largest integer",
 "One test builds one already expired element by hand; no test lets time pass, uses a lifetime through a command, or revives, rewrites or deletes entries around their expiry.",
 ["analysis/interpreter.rs", "storage/hashmap_storage.rs", "storage/types.rs"],
 [("StorageElement::is_expired consulted by every access", "storage/types.rs"), ("lifetime to absolute time conversion", "analysis/interpreter.rs")],
 [("StorageElement.expiration", "absolute expiry time", "storage/types.rs")],
 ["responses of Interpreter::interpret under a controlled clock", "responses of the server processes on a shifted clock"])

prop("C04", "Expiry passes remove only expired entries and reclaim all of them",
 "At any point of any history an expiry pass succeeds, removes only entries whose lifetime has run out (as many as it reports) and leaves every live entry and its lifetime untouched; repeating passes eventually removes every expired entry from storage. "
 "The storage's counts of entries and of entries with a lifetime always agree with the entries it actually holds, through any mix of writes, lifetime changes, deletes and passes. "
 "The multi-threaded and async servers keep issuing expiry passes in the background until they are stopped.",
 ["histories", "schedules"], "all interleavings of writes, lifetime updates, deletes and expiry passes, with the random choice of the pass left free",
 "No test ever calls invalidate_expired_keys or check_and_expire, nor looks at the expiring-key index after a sequence of operations.",
 ["storage/hashmap_storage.rs", "multithreaded/expiration.rs", "async.rs"],
 [("invalidate_key_index swap-remove bookkeeping", "storage/hashmap_storage.rs"), ("ExpirationWorker::run", "multithreaded/expiration.rs"), ("expire_old_keys task", "async.rs")],
 [("HashMapStorage.expiring_keys / HashMapContainer.key_index", "two-way index of entries with a lifetime", "storage/hashmap_storage.rs")],
 ["Storage::len and Storage::expiring_keys_count after each step", "answers of expiry passes", "channel of an ExpirationWorker"])

prop("C05", "Query text means the same statements however it is formatted",
 "Any list of statements written in the query language parses to exactly those statements with exactly those literals (64-bit integers, finite floats, booleans, strings of any characters with the \\\\ \\\" \\n \\r \\t escapes, typed vectors and maps including empty ones, lifetimes), whatever whitespace, line breaks, repeated or missing semicolons and letter case of keywords and identifiers are used, including at the very end of the text. "
 "String contents are kept character for character. "
 "Identifiers and keywords are case-insensitive and an identifier is never confused with a keyword it merely contains.",
 ["inputs"], "all statement lists and all their textual renderings",
 "Five tokenizer tests check one well-formatted lower-case line each and stop at tokens; the parser has no test at all.",
 ["analysis/tokenizer.rs", "analysis/tokens.rs", "analysis/parser.rs"],
 [("Tokenizer::get_next_token", "analysis/tokenizer.rs"), ("get_word_to_token_map", "analysis/tokens.rs"), ("Parser::get_next_statement", "analysis/parser.rs")],
 [], ["Vec<Statement> returned by Parser::parse on Tokenizer output"])

prop("C06", "Every query text is parsed completely or rejected, never a crash",
 "For every input string, tokenizing and parsing terminates and yields either the complete list of statements it denotes or an error, never a panic, a hang or a partial list. "
 "Text that is not in the query language (unterminated or malformed literals, missing or wrong operands, unknown commands, stray tokens, ill-typed collection literals, numbers out of range) is rejected with an error. "
 "A rejected request executes none of its statements, and the server goes on to serve the next request.",
 ["inputs"], "all strings, in particular truncations, mutations and concatenations of valid queries and arbitrary Unicode",
 "Tests only feed well-formed text; no rejected input is tested at all.",
 ["analysis/tokenizer.rs", "analysis/parser.rs", "single_threaded.rs", "multithreaded/analysis.rs"],
 [("end-of-input tests before every look-ahead", "analysis/tokenizer.rs"), ("Parser operand helpers", "analysis/parser.rs"), ("AnalysisWorker::process_request", "multithreaded/analysis.rs")],
 [], ["result of Tokenizer::tokenize + Parser::parse", "responses of an in-process server fed the text"])

prop("C07", "Requests run only with their user's privileges, all or nothing",
 "A request runs only with the privileges of its user: a request whose user is rejected by authentication, unknown or missing gets an error and nothing of it runs; read users may run only reading commands, write users everything but shutdown, admins everything. "
 "A request containing, anywhere in it, a statement its user may not run is refused as a whole with an authorization error before any of its statements has an effect. "
 "This holds on every server, and a refused shutdown never stops one.",
 ["inputs", "configurations"], "all users, all statement kinds, all positions and batch lengths, all three servers",
 "No test runs a statement under any authorization level or exercises authentication.",
 ["auth.rs", "analysis/interpreter.rs", "single_threaded.rs", "multithreaded/listener.rs", "async.rs"],
 [("validate_authorization", "analysis/interpreter.rs"), ("MockAuthenticator", "auth.rs"), ("authentication step of each front end", "single_threaded.rs")],
 [], ["responses per user", "store read-back as admin after refused requests", "liveness of the server process"])

prop("C08", "A request's statements run in order and stop at the first failure",
 "The statements of one request run in textual order, each exactly once, and the response is that of the last statement executed. "
 "Execution stops at the first statement that fails (the response is its error) or at an executed shutdown; the effects of the statements before it remain and those after it have none. "
 "A request with no statements succeeds with a null response and changes nothing.",
 ["inputs", "histories"], "all batches of any length with failures or shutdown at any position, on any prior store content",
 "No test runs a request with more than one statement.",
 ["analysis/interpreter.rs", "analysis/parser.rs"],
 [("Interpreter::process_statements", "analysis/interpreter.rs")],
 [], ["response of Interpreter::interpret and the store read-back after each batch"])

prop("C09", "Concurrent requests are atomic and linearizable",
 "Concurrent requests to the multi-threaded server (and to the async server) behave as if each request's whole list of statements executed atomically at one instant between its being sent and its being answered. "
 "Acknowledged writes are not lost, duplicated, torn across keys or reordered against real time, also while background expiry runs. "
 "A request answered by a timeout may take effect later, at most once and still atomically.",
 ["schedules", "histories"], "all interleavings of concurrent clients, listener, analysis, executor and expiration workers, for all request mixes",
 "The existing tests start no thread and no server.",
 ["multithreaded/listener.rs", "multithreaded/analysis.rs", "multithreaded/executor.rs", "multithreaded/coordinator.rs", "async.rs"],
 [("single executor thread owning the interpreter", "multithreaded/executor.rs"), ("one executor request per client request", "multithreaded/analysis.rs"), ("execute_requests task", "async.rs")],
 [("executor channel", "the total order of requests", "multithreaded/executor.rs")],
 ["call/return history recorded at the clients"])

prop("C10", "One request, exactly one answer, on its own connection",
 "Every well-formed request accepted by a server that is not shutting down gets exactly one response, on its own connection, carrying the outcome of that request and never of another one, even when requests fail, are slow, time out, finish late, or other clients disconnect early. "
 "In the multi-threaded server a request whose result is not available in time is answered with a timeout error, and its late result is never delivered to anybody else. "
 "After the response the connection is closed and the server's resources for it are released, so service continues over any number of requests.",
 ["schedules", "histories", "fault_sequences"], "all mixes of concurrent, failing, slow and abandoned requests",
 "The existing tests send no request through any front end.",
 ["multithreaded/listener.rs", "multithreaded/analysis.rs", "multithreaded/executor.rs", "single_threaded.rs", "async.rs", "io/tcp.rs", "io/tcp_async.rs"],
 [("per-request response channel", "multithreaded/listener.rs"), ("job_sender/job_receiver pair", "async.rs"), ("one TcpStreamSender per accepted stream", "io/tcp.rs")],
 [], ["responses counted and matched by unique value per connection", "responses counted per mock stream sender"])

prop("C11", "Request delivery and framing details do not change the outcome",
 "A complete POST request is processed identically however its bytes are split into reads, whatever the size of head and body, the order of headers, the presence of unrelated headers (up to 32 in all), the letter case of Content-Length, the request path, or the JSON formatting of the body. "
 "The query executed is exactly the string in the body's \"query\" field, and exactly Content-Length body bytes are used. "
 "This holds for both the blocking and the async network layer.",
 ["inputs", "schedules"], "all byte segmentations and header/body layouts of valid requests, bodies from tens of bytes to megabytes",
 "No test reads a request from a socket.",
 ["io/tcp.rs", "io/tcp_async.rs"],
 [("convert_stream_to_request read loop", "io/tcp.rs"), ("convert_stream_to_request read loop", "io/tcp_async.rs")],
 [("buffer", "bytes of the request read so far", "io/tcp.rs")],
 ["responses to equivalent deliveries of one request"])

prop("C12", "No client input can stop the server from serving others",
 "Whatever bytes a client sends and however it ends its connection (garbage, truncated or oversized heads and bodies, absurd or invalid lengths, wrong method, invalid JSON or UTF-8, too many headers, early close, reset), the server neither crashes nor hangs nor changes stored data, answers a malformed request with an error (if it can still be delivered) rather than executing it, and serves the next valid request correctly. "
 "The same holds for any query text in a valid request. "
 "Repeating such input any number of times does not degrade the service.",
 ["inputs", "fault_sequences"], "all byte streams and connection endings, in any number and order, against each server",
 "No test opens a connection; nothing malformed is ever tried.",
 ["io/tcp.rs", "io/tcp_async.rs", "single_threaded.rs", "multithreaded/listener.rs", "multithreaded/analysis.rs", "async.rs"],
 [("error returns of convert_stream_to_request", "io/tcp.rs"), ("listener/analysis worker loops surviving errors", "multithreaded/listener.rs")],
 [], ["server process state", "answers to probe requests between attacks", "store read-back"])

prop("C13", "A server stops when, and only when, an allowed shutdown executes",
 "When an admin's shutdown statement executes, the requester receives the shutting-down response and the server process ends cleanly within bounded time, also under load, with other connections open or while background work runs. "
 "No other request stops a server: not a refused shutdown, not one behind a failing statement or in a request that does not parse, not a string or identifier that resembles it. "
 "In the multi-threaded server, stopping ends every worker and requests already executing are still answered.",
 ["schedules", "inputs", "histories"], "all requests and all timings of shutdown relative to other traffic, on each server",
 "No test starts or stops a server.",
 ["single_threaded.rs", "multithreaded/coordinator.rs", "multithreaded/executor.rs", "multithreaded/listener.rs", "multithreaded/analysis.rs", "multithreaded/expiration.rs", "async.rs"],
 [("shutdown flags and ordered stop", "multithreaded/coordinator.rs"), ("shut_down result of handle_request", "single_threaded.rs"), ("shutdown_flag", "async.rs")],
 [("start_shutdown", "set once a shutdown was executed", "multithreaded/coordinator.rs")],
 ["process exit status and time", "response to the shutdown request", "liveness after every other request"])

prop("C14", "The three servers give the same answers",
 "For every sequence of requests sent one after another, the simple, multi-threaded and async servers return the same status and the same payload for each request (only the wording of a missing-key error may depend on whether an expired entry was already removed), and end up with the same stored data. "
 "This includes requests that fail at any stage: transport, authentication, tokenizing, parsing, authorization or execution.",
 ["histories", "inputs", "configurations"], "all sequential request histories, on all three servers",
 "The three front ends are separate code and none of them is tested.",
 ["single_threaded.rs", "multithreaded/listener.rs", "multithreaded/analysis.rs", "async.rs", "io/tcp.rs", "io/tcp_async.rs"],
 [("handle_request", "single_threaded.rs"), ("ListenerWorker::run", "multithreaded/listener.rs"), ("listen_for_requests / process_analyze_request", "async.rs")],
 [], ["responses of the three processes to one script"])

prop("C15", "Responses deliver every outcome completely and faithfully",
 "Every response is a complete HTTP response whose Content-Length is the byte length of its payload and whose status class tells the outcome: 200 for success, 422 for key, index, type, tokenizing and parsing errors, 401 for missing privileges, 403 for failed authentication, 400 for a malformed request, 500 for internal and network errors. "
 "A successful payload is JSON from which the stored value can be recovered exactly: every type, any Unicode string, 64-bit integers, floats bit for bit, vectors in order, non-empty maps with all entries, at any size and however slowly the client reads, as long as it keeps reading. "
 "An error payload names the error kind.",
 ["inputs", "configurations"], "all outcomes and all stored values of every type and size, all client reading speeds",
 "No test serializes a response or writes one to a socket.",
 ["io/tcp.rs", "io/tcp_async.rs", "error.rs", "analysis/interpreter.rs", "storage/types.rs"],
 [("make_response", "io/tcp.rs"), ("get_error_code", "error.rs"), ("serde derives of InterpreterResponse / StorageValue / StorageMap", "storage/types.rs")],
 [], ["raw bytes received by clients", "decoded payload against the value written"])

prop("C16", "A silent client delays others only for a bounded time",
 "A client that connects and then goes silent, before or in the middle of its request or while it should be reading its response, does not block the service for good: other clients' requests are answered within bounded time even though the silent connection stays open. "
 "This holds for each of the three servers and for several silent clients.",
 ["schedules", "fault_sequences"], "all points at which a client can go silent, any number of such clients",
 "No test opens a connection.",
 ["io/tcp.rs", "io/tcp_async.rs", "multithreaded/listener.rs"],
 [("socket timeouts", "io/tcp.rs"), ("timeouts around async reads and writes", "io/tcp_async.rs")],
 [], ["answers to other clients while silent connections stay open"])

prop("C17", "No data race, undefined behaviour or worker death under load",
 "Whatever mix of concurrent valid, failing and rejected requests, expiry passes and pool start/stop the multi-threaded pipeline handles, it performs no data race, invalid memory access or other undefined behaviour. "
 "No worker thread panics or dies before it is stopped, no lock is left poisoned, and stopping the pools ends all their threads.",
 ["schedules", "inputs"], "all workloads and interleavings of the listener, analysis, executor and expiration workers",
 "The existing tests are single-threaded and run without sanitizers.",
 ["multithreaded/listener.rs", "multithreaded/analysis.rs", "multithreaded/executor.rs", "multithreaded/expiration.rs", "storage/hashmap_storage.rs", "storage/types.rs"],
 [("Arc/Mutex/atomics/channels between workers", "multithreaded/executor.rs"), ("try_lock use on uncontended locks", "multithreaded/executor.rs")],
 [], ["ThreadSanitizer/AddressSanitizer/Miri reports", "panic hook and thread states during in-process pipeline runs"])

prop("C18", "Answers decode back with the library's own types",
 "Every successful answer encodes to JSON as InterpreterResponse and decodes back, with the library's own Deserialize, to the same answer: same kind, same numbers to the last bit, same text, same typed vector or map with the same entries. "
 "This also goes for the payloads of the three servers. A decoded value is a full value: stored again it behaves as the original in every statement (its element types are still enforced, the entries of a map are found, replaced and deleted under their keys). Values with floats that are not finite are excluded, as JSON has none.",
 ["inputs", "histories"], "all answers of all histories, collections of any size and element type",
 "No test encodes or decodes a response.",
 ["analysis/interpreter.rs", "storage/types.rs"],
 [("InterpreterResponse, ValueType", "analysis/interpreter.rs"), ("StorageValue, StorageVector, StorageMap", "storage/types.rs")],
 [], ["InterpreterResponse encoded and decoded with serde_json", "payloads of the server processes"])

prop("C19", "The storage and the typed collections keep their promises when used directly",
 "A user of the library who calls the Storage trait of HashMapStorage directly sees a map from arbitrary distinct strings (exact, not folded) to elements: get, get_if_exists, contains_key and get_mut show exactly the last element written under that key with its own key, value and expiration, and nothing once its expiration has passed; "
 "set always stores, set_if_not_exists stores exactly when the key is absent or expired and says so, update, update_expiration and get_mut fail with a KeyError exactly when it is absent or expired and otherwise touch only that element; delete says whether a live element was removed. "
 "check_and_expire and invalidate_expired_keys remove only expired elements and report exactly what they removed; len and expiring_keys_count agree with the elements stored, of which only expired ones may be dead. "
 "StorageVector and StorageMap accept exactly elements (and keys) of their types, fail with TypeError or IndexError without changing otherwise, behave as a vector and a map, and copies are independent; StorageValues that can be keys are equal exactly when they have the same type and content, and equal ones hash alike.",
 ["inputs", "histories"], "all call sequences, keys, values and expirations (past, future, extreme), at any time",
 "The tests make a few calls each on one or two keys.",
 ["storage/hashmap_storage.rs", "storage/types.rs"],
 [("impl Storage for HashMapStorage", "storage/hashmap_storage.rs"), ("StorageVector, StorageMap, StorageElement", "storage/types.rs")],
 [], ["results of the trait's and the containers' methods", "counts reported by the storage"])

prop("C20", "The cost of a command does not grow with the number of stored entries",
 "The time a command takes does not grow in proportion to how many entries are stored, how many of them have lifetimes or how many are expired and not yet removed. This goes for reads, writes, deletes, lifetime changes, commands that fail or name an absent key, and for one expiry pass (which looks at a random entry instead of going through all of them). "
 "The commands that edit a collection in place (vpush, vpop, vset, mset, mdel) do not take time in proportion to its size, and a statement costs the same in a long request as in a short one. Occasional growth of a container, paid for by the insertions before it, is allowed.",
 ["inputs", "histories"], "stores and collections of any size, any position of the key in them",
 "The tests store a handful of entries and measure nothing.",
 ["storage/hashmap_storage.rs", "storage/types.rs", "analysis/interpreter.rs"],
 [("expiring_keys, key_index: O(1) deletion and random access", "storage/hashmap_storage.rs"), ("documentation of trait Storage on random checking", "storage/types.rs"), ("get_vector_element_mut, get_map_element_mut", "analysis/interpreter.rs")],
 [], ["thread CPU time around Interpreter::interpret"])

prop("C21", "Memory held is in proportion to the data that is stored",
 "The memory held for the database stays in proportion to the entries it holds (each with the largest size its collection has had since it was last written, and the most entries there have been at a time), however long and varied the history: values that were replaced, deleted, removed after expiry, popped from a vector or deleted from a map, refused by a failing command or merely read or parsed leave nothing behind. "
 "The same goes for the memory of the three server processes over any number of requests with large values.",
 ["histories"], "all histories, with values of any size",
 "The tests run a few operations each.",
 ["storage/hashmap_storage.rs", "storage/types.rs", "analysis/interpreter.rs", "single_threaded.rs", "async.rs", "multithreaded/executor.rs"],
 [("delete, set, invalidate_key_index, check_and_expire", "storage/hashmap_storage.rs"), ("StorageVector, StorageMap", "storage/types.rs")],
 [], ["bytes allocated and not freed by Interpreter::interpret (global allocator)", "resident memory of the server processes"])

prop("C22", "Stored data is shown only to those who ask for it and may read it",
 "Data that clients store or send (string values, elements and keys of collections) appears nowhere but in the answers to successful requests that name its key, by users who may read. An error answer contains no data except what its own request contained; the answer to an unauthenticated or unauthorized request contains no stored data; and no server writes any value, stored or sent, to its standard output or error output, whatever becomes of the request (executed, refused, malformed, abandoned by its client) and of the entry (overwritten, deleted, expired).",
 ["histories", "inputs"], "all requests of all users and all ways they can end, at the three servers",
 "No test looks at what is printed, and none stores data as one user and asks as another.",
 ["storage/hashmap_storage.rs", "analysis/interpreter.rs", "single_threaded.rs", "async.rs", "io/tcp.rs", "io/tcp_async.rs", "multithreaded/listener.rs", "multithreaded/analysis.rs", "multithreaded/executor.rs", "error.rs"],
 [("println! of errors, make_key_error, error texts", "storage/types.rs"), ("authentication before execution", "single_threaded.rs")],
 [], ["bytes of all answers", "standard output and error output of the server processes"])

prop("C23", "The interpreter keeps everything in its storage and passes on its errors",
 "An Interpreter works over any implementation of Storage, and the storage is all the state it has: changes made to its storage directly (by set, delete, get_mut, update_expiration) are seen by the next statement, and what a statement changed is found in the storage. When the storage fails with an error of any kind, the statement fails with an error of that kind (unless it fails for a reason of its own), has no effect, ends the request there, and never panics. The storage is asked for nothing on behalf of statements that must not run: those of a refused request, and those behind one that failed or shut down.",
 ["histories", "fault_sequences"], "all requests over all storages, failing at any call",
 "The tests run the interpreter over no storage at all, and no storage that fails.",
 ["analysis/interpreter.rs", "storage/types.rs"],
 [("trait Storage", "storage/types.rs"), ("process_statements, get_vector_element_mut", "analysis/interpreter.rs")],
 [("storage", "all state of the interpreter", "analysis/interpreter.rs")], ["calls of a Storage written for the purpose", "answers of Interpreter::interpret"])

prop("C24", "The authentication service alone decides who may do what",
 "The listeners of the multi-threaded server work with any AuthenticationService: it is asked exactly once about every request that could be read, with exactly the headers of that request, and about one request at a time. A request is handed on, once, unchanged and with the level the service gave, if and only if it gave one for this very request; what it said about earlier requests counts for nothing. Otherwise nothing is handed on and the client gets an authentication error, an authorization error (known, but without a level) or the error the service failed with; a request that could not be read is answered with its own error. This stays so when nobody takes requests any longer: allowed ones are then answered with an internal error.",
 ["histories", "schedules", "fault_sequences"], "all services, requests and moments at which rulings change",
 "The only service in the tests is the built-in table, called directly.",
 ["multithreaded/listener.rs", "auth.rs", "io/stream.rs"],
 [("convert_to_analysis_request, send_response", "multithreaded/listener.rs"), ("trait AuthenticationService", "auth.rs")],
 [("rulings", "what the service says about each client, changing over time", "auth.rs")], ["calls of an AuthenticationService written for the purpose", "AnalysisRequests handed on", "responses given to StreamSenders"])

prop("C25", "Workers and single-threaded server keep to their part with any neighbours",
 "An analysis worker hands every well-formed request on exactly once, with the statements its text means, the level it came with and its way back, and answers every malformed one with a tokenization, parse or type error, whether or not anybody waits for the result; it does so too when the executor is gone. The executor executes everything it is sent, in the order it was sent, once, whether or not anybody waits for the result or the one who asked has gone, also what was sent before it was started and after a shutdown was executed; it answers each request once. It asks for the shutdown of the others if and only if an allowed shutdown was executed. Both stop when told to, also when nobody sends them anything any longer, and none of their threads panics. A SingleThreadedServer over any stream of requests takes one after the other, answers each that has a way back once before it takes the next one, goes on when a response cannot be delivered or nobody waits for it, and returns, then only, when the stream ends or an allowed shutdown was executed.",
 ["histories", "schedules", "fault_sequences"], "all sequences of requests, levels, ways back and failures of neighbours",
 "The tests run none of them.",
 ["multithreaded/analysis.rs", "multithreaded/executor.rs", "single_threaded.rs"],
 [("analyze_request, run", "multithreaded/analysis.rs"), ("execute, run, start_shutdown_flag", "multithreaded/executor.rs")],
 [("start_shutdown_flag", "raised when a shutdown was executed", "multithreaded/executor.rs")], ["ExecutorRequests handed on", "ExecutorResponses", "start_shutdown_flag", "panics of threads"])

prop("C26", "Tokens and statements may be taken one by one",
 "The Tokenizer cuts a text into tokens in order: each has the position (counted in characters) and the very characters of the text it was made from, tokens do not overlap, and between them there is only white space; the characters of a token by themselves mean the same token. A Tokenizer taken as an iterator gives the same tokens as tokenize, and a Parser gives the same statements, or the same kind of error, whether it was made from a list of tokens, a Tokenizer or any iterator of tokens, and whether its statements are taken one by one, all at once or partly so. Taken one by one, exactly the statements before the first malformed one come out, then one error, then nothing any more: nothing behind an error or the end is ever given out. This holds for every text and for every list of tokens, also for those no text can produce, and none makes the parser panic.",
 ["inputs"], "all texts and all lists of tokens",
 "The tests tokenize and parse a handful of texts, all at once.",
 ["analysis/tokenizer.rs", "analysis/parser.rs", "analysis/tokens.rs"],
 [("next, tokenize, get_next_token", "analysis/tokenizer.rs"), ("next, parse, get_next_statement", "analysis/parser.rs")],
 [("error_encountered", "nothing is given out behind an error", "analysis/parser.rs")], ["AnnotatedToken", "Statement", "ServerError"])

prop("C27", "A TCP handler makes of each connection the request sent on it",
 "A TcpStreamHandler, of either kind, takes connections at the address and port it was made for and nowhere else, and makes exactly one request of each connection, in whatever pieces the bytes arrive and whatever the other connections do. A complete POST request with up to 32 headers and a JSON object with a string named query becomes the very text of that string and the headers as they were sent: each header whose value is text is there under its name with its value (without blanks around it; with one of them if it was sent several times), and none that was not sent. Anything else becomes an error. The way back of a request leads to the client that sent it: what is given to it arrives there completely, with the status that goes with it, also when others were answered before, when the client sent nothing more, or when the handler is gone; when it is given up the connection is closed. A client that goes away makes neither the handler nor an answer panic.",
 ["inputs", "schedules", "fault_sequences"], "all byte sequences, segmentations and orders of answers",
 "The tests open no connection.",
 ["io/tcp.rs", "io/tcp_async.rs"],
 [("receive_request, convert_stream_to_request, convert_headers_to_map, extract_request_from_body, send", "io/tcp.rs"), ("the same, asynchronous", "io/tcp_async.rs")],
 [("stream", "belongs to one request", "io/tcp.rs")], ["StreamRequests given out", "bytes received by clients", "connections refused"])

prop("C28", "Servers in one process serve side by side, whatever their sizes",
 "A Coordinator, made with any number of listeners and of analysers from one on, and a SingleThreadedServer with a TCP handler, serve at the address and port they were given and nowhere else, until a shutdown is executed. Whoever connects before serve is called is answered once it is. Each request gets the answer that belongs to it, at any size of the pools (from a Coordinator it may be a timeout, when the request took longer than it waits). Servers that run in one process at the same time share nothing: none shows the data of another, and the end of one neither ends nor stops the others. After an executed shutdown, serve returns within a minute without a panic, even while somebody is connected who says nothing; nobody is served at that address any more, at most connections are taken and closed again; then the place is free, a new server can be made there and starts empty, and in the end no thread of any of them is left.",
 ["inputs", "schedules", "histories"], "all sizes, numbers of servers, orders of requests and ends",
 "The tests start no server.",
 ["multithreaded.rs", "multithreaded/coordinator.rs", "multithreaded/listener.rs", "multithreaded/analysis.rs", "multithreaded/executor.rs", "single_threaded.rs", "io/tcp.rs"],
 [("new, serve, stop, check_for_shutdown", "multithreaded/coordinator.rs"), ("new, start, stop", "multithreaded/listener.rs"), ("new, start, stop", "multithreaded/analysis.rs"), ("new, serve", "single_threaded.rs")],
 [("start_shutdown", "belongs to one coordinator", "multithreaded/coordinator.rs"), ("interpreter", "belongs to one executor", "multithreaded/executor.rs")], ["answers to clients", "return of serve", "threads of the process", "connections taken after the end"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
