#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as a script so the JSON stays well formed)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


S = "crates/sync-lsp/src/"
T = "crates/tinymist-std/src/"

prop("C01", "Every LSP request gets exactly one response: its own id, its own result",
     "Every request a client sends to a running language server gets exactly one response, carrying the request's id and exactly the result or error (code, message and data) its handler produced, whether the handler answers at once, later, or refuses to start; a result that has no JSON form is answered with an error. Requests for unknown methods, unknown commands or resources and malformed parameters get an error response instead, and none of them stops the server. Notifications, responses and events from the client are never answered, and the server reports pending work exactly while some received request is still unanswered.",
     ["histories", "inputs", "schedules"],
     "all sequences of requests (any method, command, resource, parameters and id form), notifications and responses, with handlers that finish immediately, asynchronously in any order, or reject",
     "The only sync-ls tests serialise single messages; no test starts a server loop, so no interleaving of pending requests and no error path is reached.",
     [S + "server.rs", S + "server/lsp_srv.rs", S + "req_queue.rs"],
     [("incoming request table completed once per id", S + "req_queue.rs Incoming::{register,complete}"),
      ("schedule / schedule_tail / respond", S + "server.rs LspClient"),
      ("dispatch", S + "server/lsp_srv.rs LsDriver::on_lsp_request, on_execute_command")],
     ["messages leaving the connection's sender"], "in-memory Connection constructor")

prop("C02", "The LSP lifecycle decides what is served: initialize, ready, shutdown, exit",
     "Until a well-formed initialize request and then the initialized notification have been received, every other request is refused with the 'server not initialized' code and no request, notification or response handler runs; a second initialize is refused as an invalid request, and an initialize with malformed parameters is refused and can be retried. After a shutdown request has been handled every further request is refused as invalid and no notification, event or response handler runs. An exit notification ends the server loop in any state, and closing the input ends it too.",
     ["histories"],
     "all sequences of lifecycle messages (including repeated, out-of-order and malformed ones) mixed with ordinary requests, notifications, responses and internal events",
     "No test drives the state machine; the four states times all message kinds are only reachable by histories.",
     [S + "server.rs", S + "server/lsp_srv.rs"],
     [("state machine", S + "server/lsp_srv.rs on_lsp_request/on_notification"), ("loop", S + "server/lsp_srv.rs start_")],
     ["responses and which handlers ran"], "in-memory Connection constructor",
     [("state", "Uninitialized / Initializing / Ready / ShuttingDown", S + "server.rs State")])

prop("C03", "Each response from the client reaches the request that asked for it, once",
     "Requests the server sends to the client carry pairwise distinct ids and the method and parameters given, and the first response with such an id runs exactly that request's handler, once, with that response's result or error, on the running service. Responses with an id that is not outstanding (unknown, already answered, of another form) run no handler and do no harm, and handlers may themselves send further requests.",
     ["histories", "schedules"],
     "all histories of outgoing requests (also from several threads and from inside handlers) and of client responses in any order, duplicated, missing or with foreign ids",
     "No test sends a server-to-client request.",
     [S + "server.rs", S + "server/lsp_srv.rs", S + "req_queue.rs"],
     [("outgoing table", S + "req_queue.rs Outgoing::{alloc_request_id,register,complete}"),
      ("completion", S + "server.rs LspClient::complete_lsp_request"), ("typed cast", S + "server.rs TypedLspClient::cast")],
     None, "in-memory Connection constructor")

prop("C04", "Messages and events reach exactly their own handler, intact and in arrival order",
     "On a ready server every request, notification, command and resource request runs exactly the handler registered for its method, command name or resource path, with exactly the parameters sent, and handlers run one at a time in the order in which the messages arrived. Events the server sends itself run the handler registered for their type, in the order sent, and messages already waiting are served before events. Unregistered notifications and events are ignored, and a failing notification handler does not stop the server.",
     ["histories", "inputs"],
     "all handler registrations and all sequences of messages and self-sent events with arbitrary JSON parameters",
     "No test registers a handler or dispatches a message.",
     [S + "server.rs", S + "server/lsp_srv.rs"],
     [("dispatch tables", S + "server.rs LsBuilder::with_*"), ("event dispatch by TypeId", S + "server/lsp_srv.rs start_"),
      ("biased receive", S + "server.rs TConnectionRx::recv"), ("resources", S + "server.rs LsDriver::get_resources")],
     None, "in-memory Connection constructor")

prop("C05", "Protocol messages survive the wire unchanged, however the bytes are split",
     "Writing any sequence of LSP or DAP messages and reading the bytes back yields the same messages in the same order, however the transport splits or buffers the stream, and whatever extra headers and header-name casing the sender uses. Each written message is a valid frame: a Content-Length equal to the byte length of its UTF-8 JSON body, tagged with JSON-RPC version 2.0, and has left the writer's buffers when writing it returns. A stream that ends between messages ends cleanly, and one that ends inside a message body yields an error and never a message.",
     ["inputs"],
     "all message sequences with arbitrary JSON, ids and unicode text, all chunkings, all truncation points",
     "Six tests compare single fixed notifications; none reads from a split or truncated stream.",
     [S + "msg.rs", S + "lsp.rs", S + "dap.rs", S + "transport.rs"],
     [("framing", S + "msg.rs read_msg_text/write_msg_text"), ("codec", S + "lsp.rs Message::{read,write}"), ("codec", S + "dap.rs Message::{read,write}")])

prop("C06", "No byte stream can crash the message reader or make it invent a message",
     "Whatever bytes arrive, reading a protocol message returns a message, a clean end of stream or an error; it never panics, aborts, or allocates memory out of proportion to the bytes actually received. A message is returned only if the frame's header and body are well formed, and it consumes exactly that frame, so that a valid frame following it is still read correctly.",
     ["inputs"],
     "all byte strings: random, mutated frames, hostile headers and lengths, invalid UTF-8 and JSON",
     "Tests only feed well-formed bytes.",
     [S + "msg.rs", S + "lsp.rs", S + "dap.rs"],
     [("header parser", S + "msg.rs read_msg_text"), ("payload parser", S + "lsp.rs Message::_read"), ("payload parser", S + "dap.rs Message::_read")])

prop("C07", "A recorded session is the input verbatim, and replaying it gives the same output",
     "Mirroring a session records exactly the bytes the server consumed from its standard input, whatever an older recording in the same file held, and changes nothing about how the session is served, also when the recording cannot be written. Replaying the recording makes the server handle the same messages in the same order and, for a server whose output is determined by its input, produce the same output, with every request in the recording answered before the server exits, also when answers are computed asynchronously.",
     ["histories", "inputs"],
     "all sessions (message sequences, framings, chunkings of standard input) of a deterministic server",
     "No test runs a server with --mirror or --replay.",
     [S + "transport.rs", S + "server/lsp_srv.rs", S + "server/dap_srv.rs"],
     [("mirror", S + "transport.rs MirrorWriter"), ("replay wait", S + "server/lsp_srv.rs start"), ("io threads", S + "transport.rs with_stdio_transport")])

prop("C08", "Debug adapter sessions: one response per request, matched by sequence number",
     "Every DAP request gets exactly one response whose request_seq is the request's seq, successful with the handler's body or unsuccessful with its message. Requests before initialize, a second initialize, unknown commands and requests after disconnect are refused without running a handler; events from the client are dispatched by name only while the session is running and are never answered. Events the adapter sends carry pairwise distinct sequence numbers.",
     ["histories", "inputs", "schedules"],
     "all DAP message sequences, with immediate, asynchronous and rejecting handlers, all sequence numbers",
     "No DAP test exists.",
     [S + "server/dap_srv.rs", S + "dap.rs", S + "server.rs"],
     [("dispatch", S + "server/dap_srv.rs on_request/on_event"), ("respond", S + "server.rs respond_any_result")],
     None, "in-memory Connection constructor")

prop("C09", "A message is classified by its shape: request, response or notification",
     "For every JSON object that is a valid LSP message (an id being a string or a 32-bit integer), in any key order and with any additional members, decoding gives a request exactly when it has an id and a method, a response when it has an id but no method, and a notification when it has a method but no id, and keeps id (number and string ids stay different), method, params, result and error code, message and data. Extracting typed parameters succeeds only for the named method and hands back the whole message otherwise.",
     ["inputs"],
     "all JSON objects with the JSON-RPC members present or absent, in any order, with arbitrary values and unknown members",
     "Fixed examples cover only absent or null params of notifications.",
     [S + "lsp.rs", S + "msg.rs", S + "error.rs"],
     [("untagged decoding", S + "lsp.rs Message"), ("id representation", S + "msg.rs RequestId"), ("extract", S + "lsp.rs Request::extract, Notification::extract")])

prop("C10", "Fingerprints are 128-bit values with a lossless, unambiguous text form",
     "A fingerprint converts to and from a 128-bit integer, a pair of 64-bit halves, its text id, JSON and its archived binary form without loss, and two different fingerprints never share a text id. Text that is not the id of any fingerprint is rejected with an error, never accepted as some other fingerprint and never a crash.",
     ["inputs"],
     "all 128-bit values, weighted to sparse halves and zero bytes; all strings for the parser",
     "One test converts a single fingerprint.",
     [T + "hash.rs"],
     [("text form", T + "hash.rs Fingerprint::{as_svg_id,try_from_str}"), ("serde", T + "hash.rs impl Serialize/Deserialize")])

prop("C11", "Equal items get equal fingerprints and different items different ones",
     "Fingerprints and hashes are a function of the value alone: equal values give equal results in every builder, thread and process of the same build, and hashing in one piece or in many with the same bytes gives the same result. Resolving fingerprints through one builder, also from many threads at once, never gives two different items the same fingerprint and never panics for distinct small values, and values of different types are kept apart by the checked form.",
     ["inputs", "schedules"],
     "all sets of values (integers, strings, tuples, nested collections) of several types, in any order of resolution, from several threads",
     "One test hashes one constant.",
     [T + "hash.rs"],
     [("hashers", T + "hash.rs FingerprintSipHasher"), ("conflict check", T + "hash.rs FingerprintBuilder::resolve"), ("128-bit hash", T + "hash.rs hash128/item_hash128")])

prop("C12", "The sharded fingerprint map is a map, for every shard count and thread schedule",
     "Whatever shard count is asked for, inserting, looking up, testing and draining by fingerprint behaves like one ordinary map: each fingerprint always goes to the same shard, nothing is lost, duplicated or found under another key, and draining yields every entry exactly once. This holds under concurrent use from many threads.",
     ["inputs", "histories", "schedules"],
     "all operation sequences over clustered and spread fingerprints and all shard counts",
     "One test reads the default shard count.",
     [T + "adt/fmap.rs"],
     [("routing", T + "adt/fmap.rs FingerprintMap::shard"), ("size rounding", T + "adt/fmap.rs FingerprintMap::new")])

prop("C13", "An atomic file write is all or nothing and leaves no debris",
     "After an atomic write returns success the file holds exactly the new bytes with the permission bits the previous file had, and no other directory entry has appeared or changed; when it fails, the old file is untouched and no temporary file remains. A concurrent reader, or anyone looking after the writer is killed at any point, sees the complete old or the complete new contents, never a mixture or a missing file.",
     ["inputs", "crash_points", "fault_sequences", "schedules"],
     "all old/new contents, modes and directory states; a write failing or the process being killed at any system call; concurrent writers and readers",
     "Two tests do a single successful write and one permission check.",
     [T + "fs/paths.rs"],
     [("temp file and rename", T + "fs/paths.rs write_atomic")])

prop("C14", "File helpers do what they say to exactly the paths named",
     "Reading, writing, appending, write-if-changed, copying, linking, removing and creating directories change the file tree exactly as documented and nothing else: write-if-changed leaves an identical file untouched (contents and modification time), append only extends, link-or-copy makes the destination read as the source whatever was there before, and the helpers report failure whenever their effect did not happen. Removing a directory tree never follows a symbolic link out of the tree, and temporary directories disappear when their callback ends, even by panic or error.",
     ["inputs", "histories"],
     "all sequences of helper calls over small trees with files, directories, hard links, symbolic links (also broken, cyclic, to directories), read-only entries and missing parents",
     "Only write and write_atomic are tested, once each.",
     [T + "fs/paths.rs"],
     [("helpers", T + "fs/paths.rs write_if_changed, append, link_or_copy, remove_dir_all, remove_file, create_dir_all_excluded_from_backups_atomic, temp_dir_in")])

prop("C15", "Lexical path operations agree with what the paths denote",
     "Cleaning and normalising a path is idempotent, removes every '.', and every '..' that has something to cancel, and still denotes the same place; a slash-form path has no backslash artefacts, keeps every component and never gains or loses absoluteness. The relative difference from a base to a target, joined to the base and cleaned, is the target, and ancestor walks list every prefix once, from the path itself up to the root or the stop directory.",
     ["inputs"],
     "all relative and absolute paths over '.', '..', repeated slashes, unicode and odd names",
     "A few dozen fixed paths are tested for cleaning; nothing for the difference, normalisation or ancestors.",
     [T + "path.rs", T + "fs/paths.rs"],
     [("lexical functions", T + "path.rs unix_slash, clean, diff"), ("lexical functions", T + "fs/paths.rs normalize_path, ancestors, strip_prefix_canonical, join_paths")])

prop("C16", "File locks: many readers or one writer, released when dropped",
     "At any time a locked file is held either by any number of shared holders or by exactly one exclusive holder, across threads and processes; a non-blocking attempt succeeds exactly when that rule allows it, and a blocking attempt waits until it does. Dropping a lock, or the death of its holder, releases it; the creating forms create missing parents and never truncate existing contents, and clearing a locked file's siblings removes everything else in its directory and nothing outside it.",
     ["histories", "schedules", "crash_points"],
     "all sequences of lock attempts, drops and holder deaths over a few files in several processes and threads",
     "No test touches file locks.",
     [T + "fs/flock.rs"],
     [("flock", T + "fs/flock.rs Filesystem::*"), ("release on drop", T + "fs/flock.rs Drop for FileLock"), ("siblings", T + "fs/flock.rs FileLock::remove_siblings")])

prop("C17", "A query runs at most once and everybody sees its one result",
     "However many threads ask for the same query at the same time, its computation runs exactly once, consumes its context once, and every caller, then and later, gets that one value or a clone of that one error. Before that, looking without computing reports nothing and never blocks, and a query created with a value never runs a computation.",
     ["histories", "schedules"],
     "all sequences of compute and peek calls with succeeding and failing computations from several threads",
     "No test exists for query cells.",
     [T + "concepts/query.rs"],
     [("once cell", T + "concepts/query.rs QueryRef::compute_with_context")])

prop("C18", "Shared-ownership and byte helpers never lose or alias data",
     "Taking a value out of shared ownership yields an equal value and leaves every other holder's value unchanged by later mutation, copying only if there is another holder; a borrowed-or-owned mutable handle writes through when borrowed and only locally when owned. Byte strings serialise to standard padded base64 and back without loss, and text that is no base64 (foreign characters, impossible lengths, stray bits) is rejected.",
     ["inputs", "histories"],
     "all byte strings, all texts for the decoder, all sharing patterns and mutations",
     "No tests.",
     [T + "concepts/takable.rs", T + "concepts/cow_mut.rs", T + "concepts/marker.rs"],
     [("take", T + "concepts/takable.rs"), ("cow", T + "concepts/cow_mut.rs"), ("base64", T + "concepts/marker.rs AsCowBytes")])

prop("C19", "Errors keep their cause, context and arguments all the way to the message",
     "Attaching context to a failure keeps the location and every argument given retrievable, in order, and the printed message shows the location, the original message and the arguments; successes pass through untouched and context is only computed on failure. A message without a location prints as the message itself, and nesting errors, by wrapping or by adding context, keeps every level's text, outermost first.",
     ["inputs", "histories"],
     "all messages, locations, argument lists and nestings of the context combinators and macros",
     "One test checks that errors can be sent between threads.",
     [T + "error.rs"],
     [("context traits", T + "error.rs WithContext, WithContextUntyped"), ("display", T + "error.rs Display for Error"), ("macros", T + "error.rs error_once!, bail!")])

prop("C20", "Timestamps convert exactly or not at all",
     "Converting a Unix timestamp or a system time to a UTC date-time gives the calendar date and time of that instant exactly, for dates before and after 1970, and a timestamp outside the supported years gives no value rather than a wrong one. Conversion preserves order.",
     ["inputs"],
     "all 64-bit timestamps and all representable system times with nanoseconds",
     "No tests.",
     [T + "time.rs"],
     [("conversion", T + "time.rs ToUtcDateTime")])

L = "crates/tinymist-l10n/src/lib.rs"
prop("C21", "Translated messages substitute every argument and change nothing else",
     "Formatting a message template replaces each placeholder that names a supplied argument by exactly that argument's text and leaves every other character of the template as it is, for any order, repetition and adjacency of placeholders and any text in the arguments, which is never itself substituted again. Placeholders without a matching argument stay readable in the output. Without a translation the default message is used.",
     ["inputs"],
     "all templates of text and placeholders, all argument lists, with and without a translation",
     "There is no test of the lookup or of argument substitution.",
     [L],
     [("substitution", L + " t_with_args"), ("lookup", L + " t_without_args, find_message")])

prop("C22", "The locale setting selects the best available catalogue, and falls back safely",
     "After a locale has been chosen a message is looked up in the catalogue of exactly that locale if there is one, and otherwise in that of the closest more general locale, down to the language alone, compared without regard to letter case; a message or locale without a translation yields the default text of the call. Quoted catalogue messages are unescaped, and lookups give the same answer in every thread.",
     ["inputs", "configurations"],
     "all catalogues and all locale tags (language, region, script, any case, unknown, empty), set at start-up",
     "No tests.",
     [L],
     [("locale selection", L + " set_locale, set_translations"), ("loading", L + " load_translations")])

prop("C23", "Translation catalogues survive being written and read",
     "Writing a catalogue of messages (one-line keys and locales, an English text for each key) and reading it back gives the same keys, locales and messages, for every message text including quotes, line breaks, brackets and non-ASCII, and writing is deterministic with keys in sorted order. Reading any text returns a catalogue or an error, never a crash, and ignores comments and blank lines.",
     ["inputs"],
     "all catalogues (keys, locales, messages) and all texts for the reader",
     "One snapshot test reads and writes nothing beyond a fixed sample.",
     [L],
     [("reader", L + " deserialize"), ("writer", L + " serialize_translations"), ("transposition", L + " load_translations key_first")])

prop("C24", "Updating a catalogue keeps translators' work and follows the sources",
     "Updating a catalogue with the messages found in the sources keeps every existing non-English translation of a message that is still used, drops entries that are no longer used, adds new ones with their default text, and makes the English text equal to the source. Running the update twice changes nothing the second time, whatever order the sources were read in.",
     ["inputs", "histories"],
     "all pairs of existing catalogue and extracted messages, all orders, repeated updates",
     "No tests.",
     [L],
     [("update", L + " update_translations, update_disk_translations")])

prop("C25", "Message extraction finds exactly the translatable calls in the sources",
     "Extraction over a source tree reports every fully qualified translation call (tinymist_l10n::t!, tinymist_l10n::bail! and the editor's l10nMsg) with ordinary string literals as arguments, at any position, spacing and nesting, with the key and message as the compiler would read the literals, exactly once per key, and reports nothing for other code; no text makes it crash. The result does not depend on file order or on the number of threads.",
     ["programs", "inputs"],
     "all source files built from translation calls (various spacing, escapes, trailing commas, arguments) and unrelated code",
     "No tests.",
     ["crates/tinymist-l10n/src/main.rs"],
     [("scanner", "crates/tinymist-l10n/src/main.rs check_calls, parse_str")])

prop("C26", "Derived code forwards and names exactly what the declaration says",
     "For every structure the derive macros accept, the generated type context forwards each query (global bounds with their polarity, local bindings) to the declared field, or to the default one if none is declared, with the same arguments and result. For every enum of declarations, the generated accessors return the payload's own name and span, and the debug form shows the variant's own name around the payload's, for every number (at least one) and order of variants.",
     ["programs"],
     "all structs (named context field, generics, lifetimes, other fields) and enums (any number and order of variants) in the macros' input shape",
     "No tests.",
     ["crates/tinymist-derive/src/lib.rs"],
     [("macros", "crates/tinymist-derive/src/lib.rs bind_ty_ctx, gen_decl_enum")])

V = "crates/tinymist-vfs/src/"
prop("C27", "The virtual file system shows buffers over disk, consistently per revision",
     "A file read through the virtual file system shows the editor's in-memory contents if there is one, else the last contents reported by the watcher, else the disk; adding, changing or removing an overlay takes effect in the next revision and removing it restores what was beneath. Within one snapshot every read of a file returns the same answer, also after later edits, and a revision never serves contents from a superseded one.",
     ["histories"],
     "all histories of overlay and watcher updates, resets, reads and snapshots over a few files",
     "No vfs test runs without the unavailable typst crates.",
     [V + "lib.rs", V + "overlay.rs", V + "notify.rs", V + "snapshot.rs"],
     [("layers", V + "lib.rs VfsAccessModel"), ("revisions", V + "lib.rs Vfs::{revise,snapshot}"), ("overlay", V + "overlay.rs")])

prop("C28", "File ids and workspace paths translate back and forth and stay inside the root",
     "A path under a workspace root maps to a file id and back to the same path, equal ids denote equal (root, path) pairs, and different roots never share ids; resolving an id never yields a path outside its root. Rootless and package ids are never mistaken for workspace ids.",
     ["inputs", "histories"],
     "all roots and virtual paths, including '.', '..' and repeated slashes, in any interning order",
     "No vfs test runs without the unavailable typst crates.",
     [V + "path_mapper.rs"],
     [("interner", V + "path_mapper.rs WorkspaceResolver")])

Q = "crates/tinymist-query/src/"
prop("C29", "Semantic token edits turn the previous tokens into the current ones",
     "For any history of full and delta requests over any files and clients, applying a delta answer's edits (start and delete count in integers of the flat encoding) to the tokens of the answer it names as previous gives exactly the current tokens, and equal tokens give no edit. A previous id the server does not know (anymore), or of another file, is answered with the full tokens; ids are never given out twice, and clearing the cache while requests are in flight breaks neither them nor later ones.",
     ["inputs", "histories"],
     "all histories of requests, clearings and token lists, with shared prefixes, suffixes and overlaps",
     "The crate cannot be built here and its tests use fixed documents.",
     [Q + "semantic_tokens_delta.rs", Q + "semantic_tokens_full.rs", Q + "analysis/semantic_tokens.rs"],
     [("diff", Q + "semantic_tokens_delta.rs token_delta"), ("cache", Q + "analysis/semantic_tokens.rs SemanticTokenCache")])

A = "crates/tinymist-analysis/src/"
prop("C30", "Editor positions and byte offsets convert without loss in both encodings",
     "For every document and every character boundary, converting a byte offset to an editor position and back gives the same offset, in UTF-8 and UTF-16, positions increase with offsets, and they agree with counting lines and code units by hand. A position past the end of a line is the end of that line, before its line break; one past the last line is the end of the document; one inside of a character is one of that character's ends; none fails, and an offset beyond the document has a position beyond every one within it.",
     ["inputs"],
     "all documents (any line endings, astral characters, empty lines) and all offsets and positions",
     "Fixed strings only, in a crate that cannot be built here.",
     [A + "location.rs"],
     [("conversion", A + "location.rs to_typst_position, to_lsp_position")])

prop("C31", "Cached analysis revisions: latest usable base, locked ones never collected",
     "Looking up a revision returns the cached slot of exactly that revision or creates one from the newest not-newer slot, and garbage collection triggered by unlocking never drops a slot that a still-held lock may need nor the latest one.",
     ["histories"],
     "all histories of lock, unlock, lookup and collection with increasing and repeated revisions",
     "The crate cannot be built here; no test exists.",
     [Q + "adt/revision.rs"],
     [("revision manager", Q + "adt/revision.rs RevisionManager")])

prop("C32", "Published diagnostics are always the union of what each project last reported",
     "After any sequence of diagnostic reports from several projects, the set last published for each file is exactly the concatenation of the latest diagnostics each project has for that file, and a file that lost its diagnostics has been published as such.",
     ["histories"],
     "all sequences of per-project diagnostic reports and withdrawals over a few files",
     "The crate cannot be built here; no test exists.",
     ["crates/tinymist/src/actor/editor.rs"],
     [("publish", "crates/tinymist/src/actor/editor.rs EditorActor::publish, publish_file")])

prop("C33", "Page selections and project resource paths parse back to what they print",
     "Every page range prints to text that parses back to the same range, malformed ranges are rejected with an error, and a resource path prints to text that parses back to the same path and resolves to the same file for every base directory.",
     ["inputs"],
     "all page ranges, all texts, all resource paths",
     "The crate cannot be built here; only path substitution is tested.",
     ["crates/tinymist-task/src/primitives.rs"],
     [("page ranges", "crates/tinymist-task/src/primitives.rs Pages"), ("resource paths", "crates/tinymist-task/src/primitives.rs ResourcePath")])

prop("C34", "The project lock file keeps every project across concurrent updates",
     "Updating the project lock file keeps all documents, tasks and routes of other projects, replaces those with the same id, and produces a file that reads back as exactly the state written, also when several processes update it at once.",
     ["histories", "schedules", "crash_points"],
     "all sequences and interleavings of updates with arbitrary project inputs, tasks and routes",
     "The crate cannot be built here; no test exists.",
     ["crates/tinymist-project/src/lock.rs", "crates/tinymist-project/src/model.rs"],
     [("update", "crates/tinymist-project/src/lock.rs LockFile::update, serialize_resolve")])

prop("C35", "Copying a package between containers preserves its files and stays inside them",
     "Cloning a package from a directory, a tarball or memory into another container reproduces every regular file with its relative path and bytes, honours the filter, and writes nothing outside the destination directory.",
     ["inputs"],
     "all package trees and archives, including entries with '..', absolute names, links and odd names",
     "The crate cannot be built here; no test exists.",
     ["crates/tinymist-package/src/pack.rs", "crates/tinymist-package/src/pack/fs.rs", "crates/tinymist-package/src/pack/tarball.rs", "crates/tinymist-package/src/pack/memory.rs"],
     [("packs", "crates/tinymist-package/src/pack/*.rs")])

prop("C36", "The server's copy of a document equals the editor's after every edit",
     "After any sequence of incremental and full document changes the server's text of an open document equals the editor's, so that every query is answered for the text the user sees.",
     ["histories", "inputs"],
     "all documents and all sequences of changes in both position encodings",
     "Language-server end-to-end tests replay a few recorded sessions and need the unavailable typst crates.",
     ["crates/tinymist/src/input.rs", A + "location.rs"],
     [("edits", "crates/tinymist/src/input.rs edit_source"), ("ranges", A + "location.rs to_typst_range")])

prop("C39", "Document URLs and paths name the same document in both directions",
     "For every absolute file path (any bytes: spaces, '#', '?', '%', non-ASCII, not UTF-8) the URL the server publishes decodes to that path and converts back to it, and so does every URL a client may write for it, however much of it is percent-encoded. The same holds for untitled documents of any name, with or without a leading slash: the URL published names the document the client opened.",
     ["inputs"],
     "all absolute paths and untitled names, and their percent-encodings",
     "Two fixed examples, in a crate that cannot be built here.",
     [Q + "lsp_typst_boundary.rs"],
     [("conversion", Q + "lsp_typst_boundary.rs path_to_url, url_to_path, untitled_url, path_res_to_url")])

prop("C51", "What is compiled and shown follows the open buffers and the disk",
     "After any history of opening, editing and closing documents, changes of files on disk (in place, truncated first, replaced, renamed, removed), changes of the entry and inputs, dedicated projects that come and go, and compilation results and watcher events that arrive late and in any order: once everything has settled, every project shows the document, and the editor has the diagnostics, of a fresh compilation of the buffers and files as they are; what no longer is compiled has no diagnostics left; every file that was compiled is watched; and nothing keeps compiling forever or panics. Files that did not exist when they were last looked for are noticed at the next compilation.",
     ["histories", "schedules", "faults"],
     "all histories of edits, file changes, project changes and late deliveries",
     "No test drives the pipeline; what fails depends on the order in which messages of four actors arrive.",
     ["crates/tinymist-project/src/compiler.rs", "crates/tinymist-project/src/watch.rs", "crates/tinymist/src/project.rs", "crates/tinymist-vfs/src/lib.rs", "crates/tinymist-world/src/world.rs"],
     [("compiler", "crates/tinymist-project/src/compiler.rs ProjectCompiler::process_inner"), ("watcher", "crates/tinymist-project/src/watch.rs NotifyActor"), ("handler", "crates/tinymist/src/project.rs CompileHandlerImpl")])

prop("C56", "Exports happen when they are configured to, and of the latest document",
     "An edit is compiled and told as an edit, a save as a save, and a requested compilation as such, and changes nobody depends on are not compiled. Exports configured on typing follow edits, those on saving (with a title, if so asked) follow saves, both follow requested compilations, and never otherwise; documents that fail to compile are not exported. Of each project the exports appear in the order of its revisions and the last one is of the last document due, whatever other projects export meanwhile; the words counted last are those of the last document.",
     ["histories", "schedules"],
     "all histories of edits, saves and requests over several projects, with exports that take their time",
     "Needs histories of several projects and revisions; no test exists.",
     ["crates/tinymist/src/task/export.rs", "crates/tinymist/src/task/mod.rs", "crates/tinymist/src/project.rs", "crates/tinymist-project/src/compiler.rs"],
     [("signals", "crates/tinymist/src/project.rs CompileHandlerImpl::on_any_compile_reason"), ("exports", "crates/tinymist/src/task/export.rs ExportTask::signal_export"), ("folding", "crates/tinymist/src/task/mod.rs FutureFolder")])

prop("C40", "A document is compiled in the root its configuration and surroundings give",
     "For every configuration, workspace and document: the root is the configured root path if there is one; otherwise the first workspace root the document is in; otherwise the nearest directory above it with a typst.toml (as found when the server first looked, while that is still there); otherwise the document's directory. The document is that file within that root (within its own directory if it is outside of the configured root), asking again gives the same, the lock is at that root exactly when locks are used, a relative default entry is taken from the configured or first root, and without a document there is only the workspace.",
     ["inputs", "histories"],
     "all configurations, workspace folders and document paths (directories whose names are prefixes of others included), and histories of manifests coming and going",
     "Three examples in a crate that cannot be built here.",
     ["crates/tinymist-project/src/entry.rs", "crates/tinymist-world/src/entry.rs"],
     [("resolution", "crates/tinymist-project/src/entry.rs EntryResolver::root, resolve, resolve_with_root, resolve_lock, resolve_default"), ("entries", "crates/tinymist-world/src/entry.rs EntryState")])

prop("C43", "With project locks, a file is compiled as part of the document that includes it",
     "After any history of documents being recorded in lock files (with the files they include) and of restarts: an open file is compiled in the document that was recorded last among those including it in the nearest lock above it that knows the file, with the lock's directory as root; a file no lock knows, an unreadable or removed lock, or a server that doesn't use locks leads to the file itself. What a running server has read from a lock it keeps.",
     ["histories"],
     "all histories of recording documents in nested lock files, of damaged and removed locks, of restarts and of questions",
     "No test exists; the crate cannot be built here.",
     ["crates/tinymist/src/route.rs", "crates/tinymist/src/input.rs", "crates/tinymist-project/src/lock.rs"],
     [("routes", "crates/tinymist/src/route.rs ProjectRouteState"), ("resolution", "crates/tinymist/src/input.rs resolve_task"), ("recording", "crates/tinymist-project/src/lock.rs LockFileUpdate")])

prop("C44", "The main document is the pinned, the configured or the focused one",
     "After any history of pinning, focusing, opening, activity in documents, previews beginning and ending, and settings changing: a pinned document stays the main one until it is unpinned, then it is the configured default entry if there is one, otherwise the document in focus; focusing always remembers the document but makes it the main one only while nothing is pinned (by the user, or by a preview that does not follow the focus) and no default entry is configured; opening a document focuses it only for clients that neither focus by command nor have shown activity; activity focuses it only for clients that do not focus by command; dedicated projects are left alone; a rejected (relative) path changes nothing and is reported.",
     ["histories"],
     "all histories of commands, notifications and previews over documents in and outside the workspace, untitled and relative ones",
     "End-to-end tests replay recorded sessions and need the unavailable typst crates.",
     ["crates/tinymist/src/input.rs", "crates/tinymist/src/cmd.rs", "crates/tinymist/src/lsp.rs"],
     [("pinning and focusing", "crates/tinymist/src/input.rs pin_main_file, focus_main_file, implicit_focus_entry, change_main_file, set_pin_by_preview"), ("commands", "crates/tinymist/src/cmd.rs pin_document, focus_document"), ("opening", "crates/tinymist/src/lsp.rs did_open")])

prop("C45", "Applying a format edit gives exactly the formatted text",
     "For every document and every formatted text, the edits sent to the editor, applied as the protocol says to the document as it was, give exactly the formatted text, in both position encodings and with every kind of line break; there are none if and only if nothing changed.",
     ["inputs"],
     "all pairs of texts, in particular those that differ within characters that share bytes and in their line breaks",
     "No test exists; the crate cannot be built here.",
     ["crates/tinymist/src/task/format.rs", A + "location.rs"],
     [("edits", "crates/tinymist/src/task/format.rs calc_diff")])

prop("C47", "Only the preview's own pages and the editor may talk to a preview",
     "For every Origin header and every address a preview is served at: it is accepted exactly when it is the preview's own origin, a page at http://localhost or http://127.0.0.1, an editor's webview, or the workspace's own origin at gitpod; whatever a foreign origin has as its user, port, path or parts of its name, it is refused, and no header crashes the server.",
     ["inputs"],
     "all headers, addresses, ports and gitpod workspaces",
     "The examples in the tests cover a handful of headers.",
     ["crates/tinymist/src/tool/preview/http.rs"],
     [("check", "crates/tinymist/src/tool/preview/http.rs is_valid_origin_impl")])

prop("C48", "The configuration in use is the one the editor set, and the server follows it",
     "For every history of configurations given at initialization, pushed (also below the server's own name in an object shared with other servers), or announced and asked for: what is in use depends only on the last accepted one; every documented setting has its given value, or its default if it is missing, null or invalid, and every invalid one is warned of by name; with the documented precedence (settings over extra arguments over the server's own command line; the configured root over the argument over the workspace); a configuration with a relative root is rejected and changes nothing. After each change exports, the formatter, the status shown, the registered capabilities and the projects (when fonts or the root changed) are those of the new configuration, the same configuration again does nothing, and the capabilities announced at the start (the encoding of positions among them) are the ones used.",
     ["inputs", "histories", "configurations"],
     "all configurations (valid, invalid, null and foreign members; extra arguments in both spellings), all client capabilities, and all histories of pushes, announcements, answers in any order and failures",
     "Examples of a few settings in a crate that cannot be built here; nothing tests changes of a running server.",
     ["crates/tinymist/src/config.rs", "crates/tinymist/src/lsp.rs", "crates/tinymist/src/lsp/init.rs", "crates/tinymist-world/src/args.rs"],
     [("settings", "crates/tinymist/src/config.rs Config::update, update_by_map, values_to_map, font_opts, export, formatter, inputs"), ("changes", "crates/tinymist/src/lsp.rs on_changed_configuration, did_change_configuration, enable_sema_token_caps, enable_formatter_caps"), ("start", "crates/tinymist/src/lsp/init.rs SuperInit, RegularInit"), ("arguments", "crates/tinymist-world/src/args.rs CompileOnceArgs")])

prop("C41", "An export command writes the requested document to the configured file",
     "For every history of edits, saves, changes on disk, settings and (concurrent) export commands: an export answers with the path that the output pattern gives for that document ($root, $dir and $name substituted once each, relative patterns taken from the root, without a pattern beside the document), with the extension of the format; that file then contains the named document as it is now (what the editor has, else what is on disk now), in the requested format with the requested or configured options (pages, gap, ppi, fill, PDF standards and timestamp, query selector, field and form). An export that cannot be done (errors, bad options, no such element, something in the way) is answered with an error, and never with a path; it leaves the file as it was. It is opened exactly if asked to; it is recorded in the lock file exactly if locks are configured; no other file is written, and every command is answered.",
     ["histories", "inputs"],
     "all histories of edits, settings and exports of all kinds, patterns, file names (with spaces, dots, dollar signs) and options, several exports at once",
     "One example of substitution and no test of exporting; the crate cannot be built here.",
     ["crates/tinymist/src/task/export.rs", "crates/tinymist/src/cmd.rs", "crates/tinymist/src/server.rs", "crates/tinymist-task/src/primitives.rs", "crates/tinymist-task/src/compute.rs", "crates/tinymist-task/src/model.rs"],
     [("exports", "crates/tinymist/src/server.rs ServerState::on_export; crates/tinymist/src/task/export.rs ExportTask::do_export"), ("commands", "crates/tinymist/src/cmd.rs ServerState::export_*"), ("paths", "crates/tinymist-task/src/primitives.rs PathPattern::substitute"), ("pages", "crates/tinymist-task/src/compute.rs get_page_selection")])

prop("C57", "The two-level fingerprint builder never gives two items one fingerprint",
     "With the optional bi-hash feature, one builder gives every item (by its type and contents in the checked form, by its contents in the unchecked form) one fingerprint, the same every time it is asked for, and never gives two different items the same one: not when their short 32-bit hashes collide, in no order of asking, and not when several threads ask for colliding items of a builder at the same time. It never panics.",
     ["inputs", "histories", "schedules"],
     "all orders of items of several types, with colliding short hashes, asked for by one or several threads",
     "No test builds the feature.",
     ["crates/tinymist-std/src/hash.rs"],
     [("two levels", "crates/tinymist-std/src/hash.rs FingerprintBuilder::resolve, resolve_unchecked (cfg bi-hash)")])

prop("C46", "A preview page that asks for the document ends up showing the latest one",
     "For every history of compilations (on type, on save, of another entry, with and without a document), pages that connect, ask, read slowly and leave, and everything else that is said meanwhile: once things come to rest, every page that asked for the document (or was there before the last one) shows the latest document the refresh style admits; each difference it was sent applies to what it showed, and it never goes back to an older document. The first frames tell a page how to draw. The editor is told the state of each such compilation, in order. A server that is to stop when idle does so when no page was open for five seconds, and not while one is; a previewer that is told to stop does. All this holds too when documents come while other threads draw, and when a renderer is too slow for what is asked of it.",
     ["histories", "schedules"],
     "all histories of compilations, pages and requests, and (sampled) thread schedules of their handling",
     "The crate has no test, and cannot be built in the workspace here.",
     ["crates/typst-preview/src/lib.rs", "crates/typst-preview/src/actor/render.rs", "crates/typst-preview/src/actor/webview.rs", "crates/typst-preview/src/actor/editor.rs"],
     [("render actor", "crates/typst-preview/src/actor/render.rs RenderActor::process_message, run"), ("pages", "crates/typst-preview/src/actor/webview.rs WebviewActor::run; crates/typst-preview/src/lib.rs DataPlane, Previewer"), ("documents", "crates/typst-preview/src/lib.rs CompileWatcher::notify_compile")])

prop("C49", "What a page or the editor asks of the preview reaches the other side",
     "For every history of requests: a page's or the editor's request for a position, an outline entry, a place in the source or the cursor is passed on to whom it is for (scrolls to every page, jumps to the source to the editor, at the earlier and later of the two places that were selected, within the element the selection ends in), and nothing is passed on that nobody asked for. Memory files the editor speaks of reach the server in order and unchanged. A request that makes no sense (unknown words, ids that are no ids, malformed positions, binary frames) harms at most the page that sent it: the editor and the other pages go on being served. So does a backlog: however many requests come at once, later ones are served.",
     ["histories", "inputs"],
     "all histories of requests by several pages and the editor, well-formed and not, in bursts and one by one",
     "The crate has no test, and cannot be built in the workspace here.",
     ["crates/typst-preview/src/actor/editor.rs", "crates/typst-preview/src/actor/webview.rs", "crates/typst-preview/src/actor/render.rs", "crates/typst-preview/src/lib.rs"],
     [("editor", "crates/typst-preview/src/actor/editor.rs EditorActor::run"), ("pages", "crates/typst-preview/src/actor/webview.rs WebviewActor::run"), ("places", "crates/typst-preview/src/actor/render.rs RenderActor::resolve_span_range, resolve_source_loc, change_cursor_position")])

prop("C50", "The preview's outline is the document's, and its entries lead there or nowhere",
     "For every document, the outline the editor is told contains exactly its bookmarked headings, in order, each under the nearest heading before it that has a lower level (one that follows headings that are left out stands where the highest of those would have stood), with its title and position. After every history of further outlines, an entry of any outline that was ever told leads to its own heading, or nowhere when it is too old, and never to another heading; an entry of the latest outline leads to its heading. No outline is made for pages that are gone.",
     ["inputs", "histories"],
     "all sequences of headings (levels, bookmarked or not, with and without spans), all histories of outlines and entries followed",
     "The crate has no test, and cannot be built in the workspace here.",
     ["crates/typst-preview/src/outline.rs", "crates/typst-preview/src/debug_loc.rs", "crates/typst-preview/src/actor/render.rs", "crates/typst-preview/src/actor/editor.rs"],
     [("outline", "crates/typst-preview/src/outline.rs outline"), ("ids", "crates/typst-preview/src/debug_loc.rs SpanInternerImpl"), ("outline actor", "crates/typst-preview/src/actor/render.rs OutlineRenderActor")])

prop("C58", "A package comes whole: from the data directory, the cache or the registry",
     "For every history of packages placed, removed and asked for: a package is taken from the data directory if it is there, else from the cache directory, else (only in the preview namespace, and only if there is a cache) it is downloaded from the registry once and kept in the cache; what is given is always the complete package, whatever happened to earlier or concurrent downloads of it: ones that failed, broke off, were cut short by a crash at any moment, or run at the same time in other threads and processes. A download that fails says so (no such package, no network, a bad archive), leaves nothing behind, and can be tried again. An archive never writes outside its package's own directory, and other packages are not touched. The latest version of a package is the highest by number of those in the index (preview) or in the data directory (others). Configured directories and certificate are the ones used.",
     ["histories", "crash points", "schedules", "faults"],
     "all histories, server replies (status, errors, bodies cut or broken anywhere), crash points within a download and schedules of concurrent ones",
     "The crate's only test needs the network; a crash or a race within a download cannot be met by chance.",
     ["crates/tinymist-package/src/registry/http.rs", "crates/tinymist-package/src/registry.rs", "crates/tinymist-package/src/pack/http.rs", "crates/tinymist-package/src/pack/universe.rs"],
     [("places and download", "crates/tinymist-package/src/registry/http.rs PackageStorage::prepare_package, download_package"), ("versions", "crates/tinymist-package/src/registry/http.rs PackageStorage::determine_latest_version, download_index"), ("containers", "crates/tinymist-package/src/pack/http.rs HttpPack::read_all")])

prop("C59", "Previews are started, scrolled, followed and killed one by one",
     "For every history of the commands that start (regular, browsing, default, background), scroll and kill previews, of pages that come and click, of compilations and of reloads of the projects: a start that succeeds is answered with the address where its page is served, with the mode and the document asked for, and whether it is the primary one; it takes the primary project if that is free and allowed, else one of its own. A start that is refused or fails (bad arguments, relative entry, reserved name, nothing to preview, no such address or one in use) is answered with an error, and leaves no project registered, pinned or running. A preview shows the compilations of its own project and of no other; a scroll request reaches the pages of the preview it names (or of all) and no others; a click leads the editor to the source. A preview that is killed (by name, with all, or by a reload) is answered once it no longer listens, is announced as disposed once, and gives its project and the pin back; one that is not there is an error, and one in background stays.",
     ["histories", "faults", "schedules"],
     "all histories of starts, kills, scrolls, pages, clicks, compilations and reloads over several tasks and files",
     "The state is spread over the server, an actor, tasks and sockets; there are no tests of it but those of the origin header.",
     ["crates/tinymist/src/tool/preview.rs", "crates/tinymist/src/tool/preview/http.rs", "crates/tinymist/src/tool/preview/compile.rs", "crates/tinymist/src/actor/preview.rs", "crates/tinymist/src/cmd.rs", "crates/tinymist/src/project.rs"],
     [("start", "crates/tinymist/src/tool/preview.rs ServerState::start_preview, PreviewState::start"), ("kill and scroll", "crates/tinymist/src/actor/preview.rs PreviewActor"), ("commands", "crates/tinymist/src/cmd.rs do_start_preview, browse_preview, default_preview, kill_preview, scroll_preview"), ("server", "crates/tinymist/src/tool/preview/http.rs make_http_server"), ("watchers", "crates/tinymist/src/project.rs ProjectPreviewState")])

prop("C37", "Renames, formatting and refactorings preserve the meaning of the document",
     "Applying the edits of a rename leaves a document in which every reference resolves as before under the new name, and formatting does not change the compiled result.",
     ["programs"],
     "all Typst programs and all rename and format requests",
     "Snapshot tests over fixed programs.",
     [Q + "rename.rs", Q + "references.rs", "crates/tinymist/src/task/format.rs"],
     [("rename", Q + "rename.rs"), ("format", "crates/tinymist/src/task/format.rs")])

prop("C38", "The incremental preview shows the same document as a fresh render",
     "After any sequence of edits the preview frontend, having applied all increments, displays the same pages as a frontend that just connected.",
     ["histories"],
     "all edit histories and reconnections",
     "Needs the reflexo renderer and a browser.",
     ["crates/typst-preview/src/actor/render.rs", "crates/typst-preview/src/lib.rs"],
     [("increments", "crates/typst-preview/src/actor/render.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
