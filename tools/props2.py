
LI, LU, MD = "crates/ide_db/src/line_index.rs", "crates/move_language_server/src/lsp_utils.rs", "crates/move_language_server/src/mem_docs.rs"
SLI, DI = "crates/move_language_server/src/line_index.rs", "crates/move_language_server/src/diagnostics.rs"
FP, TP = "crates/move_language_server/src/from_proto.rs", "crates/move_language_server/src/to_proto.rs"
VFS, FS, VP, PA = "crates/vfs/src/lib.rs", "crates/vfs/src/file_set.rs", "crates/vfs/src/vfs_path.rs", "crates/paths/src/lib.rs"
HOOK = "cfg(verif): crates/move_language_server/src/verif.rs"
HOOKS = ["e60725e", "7e628fb"]
prop("P09", "Offsets and line/column positions convert into each other",
     "For every text and every offset in it, the line is the number of line feeds before the offset, the column the number of bytes since the last of them, and converting that line and column back gives the offset.",
     ["inputs"], "all texts and offsets", "Off-by-one errors show for an offset right at a line break, at the ends of the text, or after wide characters.",
     [LI], [("line starts", LI + " new"), ("search", LI + " line_col, offset")], "LineIndex::line_col, LineIndex::offset")
prop("P10", "UTF-16 columns count UTF-16 units and convert back",
     "For every text and every character boundary, the UTF-16 column is the number of UTF-16 units between the beginning of the line and it (one per character, two for characters of four bytes), and converting it back gives the byte column.",
     ["inputs"], "all texts and character boundaries", "Only mixtures of characters of different widths on several lines tell right from wrong bookkeeping.",
     [LI], [("wide characters", LI + " new, utf16_lines"), ("conversion", LI + " to_utf16, to_utf8")], "LineIndex::to_utf16, LineIndex::to_utf8")
prop("P11", "A range is split into lines without gaps or overlaps",
     "For every text and every range of it, the pieces that splitting the range by lines yields are in order, non-empty and adjacent, cover exactly the range, and a line feed occurs only as the last character of a piece; every piece but the last ends with one.",
     ["inputs"], "all texts and ranges", "Ranges that begin or end at, or just before, a line feed are the ones that go wrong.",
     [LI], [("splitting", LI + " lines")], "LineIndex::lines")
prop("P12", "Line endings are normalised, and nothing else is changed",
     "For every text, normalising turns each carriage return followed by a line feed into a line feed and leaves every other character, including lone carriage returns, as it is. The result is reported as DOS text whenever there was such a pair, and as Unix text if there was no carriage return at all.",
     ["inputs"], "all texts", "The conversion is done in place on bytes with pointer arithmetic; neighbouring line breaks, lone carriage returns and wide characters interact.",
     [SLI], [("in-place conversion", SLI + " LineEndings::normalize")], "LineEndings::normalize", hook=HOOK)
prop("P13", "Document changes are applied as the protocol says",
     "For every document and every list of content changes, the text afterwards is the one the language server protocol defines: changes apply in order, each to the text the one before left; a change without range replaces the whole text; a position past the end of its line means the end of that line, and one past the last line the end of the text; columns count units of the negotiated encoding (UTF-16 unless UTF-8 was agreed).",
     ["inputs", "histories"], "all texts (line feeds as line breaks) and lists of changes with positions at character boundaries",
     "Positions are converted with an index of an earlier text where that is still valid; whether it is depends on the order and lines of all changes before.",
     [LU, FP, LI], [("applying", LU + " apply_document_changes"), ("validity of the index", LU + " IndexValid"), ("positions", FP + " text_range, offset")], "text of the document after textDocument/didChange", hook=HOOK)
prop("P14", "Overlapping completion edits are recognised",
     "The edits of a completion item and the edits resolved for it count as disjoint exactly if no two of them overlap (each begins before the other ends) and, where the item has an insert and a replace range, the insert range is a prefix of the replace range; the replace range is the one compared with the others.",
     ["inputs"], "all completion items and additional edits", "It is a relation between all pairs of ranges, of which there are many orders and ties.",
     [LU], [("comparison", LU + " all_edits_are_disjoint")], "all_edits_are_disjoint", hook=HOOK)
prop("P15", "Changed diagnostics are reported, and only those",
     "A file's diagnostics are the native ones last set for it followed by the distinct check diagnostics added since the last clearing. Whoever fetches the list of changed files and rereads those knows the diagnostics of all files exactly; each changed file is listed once, files nothing was done to are not listed, and there is no list if nothing changed.",
     ["histories"], "all sequences of setting, adding, clearing and taking changes", "A forgotten or wrong change mark only shows after particular sequences: a list set again to the same, cleared while empty, equal but for one field.",
     [DI], [("change marks", DI + " set_native_diagnostics, add_check_diagnostic, clear_check, take_changes"), ("equality", DI + " are_diagnostics_equal")], "DiagnosticCollection::take_changes, DiagnosticCollection::diagnostics_for", hook=HOOK, state=[{"name": "diagnostics", "meaning": "lists per file and the set of changed files", "where": DI}])
prop("P16", "Open documents are exactly those opened and not closed",
     "After any sequence of opening, closing and changing documents, the store holds exactly the documents opened and not closed since, each with the version last given. Opening an open document and closing one that is not open report the error; the set of open documents is marked as changed exactly if a document was opened or closed since the mark was last taken.",
     ["histories"], "all sequences of operations", "It is a statement about histories, including repeated opening and closing of the same name.",
     [MD], [("store", MD + " insert, remove, get, get_mut"), ("change mark", MD + " take_changes")], "MemDocs", hook=HOOK, state=[{"name": "documents", "meaning": "map from path to version, change mark", "where": MD}])
prop("P17", "The file system keeps contents, identities and a complete change log",
     "After any sequence of writing and removing files, each file has its last contents, a path keeps its identity for ever and no two paths share one, and only existing files are listed. Writing reports a change exactly if existence or contents differ from before; the change log holds one entry per change with the right kind, so that whoever follows the log knows which files exist.",
     ["histories"], "all sequences of writes and removals of files, with the log taken at any point", "The log merges existence and contents; writing a removed file again, or the same contents twice, are histories the tests lack.",
     [VFS, "crates/vfs/src/path_interner.rs"], [("contents and log", VFS + " set_file_contents, take_changes"), ("identities", "crates/vfs/src/path_interner.rs")], "Vfs", state=[{"name": "files", "meaning": "contents per file, interned paths, changes", "where": VFS}])
prop("P18", "Files belong to the innermost root, and relative paths resolve by it",
     "Partitioning puts every existing file into exactly one set: that of the longest root that is the file or one of its ancestor directories, or the rest if there is none. A relative path resolves, starting from the directory of the file it is anchored at, to the file of that path in the same set, and to nothing if the anchor or the file is not in the set.",
     ["inputs"], "all roots, files and relative paths", "Roots nest and share prefixes that end within a name; paths with dots and upward steps meet the edge of the tree.",
     [FS, VP], [("innermost root", FS + " FileSetConfig::classify, partition"), ("resolution", FS + " resolve_path; " + VP + " join")], "FileSetConfig::partition, FileSet::resolve_path")
prop("P19", "Paths on disk are absolute and in normal form",
     "A path is accepted as absolute exactly if it begins with a separator. Normalising resolves `.`, `..` (not above the root) and repeated separators, and is idempotent. Paths of the file system are always in normal form, and joining, parent, name, extension, equality and containment are those of the resulting list of names (containment by whole names).",
     ["inputs"], "all paths", "Combinations of dots, separators and empty names near the root are easily mishandled, and tests use ordinary paths.",
     [PA, VP], [("normal form", PA + " normalize_path"), ("operations", VP)], "AbsPathBuf, VfsPath")
prop("P20", "Virtual paths join, split and compare consistently",
     "The parent of a virtual path is what comes before its last separator. Its name and extension are the last component split at its last dot, unless that is its first character. Joining takes one component away per leading `../`, drops leading `./`, then appends the rest after a separator, and fails if there is nothing to take away. Virtual paths are equal or contained exactly as their texts are, and never equal to or contained in paths on disk.",
     ["inputs"], "all virtual paths", "Empty components, trailing separators and dots at the edges are the inputs that go wrong.",
     [VP], [("virtual paths", VP + " VirtualPath")], "VfsPath")
prop("P25", "Text and search helpers compute what they say",
     "Names are converted to pascal, lower and upper snake case letter by letter for every ASCII name; replacing a character replaces each occurrence and nothing else; trimming indentation removes from every line the indentation of the least indented non-blank line and a leading line break; the equal range of a sorted list holds exactly the equal elements; two sequences are equal exactly if their elements and lengths are.",
     ["inputs"], "all texts and sorted lists", "Boundaries (empty input, blank lines, runs of separators, first and last element) are only sampled by tests.",
     ["crates/stdx/src/lib.rs"], [("helpers", "crates/stdx/src/lib.rs to_pascal_case, to_lower_snake_case, to_upper_snake_case, replace, trim_indent, equal_range_by, iter_eq_by")], "stdx")
prop("P26", "Protocol positions are in the negotiated encoding",
     "For every text, a byte offset converts to the protocol position that a client using the negotiated encoding (UTF-16, or UTF-8) reads as that offset, and a range to the positions of its ends, in order. Every position of a client at a character boundary converts to the offset it means; past the end of a line it means the end of the line, past the end of the text the end of the text. UTF-8 is used for a client that offers it, UTF-16 for every other.",
     ["inputs"], "all texts (line feeds as line breaks), offsets, ranges and positions at character boundaries", "Wrong units agree with right ones on ASCII text, which is what tests contain.",
     [TP, FP, SLI, LI], [("to the client", TP + " position, range"), ("from the client", FP + " offset, text_range"), ("encoding", "crates/move_language_server/src/caps.rs, config.rs offset_encoding")], "positions in published diagnostics and document changes", hook=HOOK)
ML, DP, GS, MLS = "crates/move_language_server/src/main_loop.rs", "crates/move_language_server/src/dispatch.rs", "crates/move_language_server/src/global_state.rs", "crates/move_language_server/src"
prop("P21", "Every request is answered exactly once and correctly",
     "The server answers every request exactly once, with its identifier: with the handler's result; with MethodNotFound if there is no such method, InvalidParams if the parameters are not the method's, the handler's own error, ContentModified if a document change cancelled it, InternalError if the handler failed or panicked, RequestCanceled if the client cancelled it before, or InvalidRequest after `shutdown`. Notifications are not answered. The main loop ends well on `exit`, and with an error if the input ends without it.",
     ["inputs", "schedules", "histories"], "all sequences of requests, cancellations and other messages, and all interleavings with the worker threads",
     "An answer that is lost or sent twice needs a cancellation or a document change at a particular moment of a worker's run.",
     [ML, DP, GS], [("pending requests", GS + " register_request, respond, cancel"), ("dispatch", DP + " RequestDispatcher"), ("shutdown", ML + " on_request"), ("loop", ML + " run, next_event, handle_event")],
     "messages sent to the client", hook=HOOK, state=[{"name": "pending requests", "meaning": "identifiers of requests not answered yet", "where": GS}])
prop("P22", "Clients are told the diagnostics of what they last sent",
     "Whatever documents are opened (once or again), changed and closed while the workers run: once the server is idle, the diagnostics last published for every open document are those of its present text; and whenever diagnostics are published for an open document under a version, they are those of that version's text. Nothing is published for documents never opened, diagnostics of closed documents carry no version.",
     ["schedules", "histories"], "all sequences of document notifications and all interleavings with the worker threads",
     "Results of older texts arrive late, are cancelled or overtake each other only in particular interleavings.",
     [ML, GS, DI, "crates/move_language_server/src/handlers.rs", "crates/move_language_server/src/reload.rs"],
     [("generations", ML + " handle_event, update_diagnostics"), ("changes", GS + " process_changes"), ("publishing", DI + " take_changes; crates/move_language_server/src/handlers.rs publish_diagnostics"), ("workers", "crates/move_language_server/src/thread_pool.rs")],
     "textDocument/publishDiagnostics", hook=HOOK, state=[{"name": "world", "meaning": "documents, file system, database, diagnostics, tasks under way", "where": GS}])
prop("P23", "Analysis after changes equals analysis from scratch",
     "After any sequence of changes to files (several to one file, or its removal, among them) and roots, whatever was asked in between, the analysis of a file depends on its present text only: its diagnostics are the first 128 errors of parsing it, in order, as errors of code `syntax-error` at the error's range with the error's message, and its line index is that of the text.",
     ["histories"], "all sequences of changes and questions", "A stale memoised result only shows for particular sequences of changes and questions.",
     ["crates/ide/src/lib.rs", "crates/ide_diagnostics/src/lib.rs", "crates/base_db/src/lib.rs", "crates/base_db/src/change.rs", "crates/ide_db/src/lib.rs"],
     [("changes", "crates/base_db/src/change.rs"), ("queries", "crates/base_db/src/lib.rs, crates/ide_db/src/lib.rs"), ("diagnostics", "crates/ide_diagnostics/src/lib.rs")], "Analysis::diagnostics, Analysis::file_line_index",
     state=[{"name": "database", "meaning": "texts, roots, memoised results", "where": "crates/ide_db/src/lib.rs"}])
prop("P28", "File addresses and paths convert into each other",
     "Every absolute path has a `file` address of printable ASCII characters, which converts back to that path in normal form, also after the client has parsed and returned it.",
     ["inputs"], "all absolute paths (Unix)", "Bytes that need escaping, or that the address syntax gives a meaning, are rarely tried.",
     [TP, FP], [("conversions", TP + " url_from_abs_path; " + FP + " abs_path, vfs_path")], "uri of published diagnostics", hook=HOOK)
prop("P29", "Senseless messages change nothing and stop nothing",
     "A notification that is unknown, has malformed parameters, or is about a document that is not open or is no file neither ends the server nor changes any document's text or version, and the diagnostics of the open documents remain right.",
     ["inputs", "histories"], "all unknown, malformed and misplaced notifications", "Each kind of message has its own path through decoding and its handler.",
     [ML, DP], [("decoding", DP + " NotificationDispatcher"), ("handlers", ML + " on_notification")], "server state and messages after the notification", hook=HOOK)
PM = "crates/project_model/src"
prop("P24", "Projects are found where their manifests are",
     "The project of a folder is the `Dove.toml` in it or in the nearest folder above that has one; if none has, its projects are those of all folders directly in it; a path ending in `Dove.toml` is itself the manifest. A folder that does not exist and has no project above has none. Several folders have the projects of each, each once, in order; a single project is found exactly if there is exactly one. Loading a manifest yields the name, address, version and dialect written in it, and fails if it is missing or malformed.",
     ["inputs"], "all trees of directories, places of manifests, folders asked for, and manifests", "Which manifest is found depends on the combination of places above and below; tests have none of them.",
     [PM + "/lib.rs", PM + "/manifest_path.rs", PM + "/workspace.rs", PM + "/dove_toml.rs"], [("discovery", PM + "/lib.rs discover, discover_single, discover_all, from_manifest_file"), ("loading", PM + "/workspace.rs load; " + PM + "/dove_toml.rs")], "ProjectManifest::discover_all, ProjectWorkspace::load")
prop("P27", "Typed views agree with the tree",
     "A node or token casts to a typed view exactly if it is of its kind (an expression: of one of the kinds of expressions), and the view is of that very node. Accessors give the first direct child or token of their kind, lists give all such children in order, and the operands of a binary expression are what stands in front of and behind its operator. A parse result converts to an untyped one and back without loss, and only to its own kind.",
     ["inputs"], "all texts", "Accessors that find children by kind confuse siblings of the same kind, in particular in incomplete code.",
     ["crates/syntax/src/ast.rs", "crates/syntax/src/ast/nodes.rs", "crates/syntax/src/ast/tokens.rs", "crates/syntax/src/lib.rs"], [("casts and accessors", "crates/syntax/src/ast/nodes.rs, crates/syntax/src/ast/tokens.rs"), ("search", "crates/syntax/src/ast.rs support, AstChildren"), ("operands", "crates/syntax/src/ast/expr_ext.rs"), ("parse results", "crates/syntax/src/lib.rs Parse")], "AstNode::cast and accessors")
BIN = "crates/move_language_server/src/bin/move_language_server.rs"
prop("P30", "The server does what it announces at the start",
     "The server answers `initialize` first, announcing that it takes opened, changed and closed documents, and the encoding UTF-8 exactly if the client offers it; positions are then in that encoding, otherwise in UTF-16. It asks to be told of saved documents exactly if the client can save and takes registrations. Roots and folders may be absent, empty or no files. It works until `shutdown` and `exit` and then ends well; a malformed `initialize`, or none of `initialized` after it, ends it with an error.",
     ["inputs", "schedules"], "all client capabilities and roots; schedules of reader, writer, workers and main loop", "Announcing and using the encoding are decided in different places, far apart; no test starts the program.",
     [BIN, "crates/move_language_server/src/config.rs", "crates/move_language_server/src/caps.rs", "crates/move_language_server/src/lsp_ext.rs", ML],
     [("handshake", BIN + " run_server"), ("encoding", "crates/move_language_server/src/lsp_ext.rs supports_utf8; crates/move_language_server/src/config.rs offset_encoding"), ("registration", ML + " run; crates/move_language_server/src/config.rs did_save_text_document_dynamic_registration")], "messages on standard output")
prop("P31", "Sets of files to load hold what they describe",
     "A set of directories contains a path exactly if the longest of its included and excluded directories that is the path or above it is an included one (excluded ones win ties), and a file, in addition, only if its extension is one of the set's. A set of files contains exactly those files. The sets made for a package contain the sources under it except those in its `.git` and, for the user's own packages, its `target` directory.",
     ["inputs"], "all sets and paths", "Nested inclusions and exclusions, and names that begin like others, are where it goes wrong.",
     ["crates/vfs/src/loader.rs"], [("containment", "crates/vfs/src/loader.rs Directories::includes_path, contains_file, contains_dir; Entry")], "loader::Entry::contains_file, loader::Entry::contains_dir")
PR = "crates/stdx/src/process.rs"
prop("P32", "Output of child processes is taken in whole and line by line",
     "Running a command to its end yields exactly what it wrote to each of its two outputs, and its exit status, however the writes are cut into pieces, interleaved and timed, whichever output is closed first, and also if waiting is interrupted by a signal. Each line is handed on exactly once, whole, in order and to the function for its output, as soon as it is complete; an unfinished last line at the end of the output.",
     ["inputs", "schedules"], "all sequences of writes and closes of a child, and their timing", "How output arrives in pieces depends on timing; no test runs a process.",
     [PR], [("reading", PR + " streaming_output, imp::read2")], "stdx::process::streaming_output")
EX = "editors/code/src"
prop("P33", "The editor extension runs one server per project folder",
     "The editor extension starts one language server for each folder with Move documents that are looked at, in that folder, with the dialect, module folders and sender address of its `Dove.toml`; reloading, a change of its settings or of a manifest stops every server and starts new ones with the present settings.",
     ["histories"], "all sequences of events of the editor", "Servers are started and disposed of in asynchronous reactions to events of the editor.",
     [EX + "/extension.ts", EX + "/components/ws.ts", EX + "/components/client.ts"], [("workspaces", EX + "/components/ws.ts ClientWorkspaceFactory"), ("reload", EX + "/extension.ts tryActivate")], "language client of the editor")
NOT_APPLICABLE = {"P33": "TypeScript over the editor's own API (vscode, vscode-languageclient), neither of which is installed here; there is no symbolic executor for JavaScript in reach, "
                         "and the extension cannot even be compiled or replayed without those packages (it also names a server binary in a developer's home directory)"}
