import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
D="daemon/src/"
p("C01","Peers converge to the same directory content",
 "After any history of edits, file creations and file deletions made at several peers, including while they are disconnected from each other, once they have exchanged all pending synchronization messages every peer holds the same set of shared files with identical content. The same files and contents are then on every peer's disk for every file that no editor has open there. If two peers create the same file independently, one of the versions wins on all peers.",
 ["histories","schedules"],"every history of local operations at 2 or 3 peers, every order in which synchronization messages are generated and delivered, every point at which a link is cut and re-established, both orders of peer identities",
 "The existing tests sync at most one fixed pair of documents in one fixed order; the fuzzer between two daemons is a random sample of one topology and is not in the suite.",
 [D+"daemon.rs",D+"document.rs",D+"types.rs",D+"peer.rs"],
 [("incoming changes are applied and turned into per-file effects",D+"daemon.rs handle_message / ReceiveSyncMessage"),("patches to file effects",D+"types.rs PatchEffect"),("common initial document",D+"document.rs Default")],
 ["document obtained by an additional observing peer","project directories on disk"],"choose peer identities")
p("C02","An editor's buffer and the shared document converge",
 "For every interleaving of typing in an editor with changes arriving from elsewhere, once all messages in flight between that editor and its daemon have been delivered, the buffer of an editor that follows the protocol equals the shared content of the file. An incoming edit that the editor had to refuse because it was typing at the same time reaches it again in adapted form, and every edit sent to an editor refers to positions that exist in the buffer it is meant for.",
 ["schedules","inputs"],"every interleaving of up to N local edits, M foreign edits and the delivery of each message in both directions; every edit position and small replacement, including multi-line and non-ASCII text",
 "The unit tests replay two hand-written schedules; the interleavings of in-flight messages in both directions grow exponentially and the interesting ones need several unconfirmed operations on both sides.",
 [D+"ot.rs",D+"editor_connection.rs",D+"types.rs",D+"daemon.rs"],
 [("operational transformation with two revision counters",D+"ot.rs OTServer"),("routing between editor, transformation and document",D+"editor_connection.rs, daemon.rs react_to_message_from_editor / broadcast_to_editors")],
 ["JSON-RPC lines exchanged with the editor","shared content seen by an observing peer"],None)
p("C03","Concurrent typing is neither lost nor duplicated",
 "For every schedule of concurrent edits in editors on several peers, the converged content contains each typed character that nobody deleted exactly once and contains no deleted character. Any two surviving characters keep the order they had in every buffer that showed both of them.",
 ["schedules","histories"],"every schedule of up to N uniquely identifiable insertions and deletions at two peers with one editor each, interleaved with all message deliveries",
 "Convergence alone would also be satisfied by dropping text everywhere; no test follows individual characters through concurrent edits on two daemons.",
 [D+"ot.rs",D+"document.rs",D+"types.rs",D+"daemon.rs"],
 [("transformation keeps both sides' intentions",D+"ot.rs transform_through_operations"),("edits applied to the shared text as splices",D+"document.rs apply_delta_to_doc"),("diff-based updates only touch what changed",D+"document.rs update_text")],
 ["editor buffers","shared content at every peer"],"choose peer identities")
p("C04","File access never leaves the project directory",
 "No request from an editor, no document received from a peer and no symbolic link inside the project makes the daemon read, create, change, rename or delete anything outside the project directory: the operation is refused and nothing outside is touched. Paths that stay inside the project, including ones written with '.' or '..' segments or leading through links that resolve inside, keep working.",
 ["inputs","configurations"],"every path built from up to N segments (plain names, '.', '..', existing and missing directories, links to inside, outside, to nothing and to themselves) applied to every file operation, and every such path sent by an editor or a peer",
 "Tests check a handful of paths and a single kind of link against one operation; escapes come from combinations of links, missing segments and operations.",
 [D+"sandbox.rs",D+"path.rs",D+"daemon.rs",D+"editor_connection.rs"],
 [("canonicalize and check prefix before every operation",D+"sandbox.rs check_inside_base_dir_and_canonicalize"),("editor URIs are mapped to project-relative paths",D+"path.rs, editor_connection.rs")],
 ["a directory tree around the project, compared before and after","result of each operation"],None)
p("C05","A crash while saving never prevents restart or loses a completed save",
 "If the daemon is killed at any point while it saves its state, it can be started again: it comes up with at least everything that the last completed save contained. After such a restart its shared content equals the files on disk, and it can go on saving and synchronizing.",
 ["crash_points","histories","fault_sequences"],"every history of up to N changes and saves, and within each save every intermediate state of the file system (every prefix of every write, before and after every truncation and rename)",
 "No test interrupts a save; torn states exist only between system calls.",
 [D+"daemon.rs",D+"sandbox.rs",D+"document.rs"],
 [("full save on the first, incremental append on later persists",D+"daemon.rs Persist"),("loading the saved document",D+"daemon.rs DocumentActor::new, document.rs load")],
 ["state recovered by a restarted daemon, seen by an observing peer","project files"],None)
p("C06","Restarting integrates what changed on disk meanwhile",
 "After a daemon is restarted, its shared content equals the non-ignored text files on disk exactly: files changed, created or deleted while it was stopped are changed, created or deleted in the shared document. Text that the last save contained and that was not changed keeps its identity, so edits peers made to it in the meantime merge instead of duplicating or disappearing.",
 ["histories","inputs"],"every pair of old and new directory states over small files, combined with every concurrent peer edit and every save point before the stop",
 "Tests cover reading a directory once; the space of (old text, new text, concurrent remote edit) triples is not sampled at all.",
 [D+"daemon.rs",D+"document.rs",D+"types.rs"],
 [("comparison of directory and document at startup",D+"daemon.rs read_current_content_from_dir"),("diff applied as an edit",D+"document.rs update_text")],
 ["shared content after restart seen by an observing peer","project files on both peers"],"choose peer identities")
p("C07","File ownership: open files are left alone, closed files are current",
 "While an editor has a file open, the daemon neither writes to that file on disk nor takes up changes made to it on disk by others. As soon as the last editor that had it open closes it or disconnects, the file on disk holds the shared content. A file that no editor has open is brought up to date on disk with every change to the shared document.",
 ["histories","schedules"],"every sequence of open, close, disconnect, local edit, remote edit and outside write over two files and two editors up to a depth",
 "Ownership depends on the history of opens, closes and disconnects of several editors; no unit test exercises it.",
 [D+"daemon.rs",D+"editor_connection.rs"],
 [("ownership check before each write and each watcher event",D+"daemon.rs owns / maybe_write_file / handle_watcher_event"),("set of open files per editor",D+"editor_connection.rs")],
 ["content and modification of files on disk","shared content seen by an observing peer"],None)
p("C08","Ignored files are never shared",
 "The content of files inside '.git' or '.ethersync', of files excluded by Git or by an ignore file, and of backup files ending in '~' never enters the shared document: not at startup, not through changes on disk and not by opening them in an editor, which is refused with an error. All other text files in the project are shared.",
 ["configurations","inputs","histories"],"every combination of ignore-rule file, rule, file location and name from a small grammar, and every way a file can enter the document (startup, restart, disk event, rename, editor)",
 "One test covers one ignored file at one entry point; leaks come from the entry points disagreeing.",
 [D+"sandbox.rs",D+"daemon.rs",D+"watcher.rs",D+"editor_connection.rs"],
 [("walk with ignore rules at startup",D+"daemon.rs build_walk"),("ignore check for events and opens",D+"sandbox.rs ignored, watcher.rs, editor_connection.rs")],
 ["list of files an observing peer receives","response to the editor"],None)
p("C09","Every editor request is answered once and truthfully",
 "Each request an editor sends with an id gets exactly one response carrying the same id: success if it took effect, otherwise an error. Notifications get no response, and a line that is not a valid message gets one error response with a null id. A request answered with an error changes neither the shared document nor what other editors and later requests see.",
 ["inputs","histories"],"every sequence of well-formed and malformed messages up to a depth, over open and unopened, ignored, outside and missing files",
 "Tests check the serialization of one request and two responses, never the exchange itself.",
 [D+"daemon.rs",D+"types.rs",D+"editor_connection.rs",D+"editor.rs"],
 [("parsing and dispatch",D+"daemon.rs handle_message_from_editor, types.rs JSONRPCFromEditor"),("protocol errors",D+"editor_connection.rs message_from_editor")],
 ["lines written to the editor's socket","shared content seen by an observing peer"],None)
p("C10","Positions and deltas mean the same text on both sides",
 "An edit sent by an editor changes exactly the characters its range names, counting lines separated by line feeds and Unicode characters within a line, and an edit sent to an editor produces exactly the new shared content when its operations are applied as ranges of the old content. This holds for every content, including empty files, missing or repeated final newlines, carriage returns, form feeds, Unicode line separators and characters outside the basic plane.",
 ["inputs"],"every text up to a length over an alphabet with line feed, carriage return, form feed, U+2028, accented, combining and astral characters; every range in it and every replacement; every pair of texts for differences",
 "Tests list about twenty positions; the property is a bijection over all contents and offsets.",
 [D+"types.rs",D+"document.rs",D+"ot.rs"],
 [("offset conversions",D+"types.rs Position / Range"),("delta conversions",D+"types.rs TextDelta::from_ed_delta, EditorTextDelta::from_delta, From<Vec<Chunk>>"),("application to the shared text",D+"document.rs apply_delta_to_doc")],
 ["edits exchanged with the editor","shared content"],None)
p("C11","Changes on disk are taken up, and only once",
 "When text files that no editor has open are created, changed, deleted, renamed, or moved into or out of the project by other programs, then after the daemon has worked through its notifications the shared document has exactly the files and contents on disk. This holds however late the notifications are handled, and the daemon's own writes to disk do not change the shared document again.",
 ["histories","schedules"],"every sequence of file operations up to a depth over two files, with every placement of notification handling between them",
 "Tests observe one event for one operation; final agreement depends on operations overtaking their notifications.",
 [D+"watcher.rs",D+"daemon.rs",D+"document.rs"],
 [("translation of operating system events",D+"watcher.rs next"),("handling of created, changed and removed files",D+"daemon.rs handle_watcher_event")],
 ["shared content seen by an observing peer","project directory"],None)
p("C12","Cursors reach everyone else and vanish with their editor",
 "A cursor position sent by an editor is delivered, with its file, ranges and user name, to every other editor of the same daemon and of all connected peers, and not back to the sender. All positions of one editor carry one identifier, different editors have different identifiers, and the latest position wins. When an editor disconnects, everyone else is told that its cursor is gone.",
 ["histories","schedules"],"every sequence of cursor moves, edits and disconnects of up to three editors on two daemons, with every order of synchronization",
 "No test covers cursors in the daemon.",
 [D+"daemon.rs",D+"document.rs",D+"editor_connection.rs",D+"types.rs"],
 [("cursor state in the shared document",D+"document.rs store_cursor_position / maybe_delete_cursor_position"),("distribution to editors",D+"daemon.rs, editor_connection.rs")],
 ["cursor messages on each editor's socket"],None)
p("C13","Messages between peers arrive intact, in order, whatever the chunking",
 "Whatever way the network splits, delays or back-pressures the byte stream between two peers, and whenever either side wants to send, every synchronization message arrives exactly once, unaltered and in order in both directions. If the connection ends or carries garbage, the exchange stops without delivering a damaged message and without hanging.",
 ["schedules","fault_sequences","inputs"],"every segmentation of the stream at byte granularity, every interleaving of sending with partially received messages, every point at which the stream ends, small transport windows",
 "The protocol handler has no test; its failures need a send to become ready while a header is half received.",
 [D+"peer.rs"],
 [("length-prefixed framing in both directions",D+"peer.rs protocol_handler")],
 ["messages coming out at the receiving side","bytes on the stream"],"drive the stream handler over an in-memory stream")
p("C14","The client forwards every editor message unchanged",
 "Every message without raw line breaks that an editor writes to the client process with a Content-Length header reaches the daemon as one line with exactly that content, and every line from the daemon reaches the editor framed with its exact byte length, in order, no matter how the streams are split into chunks.",
 ["inputs","schedules"],"every sequence of up to three messages over small contents including multi-byte characters and header look-alikes, split at every set of byte positions",
 "The forwarder has no tests; chunk boundaries are decided by the operating system.",
 [D+"jsonrpc_forwarder.rs"],
 [("Content-Length codec",D+"jsonrpc_forwarder.rs ContentLengthCodec"),("copying in both directions",D+"jsonrpc_forwarder.rs connection")],
 ["lines on the daemon's socket","bytes on standard output"],None)
p("C15","Connected peers always finish synchronizing",
 "While two peers stay connected, every change made at one of them, at any moment relative to the ongoing exchange, reaches the other without further changes being needed. The exchange then becomes quiet, and neither side ever waits for the other forever.",
 ["schedules"],"every schedule of the tasks of both peers up to a preemption bound, with changes injected at every step",
 "Depends on wake-ups lost or received between two awaits of several tasks; the end-to-end tests run one uncontrolled schedule.",
 [D+"peer.rs",D+"daemon.rs"],
 [("change notifications wake the synchronization task",D+"peer.rs SyncActor::run"),("notification after every change",D+"daemon.rs")],
 ["shared content at both peers when no task can run any more"],"run the synchronization task under a controlled scheduler")
p("C16","Only peers that know the secret can connect",
 "Two daemons exchange anything only if they are configured with the same secret; every difference in the secret, however small, keeps them apart. A daemon without a configured secret only pairs with others that have none or use the well-known default.",
 ["configurations"],"every ordered pair of secrets from a set of near-equal, empty, default, long, prefixed and non-ASCII secrets",
 "No test starts two peers with different secrets.",
 [D+"peer.rs"],
 [("secret stretched into a pre-shared key",D+"peer.rs passphrase_to_bytes"),("pre-shared key handshake on every transport connection",D+"peer.rs run")],
 ["whether a connection is established over loopback"],None)
p("C17","Keys and sockets are only usable by their owner",
 "The daemon refuses to use a private key file whose permissions give anyone but its owner access, and creates new ones accessible to the owner only and reuses them afterwards. It only listens for editors in a directory whose permissions give no other user access, and socket names cannot point outside that directory.",
 ["configurations","inputs"],"all 4096 permission modes of the key file and of the socket directory, and every socket name of up to three segments from plain names, '.', '..', existing directories and files",
 "No test touches these checks.",
 [D+"peer.rs",D+"editor.rs"],
 [("key file permission check",D+"peer.rs get_keypair"),("socket directory check",D+"editor.rs is_user_readable_only"),("socket name check",D+"editor.rs is_valid_socket_name")],
 ["refusal or acceptance","mode of the created key file","socket path"],None)
p("C18","Editors cannot bring the daemon down",
 "Nothing an editor sends, no matter how malformed, out of range, out of order or interrupted by the end of its connection, terminates the daemon or stops it from serving other editors and peers.",
 ["inputs","fault_sequences","histories"],"every sequence up to a depth of valid and invalid requests, with a disconnect or failing socket at every point, from up to two editors",
 "Tests only send valid messages; each assertion in the conversion code is reachable by some input.",
 [D+"daemon.rs",D+"editor_connection.rs",D+"ot.rs",D+"types.rs",D+"editor.rs",D+"sandbox.rs"],
 [("errors are returned to the editor",D+"editor_connection.rs"),("failing connections are dropped",D+"daemon.rs send_to_editor_client")],
 ["daemon still answers a second editor and an observing peer"],None)
p("C19","Peers cannot bring the daemon down or smuggle files",
 "Whatever shared document a connected peer provides, including strange file names, paths leading outside, conflicting structure and unparsable cursor states, the daemon keeps running and keeps synchronizing the other files. A peer's document never makes the daemon write into '.git' or '.ethersync'.",
 ["inputs","histories"],"every document built from a catalogue of unusual entries, alone and in pairs, before and after normal content",
 "Tests only ever sync documents made by the program itself.",
 [D+"types.rs",D+"daemon.rs",D+"sandbox.rs"],
 [("conversion of document changes",D+"types.rs TryFrom<Patch>"),("writing received files",D+"daemon.rs maybe_write_file"),("removing files",D+"daemon.rs ReceiveSyncMessage")],
 ["daemon still answers","project directory incl. .git and .ethersync"],None)
p("C20","Several editors on one daemon do not disturb each other",
 "An edit made in one editor is delivered to every other editor of the same daemon that has that file open and to no one else: not back to its author, and not to editors that do not have the file open or have closed it. Each editor and each file has its own revision counters that start afresh when a file is opened again.",
 ["schedules","histories"],"every sequence of opens, closes, edits and message deliveries of two or three editors over two files up to a depth",
 "No test connects two editors to one daemon.",
 [D+"daemon.rs",D+"editor_connection.rs",D+"ot.rs"],
 [("broadcast excluding the author",D+"daemon.rs broadcast_to_editors"),("one transformation state per editor and file",D+"editor_connection.rs ot_servers")],
 ["messages on each editor's socket","buffers"],None)
p("C21","Starting, hosting and joining keep the right content",
 "A hosting daemon shares the text files of its directory as they are; a peer that joins with a fresh state ends up with exactly the host's files and never changes the host's content by joining. Starting over with a discarded state shares the current files again, and shared content survives any number of stops and starts unchanged.",
 ["configurations","histories"],"every combination of host and joiner directory contents, saved state present or absent, start-over option, order of starting and connecting, followed by further restarts",
 "One test reads one directory; the combinations of options and states are untested.",
 [D+"daemon.rs",D+"document.rs",D+"peer.rs"],
 [("startup decisions",D+"daemon.rs DocumentActor::new"),("common initial structure",D+"document.rs Default")],
 ["directories of host and joiner","shared content seen by an observing peer"],"choose peer identities")
p("C22","The Neovim plugin reports and applies edits exactly",
 "For every change a user makes to a shared buffer, the Neovim plugin sends edits that turn the previous content into the new one; for every edit it accepts from the daemon, the buffer afterwards has exactly the content the edit describes and nothing is sent back for it. Edits that arrive for an outdated revision leave the buffer unchanged. All this holds for every file name and from opening the file, even before the daemon has answered, until it is closed, which is reported.",
 ["inputs","schedules"],"every small buffer content, every change made by a set of commands or remote edits, up to a bounded sequence",
 "The four stable plugin tests replay a few dozen fixed examples.",
 ["vim-plugin/plugin/ethersync.lua","vim-plugin/lua/changetracker.lua","vim-plugin/lua/utils.lua"],
 [("differences of buffer lines",  "vim-plugin/lua/changetracker.lua track_changes"),("applying remote edits","vim-plugin/lua/changetracker.lua apply_delta"),("revision check","vim-plugin/plugin/ethersync.lua")],
 ["messages sent to the daemon","buffer content"],None)
p("C23","The VS Code extension reports and applies edits exactly",
 "For every change to a shared document, the VS Code extension sends edits with character positions that turn the previous content into the new one; edits accepted from the daemon change the document to exactly the described content and are not sent back. Edits for an outdated revision leave the document unchanged, for every order in which edits from both sides and their completion arrive. All this holds for every file name and from opening the document, even before the daemon has answered, until it is closed, which is reported; reported selections have the right character positions.",
 ["inputs","schedules"],"every small document over an alphabet with astral characters, every change event, every interleaving of remote edits, user edits and completions up to a bound",
 "The extension has no behavioural tests.",
 ["vscode-plugin/src/extension.ts","vscode-plugin/src/cursor.ts"],
 [("position conversion","vscode-plugin/src/extension.ts"),("mutual exclusion and revision check","vscode-plugin/src/extension.ts processEditFromDaemon / processUserEdit")],
 ["requests sent","edits applied to the document"],None)
p("C24","Settings come from the command line first, then the config file",
 "For each of port, peer and secret the daemon uses the value given on the command line if there is one, otherwise the one from the project's config file, otherwise its default. A daemon is the host exactly when neither source names a peer.",
 ["configurations"],"every combination of options and config file entries being present or absent, with different values",
 "No test covers configuration.",
 [D+"peer.rs",D+"main.rs"],
 [("reading the config file",D+"peer.rs from_config_file"),("merging",D+"peer.rs takes_precedence_over"),("host decision",D+"peer.rs is_host")],
 ["resolved settings"],None)
p("C25","The Neovim plugin shows and reports cursors where they are",
 "For every position and selection in a shared buffer, the Neovim plugin reports the lines and characters it covers, with the active end last. A cursor received for someone else is shown at exactly the characters of its ranges (next to an empty range), replaces what was shown for that person before in whichever file, and is removed when it has no ranges. Listing people and jumping to one leads to their latest place.",
 ["inputs","histories"],"every position, selection and range in every small buffer, every sequence of cursor messages, openings and wipe-outs up to a bound",
 "No test of the plugin covers cursors.",
 ["vim-plugin/lua/cursor.lua","vim-plugin/lua/utils.lua"],
 [("reporting","vim-plugin/lua/cursor.lua track_cursor"),("showing","vim-plugin/lua/cursor.lua set_cursor"),("listing and jumping","vim-plugin/lua/cursor.lua list_cursors / jump_to_cursor")],
 ["cursor notifications","highlighted characters","place after jumping"],None)
p("C26","The VS Code extension shows and reports cursors where they are",
 "For every selection in a shared document, the VS Code extension reports the lines and characters it covers, with the active end last. A cursor received for someone else is shown at exactly the characters of its ranges in every visible editor of an open document; it replaces what was shown for that person before in whichever file, leaves other people's cursors as they are, and is removed when it has no ranges. The list of people shows each person's latest place.",
 ["inputs","histories"],"every selection and range in every small document, every sequence of cursor messages up to a bound",
 "The extension has no behavioural tests.",
 ["vscode-plugin/src/cursor.ts","vscode-plugin/src/extension.ts"],
 [("reporting","vscode-plugin/src/extension.ts processSelection"),("showing","vscode-plugin/src/cursor.ts setCursor"),("listing","vscode-plugin/src/cursor.ts getCursorInfo")],
 ["cursor notifications","decorated characters","list of people"],None)
p("C27","Peers may come, stall and go at any moment",
 "Whenever a connection between two daemons ends or stands still, be it in the middle of the handshake, of a message or between two, both daemons keep running, keep serving their editors and keep accepting other peers. When the peer comes back, everything is synchronized.",
 ["crash_points","schedules"],"every number of bytes after which a connection is cut or stops passing data, in each direction",
 "No test breaks a connection between two daemons.",
 [D+"peer.rs"],
 [("event loop",D+"peer.rs P2PActor::run"),("accepting and opening streams",D+"peer.rs"),("exchange with one peer",D+"peer.rs protocol_handler")],
 ["files of both daemons","third peer's files","daemon processes"],None)
p("C28","Only directories that are marked for sharing are touched",
 "A daemon started on a directory that has no '.ethersync' directory of its own ends without sharing, listening or changing anything. In Neovim, files outside of directories marked that way are neither reported nor treated differently: files on disk and buffers are as without the plugin, and no daemon is contacted; in VS Code, edits to them are not reported and they are not saved on their own. Files at any depth of a marked directory are reported with their full path.",
 ["inputs","histories"],"every arrangement of marked and unmarked nested directories, every way to name a file or directory of the bound, every short sequence of operations",
 "No test opens a file outside of a shared directory.",
 [D+"main.rs","vim-plugin/plugin/ethersync.lua","vscode-plugin/src/extension.ts"],
 [("check at startup",D+"main.rs has_ethersync_directory"),("search in parent directories","vim-plugin/plugin/ethersync.lua is_ethersync_enabled"),("search in parent directories","vscode-plugin/src/extension.ts isEthersyncEnabled")],
 ["messages to the daemon","files on disk","buffers","listening sockets"],None)
for x in P:
    assert len(x["title"])<=80,x["title"]
    assert x["statement"].count(". ")<=2
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
