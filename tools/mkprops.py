import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=state
    P.append(d)
D="daemon/src/"
p("C01","File access stays inside the shared directory",
 "Whatever path a peer, an editor or the file watcher names (with '..', absolute, through symbolic links, or not existing yet), the daemon never reads, creates, overwrites, renames or deletes a file outside the shared project directory. The only files it touches elsewhere are its editor socket and the directory that holds it.",
 ["inputs","programs"],"all path strings received from peers and editors, all directory layouts including existing and dangling symlinks, and every file operation in the program",
 "Unit tests try a handful of paths against a handful of helper functions; they cannot show that every file operation reachable in the daemon goes through the check, nor that the path used is the path that was checked.",
 [D+"sandbox.rs",D+"daemon.rs",D+"editor_connection.rs",D+"peer.rs",D+"editor.rs",D+"watcher.rs"],
 [("check_inside_base_dir_and_canonicalize",D+"sandbox.rs"),("absolute_and_canonicalized",D+"sandbox.rs"),("maybe_write_file",D+"daemon.rs")],
 ["path argument of every file system call"])
p("C02","A file that an editor has open is not written by the daemon",
 "As long as at least one connected editor has a file open, the daemon never writes content to that file on disk, whichever peer, editor or event causes the change. Changes are delivered to the editors that have it open instead.",
 ["schedules","histories"],"all interleavings of opens, closes, local and remote edits from any number of editors and peers",
 "Whether a write is reached with the file open depends on the history of several editors and peers; tests run single messages with at most one editor.",
 [D+"daemon.rs",D+"editor_connection.rs"],
 [("DocumentActor::owns",D+"daemon.rs"),("maybe_write_file",D+"daemon.rs"),("EditorConnection::owns",D+"editor_connection.rs")],
 ["disk writes of shared file content"])
p("C03","Giving up a file writes its shared content to disk",
 "When an editor stops having a file open, because it closes the file or because its connection ends for any reason, and no other editor has it open, the daemon writes the current shared content of that file to disk.",
 ["schedules","fault_sequences"],"every way an editor can give up a file: close message, orderly disconnect, crash of the editor, failure to send to it",
 "The tests never disconnect an editor that has files open, and the order of giving up ownership and writing cannot be enumerated by examples.",
 [D+"daemon.rs",D+"editor_connection.rs"],
 [("inside_message_to_doc (close)",D+"daemon.rs"),("CloseEditorConnection handling",D+"daemon.rs"),("send_to_editor_client",D+"daemon.rs")],
 ["disk write following loss of ownership"])
p("C04","Disk events of files open in an editor do not change the document",
 "While an editor has a file open, creation, change and removal events for it on the file system (for example the editor saving it) do not change the shared document.",
 ["schedules","histories"],"all file events arriving while any of several editors has the file open",
 "Requires a live watcher, an editor and specific timing; existing tests drive neither together.",
 [D+"daemon.rs"],
 [("handle_watcher_event",D+"daemon.rs"),("DocumentActor::owns",D+"daemon.rs")],
 ["mutations of the shared document during watcher event handling"])
p("C05","Every change of the shared document wakes up persister and peers",
 "Every time the shared document is changed, by an editor, a peer, a file event or the daemon itself, the task that persists it and the tasks that sync it with connected peers are notified before the next message is handled. No kind of change waits for a later, unrelated change to be saved or sent.",
 ["histories","programs"],"every message that can change the document, on every branch of its handling",
 "A missing notification is masked by any later change, so tests that make more than one change never see it.",
 [D+"daemon.rs",D+"document.rs"],
 [("doc_changed_ping_tx.send",D+"daemon.rs"),("inside_message_to_doc",D+"daemon.rs"),("apply_sync_message_to_doc",D+"daemon.rs")],
 ["change notification after each document mutation"])
p("C06","Changes received from a peer reach the disk and every open editor",
 "Every file creation, text change, removal and cursor change contained in a message from a peer is carried out locally: each changed or created file is written to disk unless an editor has it open, each text change and each cursor change is passed to all connected editors, and each removed file is removed from disk. None is skipped or passed on twice, and text changes keep their order, as do cursor changes.",
 ["inputs","histories"],"all sequences of document patches a sync message can produce",
 "No test connects two daemons; patch combinations (creation of empty files, removal together with edits, several files in one message) are not covered.",
 [D+"daemon.rs",D+"types.rs"],
 [("ReceiveSyncMessage handling",D+"daemon.rs"),("PatchEffect conversion",D+"types.rs"),("maybe_write_files_changed_in_file_deltas",D+"daemon.rs")],
 ["disk writes, removals and editor messages per patch"])
p("C07","Peer synchronisation loses neither wake-ups nor its state",
 "For every connected peer, a sync message is generated once at the start and again after every change of the document, including changes made while the connection was being set up and changes that came from that peer. The per-peer sync state used for one step is always the one produced by the previous step.",
 ["schedules","fault_sequences"],"all interleavings of document changes, incoming peer messages and connection set-up",
 "Lost wake-ups and lost sync state appear only for specific interleavings of three tasks; there is no test of the peer code at all.",
 [D+"peer.rs",D+"daemon.rs"],
 [("SyncActor::run",D+"peer.rs"),("SyncActor::generate_sync_message",D+"peer.rs"),("SyncActor::receive_sync_message",D+"peer.rs")],
 ["sync message generation and per-peer state hand-over"])
p("C08","Peer messages survive the wire unsplit and unmixed",
 "A sync message sent to a peer arrives there as exactly the same bytes, whatever way the transport splits the byte stream and whatever messages travel in the other direction at the same time. A truncated or failed read ends the connection instead of being interpreted as a message.",
 ["schedules","fault_sequences","inputs"],"all segmentations of the byte stream, message sizes and interleavings of reading and writing",
 "Segmentation inside a length prefix while a message is waiting to be sent is a timing condition no test reproduces.",
 [D+"peer.rs"],
 [("protocol_handler",D+"peer.rs")],
 ["reads from and writes to the peer stream"])
p("C09","Only holders of the shared secret can sync",
 "Every connection between daemons, incoming or outgoing, is encrypted and authenticated with a key derived from the configured secret before any sync data is exchanged. The built-in default is used only when no secret is configured, and then a warning is shown.",
 ["configurations","inputs"],"all configurations and all incoming connections",
 "Tests never open a peer connection; an unauthenticated path would pass all of them.",
 [D+"peer.rs"],
 [("P2PActor::run transport construction",D+"peer.rs"),("passphrase_to_bytes",D+"peer.rs")],
 ["transport handed to the network swarm"])
p("C10","The private key file is never readable by others",
 "The daemon refuses to use an existing private key file that anyone but its owner can read, write or execute, and a key file that it creates itself is at no moment accessible to group or others.",
 ["configurations","fault_sequences"],"all permission bits of an existing file and every moment of creating a new one",
 "Tests do not touch the key file; the moment between creation and restricting permissions cannot be observed by a functional test.",
 [D+"peer.rs"],
 [("P2PActor::get_keypair",D+"peer.rs")],
 ["opening and reading of the key file"])
p("C11","Editors can only connect through a socket private to the user",
 "The daemon listens for editors only in a directory without any permission for group and others, and checks this before it removes or creates anything there. A socket name that is not a single plain file name is refused.",
 ["configurations","inputs"],"all directory permission bits, socket names and environment settings",
 "Needs directories with unusual permissions and a running listener; tests cover neither.",
 [D+"editor.rs",D+"main.rs"],
 [("is_user_readable_only",D+"editor.rs"),("is_valid_socket_name",D+"editor.rs"),("make_editor_connection",D+"editor.rs")],
 ["binding of the listening socket"])
p("C12","Secrets are not disclosed",
 "The shared secret and the private key never appear in log output, error messages, command-line arguments, messages to editors, the shared document or any file other than the user's own configuration and the key file.",
 ["programs","inputs"],"every place where text is formatted, logged, sent or written",
 "Absence of a flow from the secret to any output can only be shown by looking at all flows, not at selected outputs.",
 [D+"peer.rs",D+"main.rs"],
 [("PeerConnectionInfo",D+"peer.rs"),("P2PActor::get_keypair",D+"peer.rs"),("command line definition",D+"main.rs")],
 ["format, log, send and write operations"])
p("C13","Every editor request gets exactly one response",
 "For every line of text an editor sends, the daemon answers exactly once if it is a request (success or error, with the id of that request), exactly once with an error and without id if it cannot be understood, and not at all if it is a notification. The success answer is given only if the request was carried out.",
 ["inputs","histories"],"all lines an editor can send in any connection state",
 "Tests check single messages below the level at which responses are produced; missing or doubled answers on error branches stay invisible.",
 [D+"daemon.rs",D+"types.rs"],
 [("handle_message_from_editor",D+"daemon.rs"),("react_to_message_from_editor",D+"daemon.rs")],
 ["response objects sent to editor"])
p("C14","Changes go to every other editor and never back to their author",
 "Opening a file makes it part of the shared document. An edit or cursor movement made in one editor enters the shared document, is passed to every other connected editor and never back to the editor it came from. A change that comes from a peer is passed to all connected editors.",
 ["schedules","histories"],"any number of editors connecting and disconnecting, any origin of a change",
 "Tests use at most one editor connection.",
 [D+"daemon.rs",D+"editor_connection.rs"],
 [("broadcast_to_editors",D+"daemon.rs"),("react_to_message_from_editor",D+"daemon.rs"),("message_from_daemon",D+"editor_connection.rs")],
 ["messages sent per editor"])
p("C15","Ignored files are never shared",
 "The content of files below '.git' or '.ethersync', and of files excluded by git ignore rules, never enters the shared document: not at start-up, not through file system events, and not when an editor opens them.",
 ["inputs","configurations"],"every file in the directory tree, every ignore configuration and every way content can enter the document",
 "Each entry route needs its own check; a test of one route says nothing about the others or about new ones.",
 [D+"daemon.rs",D+"sandbox.rs",D+"watcher.rs",D+"editor_connection.rs"],
 [("sandbox::ignored",D+"sandbox.rs"),("build_walk",D+"daemon.rs"),("maybe_created / maybe_modified",D+"watcher.rs"),("message_from_editor (open)",D+"editor_connection.rs")],
 ["text entering the shared document from disk"])
p("C16","Peers cannot change version control or Ethersync internals",
 "A change received from a peer never creates, overwrites or deletes a file in the '.git' or '.ethersync' directories, at any depth of the project.",
 ["inputs"],"all file names a peer can put into the shared document",
 "Requires a misbehaving peer; tests have no peers.",
 [D+"daemon.rs"],
 [("maybe_write_file",D+"daemon.rs"),("ReceiveSyncMessage handling (removal)",D+"daemon.rs")],
 ["disk effects of peer changes"])
p("C17","At start-up the files on disk are the source of truth",
 "When a saved document exists and no fresh start is requested, it is loaded, every shareable file on disk is merged into it as a difference, and files that no longer exist are removed from it. On a requested fresh start, or the first start of a hosting daemon, a new document is filled from the files; a daemon joining for the first time shares none of its files.",
 ["configurations","histories"],"all combinations of saved document present or not, fresh start requested or not, hosting or joining",
 "Only some of the combinations are tested, and only with one file.",
 [D+"daemon.rs",D+"document.rs"],
 [("DocumentActor::new",D+"daemon.rs"),("read_current_content_from_dir",D+"daemon.rs")],
 ["document operations during start-up"])
p("C18","Saved document stays loadable after a crash",
 "If the daemon stops or is killed at any moment, the saved document on disk can be loaded on the next start and contains at least everything of the last completed save. Incremental saves are only ever added to a file that the same run has completely written before.",
 ["crash_points","histories"],"every crash point between and inside the write operations of a save",
 "Crashes inside a write cannot be provoked by the existing tests.",
 [D+"daemon.rs",D+"document.rs",D+"sandbox.rs"],
 [("Persist handling",D+"daemon.rs"),("Document::load",D+"document.rs"),("sandbox::write_file / append_file",D+"sandbox.rs")],
 ["operations on the saved document file"])
p("C19","Revision numbers count every operation exactly once",
 "For each open file, the daemon counts every operation it sends to the editor and every operation it receives from it exactly once, stamps each outgoing edit with the number of editor operations seen so far, and keeps each outgoing operation until the editor has confirmed it. Opening a file starts at zero on both sides.",
 ["schedules","histories"],"all interleavings of daemon-side and editor-side operations on a file",
 "Off-by-one bookkeeping appears only in specific interleavings; the example-based tests cover a few.",
 [D+"ot.rs",D+"editor_connection.rs"],
 [("OTServer::apply_crdt_change",D+"ot.rs"),("OTServer::apply_editor_operation",D+"ot.rs"),("OTServer::deltas_for_editor",D+"ot.rs")],
 ["revision counters and pending operation queue"])
p("C20","Files that are not valid UTF-8 are neither shared nor altered",
 "Content that is not valid UTF-8 never enters the shared document, not even in repaired or truncated form, so such a file is never overwritten by a mangled copy.",
 ["inputs"],"all file contents, on every route from disk into the document",
 "Tests use text files only.",
 [D+"daemon.rs",D+"editor_connection.rs"],
 [("handle_watcher_event",D+"daemon.rs"),("read_current_content_from_dir",D+"daemon.rs"),("message_from_editor (open)",D+"editor_connection.rs")],
 ["text entering the shared document from disk"])
p("C21","Positions and lengths are counted in Unicode characters everywhere",
 "Every offset and length in edits exchanged with editors, in the operational transformation and in the shared document is a count of Unicode characters; byte and UTF-16 counts never take part.",
 ["inputs","programs"],"all texts, including ones with multi-byte characters, in every conversion",
 "Most tests use ASCII, where all units coincide.",
 [D+"types.rs",D+"document.rs",D+"ot.rs",D+"daemon.rs"],
 [("delta conversions",D+"types.rs"),("apply_delta_to_doc",D+"document.rs"),("force_apply",D+"ot.rs")],
 ["arguments of text operations"])
p("C22","Changes made by other programs are taken over",
 "When another program creates, changes, replaces, renames or removes a shareable UTF-8 file that no editor has open, or moves it out of the project, the shared document is updated accordingly as soon as the file event arrives.",
 ["histories","schedules"],"all sequences of file operations by other programs",
 "Tests check the event translation for four simple cases and never the combination with the document.",
 [D+"watcher.rs",D+"daemon.rs"],
 [("Watcher::next",D+"watcher.rs"),("handle_watcher_event",D+"daemon.rs")],
 ["document operations per file event"])
p("C23","An internal failure stops the whole daemon visibly",
 "If any task of the daemon fails with a panic, the failure is reported and the process ends with a non-zero exit status; it never continues with some of its tasks dead. This is in force before any task is started.",
 ["fault_sequences"],"a panic in any task at any time",
 "Tests run tasks in the test process, where this is not installed.",
 [D+"main.rs"],
 [("panic hook",D+"main.rs")],
 ["installation of the panic hook"])
p("C24","A vanishing editor or a file deleted by a peer does not stop the daemon",
 "An editor may disconnect or become unwritable at any moment, even while messages from or to it are still being processed, and may keep editing a file that a peer has deleted. Neither, nor any line of text that cannot be understood as a request, stops the daemon or affects other editors.",
 ["schedules","fault_sequences","inputs"],"every point of message handling at which an editor can vanish or a file can be gone",
 "Needs a disconnect at a specific point between two messages; tests never disconnect.",
 [D+"daemon.rs",D+"document.rs",D+"editor_connection.rs"],
 [("send_to_editor_client",D+"daemon.rs"),("react_to_message_from_editor",D+"daemon.rs"),("broadcast_to_editors",D+"daemon.rs"),("apply_delta_to_doc",D+"document.rs")],
 ["look-ups of editors and files while handling messages"])
p("C25","Independently started daemons share one document structure",
 "Every new document starts from the same fixed initial content, so that two daemons that started independently can merge; no daemon ever creates the top-level structure of the document by itself.",
 ["histories","configurations"],"all pairs of daemons that started without having been connected",
 "Needs two documents created in different processes and merged.",
 [D+"document.rs"],
 [("Document::default",D+"document.rs")],
 ["creation of top-level objects"])
p("C26","Cursors belong to one editor and disappear with it",
 "Each editor connection has its own cursor identity, different from that of every other connection and peer. When an editor disconnects, its cursor is cleared at all remaining editors and, unless no file is shared, in the shared document.",
 ["schedules","histories"],"any number of editors connecting and disconnecting in any order",
 "Tests do not connect or disconnect editors.",
 [D+"daemon.rs",D+"document.rs",D+"editor.rs"],
 [("cursor_id",D+"daemon.rs"),("maybe_delete_cursor_position",D+"daemon.rs"),("next_editor_id",D+"daemon.rs")],
 ["cursor state stored and broadcast on disconnect"])
p("C27","Editor messages are framed so that the receiver can split them",
 "Every message to an editor socket is exactly one line, and every message on standard output of the client is preceded by its exact length in bytes. The client forwards a message from standard input only once it has arrived completely, consumes exactly its bytes, and forwards messages in both directions unchanged and in order.",
 ["inputs","schedules"],"all message contents without raw line breaks, including multi-byte characters, and all splittings of the input",
 "There are no tests of the client; ASCII-only manual tests cannot tell bytes from characters.",
 [D+"jsonrpc_forwarder.rs",D+"editor.rs",D+"types.rs"],
 [("ContentLengthCodec",D+"jsonrpc_forwarder.rs"),("EditorProtocolCodec",D+"editor.rs"),("to_jsonrpc",D+"types.rs")],
 ["bytes produced and consumed by the codecs"])
p("C28","The Neovim plugin follows the revision protocol and never echoes edits",
 "The Neovim plugin applies an edit from the daemon only if it is based on the plugin's current revision and then counts it, counts every local edit once and sends it with the number of daemon edits applied, and never sends an edit that it applied on behalf of the daemon back to it.",
 ["schedules","histories"],"all interleavings of local and remote edits in a buffer",
 "The plugin tests cover text conversion only.",
 ["vim-plugin/plugin/ethersync.lua","vim-plugin/lua/changetracker.lua"],
 [("process_operation_for_editor",'vim-plugin/plugin/ethersync.lua'),("track_edits",'vim-plugin/plugin/ethersync.lua'),("apply_delta",'vim-plugin/lua/changetracker.lua')],
 ["edit messages sent and edits applied"])
p("C29","The VS Code plugin follows the revision protocol and never echoes edits",
 "The VS Code plugin applies an edit from the daemon only if it is based on the plugin's current revision and then counts it, counts every local edit once and sends it with the number of daemon edits applied, and never sends an edit that it applied on behalf of the daemon back to it.",
 ["schedules","histories"],"all interleavings of local and remote edits in a document",
 "There are no tests of this plugin.",
 ["vscode-plugin/src/extension.ts"],
 [("processEditFromDaemon",'vscode-plugin/src/extension.ts'),("processUserEdit",'vscode-plugin/src/extension.ts')],
 ["edit messages sent and edits applied"])
p("C30","Command-line options win over the configuration file",
 "A port or peer given on the command line is used even if the configuration file contains a different one; one given only in the file is used; and whether the daemon hosts or joins follows from the peer that is used in the end.",
 ["configurations"],"all combinations of options given on the command line and in the file",
 "The combination is computed in the main program, which no test runs.",
 [D+"main.rs",D+"peer.rs",D+"daemon.rs"],
 [("takes_precedence_over",D+"peer.rs"),("from_config_file",D+"peer.rs"),("is_host",D+"peer.rs")],
 ["connection settings handed to the daemon"])
p("C31","Edits keep their meaning when passed between editor, document and files",
 "Whenever an edit is handed from one part of the system to another (editor, transformation of concurrent edits, shared document, changes received from peers), it denotes the same change of the same text: the same characters are kept, removed and inserted at the same places, whatever the order of operations in it and in whatever direction a range is given.",
 ["inputs","programs"],"all edits with any number of operations, all texts they can refer to, all ranges",
 "The conversions are tested with a dozen short edits; an error that needs a certain sequence of operations, a backward range over several lines or an edit at a line end is not among them.",
 [D+"types.rs",D+"document.rs"],
 [("delta conversions",D+"types.rs"),("as_relative, from_offset, to_offset",D+"types.rs"),("apply_delta_to_doc",D+"document.rs")],
 ["operations written by each conversion and positions given to the document"])
p("C32","Only a directory marked for sharing is shared",
 "The daemon shares a directory only if that directory carries the marker that its owner put there; pointed at any other directory, it stops without sharing, reading or changing anything in it.",
 ["configurations"],"all ways to give the directory (option, current directory, through links) and all combinations of other options",
 "The decision is made in the main program, which no test runs; a daemon started in the wrong directory would offer all of its files to peers.",
 [D+"main.rs",D+"daemon.rs"],
 [("has_ethersync_directory",D+"main.rs"),("Daemon::new",D+"daemon.rs")],
 ["whether the daemon starts to share","tasks that are started"])
p("C40","All peers converge to the same directory content",
 "After all messages have been delivered and no further edits are made, all connected peers have the same files with the same content, both on disk and in their editors.",
 ["schedules","histories"],"all interleavings of edits at all peers",
 "Needs all interleavings of several daemons.",
 [D+"daemon.rs",D+"document.rs",D+"ot.rs",D+"peer.rs"],
 [("CRDT sync",D+"document.rs"),("operational transformation",D+"ot.rs")])
p("C41","Concurrent edits of editor and daemon are transformed consistently",
 "If an editor and the daemon change a file concurrently, both end up with the same text, which contains both changes.",
 ["schedules","inputs"],"all pairs of concurrent operation sequences",
 "The space of operation pairs is infinite.",
 [D+"ot.rs",D+"types.rs"],
 [("transform_through_operations",D+"ot.rs")])
p("C42","Merging a changed file into the document yields exactly the file's text",
 "After a file changed by another program has been merged, the shared text of that file equals the content on disk character by character. It is entered as a difference to the text that was there, so that changes made by others at the same time are not lost.",
 ["inputs"],"all pairs of old and new content",
 "The space of text pairs is infinite.",
 [D+"document.rs",D+"types.rs"],
 [("update_text",D+"document.rs"),("apply_delta_to_doc",D+"document.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
