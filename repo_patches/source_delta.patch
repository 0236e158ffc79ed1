From 93f02d505bcd8fec04be24409bd4934c11a1b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:48 +0000
Subject: [PATCH 01/13] fix: do not write through dangling symlinks

The target of a symlink that points to a file that does not exist yet
was not checked. Writing to such a path created the target, even when it
was outside of the project directory.
---
 daemon/src/sandbox.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index e8bce6c..44d1e54 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -28,6 +28,11 @@ pub fn write_file(
 ) -> Result<()> {
     let canonical_file_path =
         check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
+    // A symlink that is left after canonicalizing points to a file that doesn't exist.
+    // Writing would create that file, which could be outside of the base directory.
+    if canonical_file_path.is_symlink() {
+        bail!("File path is a dangling symlink.");
+    }
     fs::write(canonical_file_path, content)?;
     Ok(())
 }
-- 
2.43.0


From d47763dbd30df30230861919731c744d1a3ede8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:48 +0000
Subject: [PATCH 02/13] fix: announce files that are created by opening them

Opening a new file added it to the document without notifying the
persister and the peers. It was only saved and synced after the next
unrelated change.
---
 daemon/src/daemon.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 1fffef0..962baf2 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -591,6 +591,7 @@ impl DocumentActor {
                     // The file doesn't exist yet - create it in the Automerge document.
                     let text = String::new();
                     self.crdt_doc.initialize_text(&text, file_path);
+                    let _ = self.doc_changed_ping_tx.send(());
                     text
                 });
             }
-- 
2.43.0


From f07bbd211f04ceee01d615d5054cb95e78d50b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:48 +0000
Subject: [PATCH 03/13] fix: ignore messages from editors that were removed

When sending to an editor fails, its connection is removed. Lines that it
had sent before were still handled, and stopped the daemon because the
connection could not be found.
---
 daemon/src/daemon.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 962baf2..82a1387 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -169,6 +169,10 @@ impl DocumentActor {
                 self.broadcast_to_editors(None, &message).await;
             }
             DocMessage::FromEditor(editor_id, message) => {
+                if !self.editor_connections.contains_key(&editor_id) {
+                    debug!("Ignoring message from editor #{editor_id}, which was removed already");
+                    return;
+                }
                 self.handle_message_from_editor(editor_id, message).await;
             }
             DocMessage::FromWatcher(watcher_event) => {
-- 
2.43.0


From c93c53de9e79fb92e2a9a1d0a996b93753879638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:48 +0000
Subject: [PATCH 04/13] fix: ignore edits of files that were deleted

When a peer deleted a file that a local editor had open, the next edit in
that editor stopped the daemon.
---
 daemon/src/daemon.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 82a1387..0e37fdc 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -603,6 +603,10 @@ impl DocumentActor {
                 self.maybe_write_file(file_path);
             }
             ComponentMessage::Edit { file_path, delta } => {
+                if !self.crdt_doc.file_exists(file_path) {
+                    warn!("Ignoring edit of {file_path}, which was deleted in the meantime");
+                    return;
+                }
                 self.crdt_doc.apply_delta_to_doc(delta, file_path);
                 let _ = self.doc_changed_ping_tx.send(());
                 self.maybe_write_file(file_path);
-- 
2.43.0


From 23473163e5f2e56c8a07ea3e479ddc68be54366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:48 +0000
Subject: [PATCH 05/13] fix: write files when the editor that owns them goes
 away

Files are written to disk when an editor closes them. That did not happen
when the editor disconnected, or was removed because sending to it
failed. Changes that the editor had not saved were missing on disk.
---
 daemon/src/daemon.rs            | 13 +++++++++++--
 daemon/src/editor_connection.rs |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 0e37fdc..efade44 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -273,7 +273,7 @@ impl DocumentActor {
                 );
             }
             DocMessage::CloseEditorConnection(editor_id) => {
-                self.editor_connections.remove(&editor_id);
+                self.remove_editor_connection(&editor_id);
 
                 let cursor_id = self.cursor_id(editor_id);
                 debug!("Deleting cursor {cursor_id}");
@@ -478,10 +478,19 @@ impl DocumentActor {
 
         connection.1.send(message).await.unwrap_or_else(|err| {
             error!("Failed to send message to editor: {err} Removing editor.");
-            self.editor_connections.remove(editor_id);
+            self.remove_editor_connection(editor_id);
         });
     }
 
+    /// Removes an editor, and writes the files that it had ownership of.
+    fn remove_editor_connection(&mut self, editor_id: &EditorId) {
+        if let Some((connection, _)) = self.editor_connections.remove(editor_id) {
+            for file_path in connection.open_files() {
+                self.maybe_write_file(file_path);
+            }
+        }
+    }
+
     fn maybe_write_files_changed_in_file_deltas(&mut self, file_deltas: &Vec<FileTextDelta>) {
         // Collect file paths into a set, so we don't write files multiple times on complex
         // patches.
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index a8b2308..cc34c1b 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -41,6 +41,10 @@ impl EditorConnection {
         self.ot_servers.contains_key(file_path)
     }
 
+    pub fn open_files(&self) -> impl Iterator<Item = &RelativePath> {
+        self.ot_servers.keys()
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From 8edbddd252972ccac786b1e497d69d21a3d728df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:48 +0000
Subject: [PATCH 06/13] fix: notice files that are moved into or out of the
 project

Moving a file across the border of the watched directory only produces
one half of a rename event. Those were not handled, so that the file was
not shared, or not removed.
---
 daemon/src/watcher.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/daemon/src/watcher.rs b/daemon/src/watcher.rs
index ab4ef68..fb8a3dc 100644
--- a/daemon/src/watcher.rs
+++ b/daemon/src/watcher.rs
@@ -98,6 +98,24 @@ impl Watcher {
                         return Some(e);
                     }
                 }
+                // A file was moved out of, or into, the watched directory. For a rename within the
+                // directory, we get these in addition to `Both`.
+                EventKind::Modify(notify::event::ModifyKind::Name(
+                    notify::event::RenameMode::From,
+                )) => {
+                    assert!(event.paths.len() == 1);
+                    if let Some(e) = self.maybe_removed(&event.paths[0]) {
+                        return Some(e);
+                    }
+                }
+                EventKind::Modify(notify::event::ModifyKind::Name(
+                    notify::event::RenameMode::To,
+                )) => {
+                    assert!(event.paths.len() == 1);
+                    if let Some(e) = self.maybe_created(&event.paths[0]) {
+                        return Some(e);
+                    }
+                }
                 // MacOS doesn't give us details on moving a file, so we need to infer what
                 // happened.
                 EventKind::Modify(notify::event::ModifyKind::Name(
-- 
2.43.0


From ff2fdd8f2479127b68598033f38529a9e9554cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:03 +0000
Subject: [PATCH 07/13] fix: take over files that are replaced

Renaming a file over another one is reported as the creation of a file.
If that file was known already, its new content was ignored.
---
 daemon/src/daemon.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index efade44..85346df 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -385,6 +385,13 @@ impl DocumentActor {
                         } else {
                             warn!("Ignoring newly created non-UTF-8 file {relative_file_path}");
                         }
+                    } else if let Ok(Ok(content)) =
+                        sandbox::read_file(&self.base_dir, Path::new(&file_path))
+                            .map(String::from_utf8)
+                    {
+                        // The file might have been replaced, for example by renaming another
+                        // file over it.
+                        self.crdt_doc.update_text(&content, &relative_file_path);
                     } else {
                         debug!("Received watcher creation event, but file already exists in CRDT.")
                     }
-- 
2.43.0


From 590ca706d6c90933463dc5daf03e8ed03dd3b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:05 +0000
Subject: [PATCH 08/13] fix: replace the saved document in one step

The file was truncated before the new content was written. When the
daemon stopped in between, the document could not be loaded again.
---
 daemon/src/daemon.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 85346df..81ee48f 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -183,9 +183,15 @@ impl DocumentActor {
                 if self.save_fully {
                     debug!("Persisting fully!");
                     let bytes = self.crdt_doc.save();
-                    sandbox::write_file(&self.base_dir, &persistence_file, &bytes).unwrap_or_else(
-                        |_| panic!("Failed to persist to '{}'", persistence_file.display()),
-                    );
+                    // Replace the file in one step, so that it's complete at any time.
+                    let temporary_file = self.base_dir.join(".ethersync/doc.tmp");
+                    sandbox::write_file(&self.base_dir, &temporary_file, &bytes)
+                        .and_then(|()| {
+                            sandbox::rename_file(&self.base_dir, &temporary_file, &persistence_file)
+                        })
+                        .unwrap_or_else(|_| {
+                            panic!("Failed to persist to '{}'", persistence_file.display())
+                        });
                     self.save_fully = false
                 } else {
                     debug!("Persisting incrementally!");
-- 
2.43.0


From 02b0489683bef4765d5e17ea8e88d541aeec59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:11 +0000
Subject: [PATCH 09/13] fix: load a saved document whose last append is
 incomplete

When the daemon stopped while appending to the saved document, it
could not start again. Everything up to the incomplete append is kept.
---
 daemon/src/document.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 038c294..dbcd393 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -49,11 +49,18 @@ impl Default for Document {
 
 impl Document {
     pub fn load(bytes: &[u8]) -> Self {
-        let doc =
-            AutoCommit::load(bytes).expect("Failed to load Automerge document from given bytes");
+        let doc = AutoCommit::load(bytes).unwrap_or_else(|_| Self::load_complete_part(bytes));
         Self { doc }
     }
 
+    // If we stopped while appending to the saved document, the end of it is missing.
+    fn load_complete_part(bytes: &[u8]) -> AutoCommit {
+        let mut doc = Self::default().doc;
+        doc.load_incremental(bytes)
+            .expect("Failed to load Automerge document from given bytes");
+        doc
+    }
+
     pub fn save(&mut self) -> Vec<u8> {
         self.doc.save()
     }
-- 
2.43.0


From 2543f799c31e8760aaa8c629a384e898aa4902dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:57 +0000
Subject: [PATCH 10/13] fix: keep partially received message lengths

When the bytes of a length arrived in parts while a message was sent,
the first part was dropped. From then on, the stream was out of sync.
---
 daemon/src/peer.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 10897a4..130b3d2 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -6,7 +6,7 @@
 //! A peer is another daemon. This module is all about daemon to daemon communication.
 
 use crate::daemon::{DocMessage, DocumentActorHandle};
-use anyhow::{Context, Result};
+use anyhow::{bail, Context, Result};
 use automerge::sync::{Message as AutomergeSyncMessage, State as SyncState};
 use futures::StreamExt;
 use futures::{AsyncReadExt, AsyncWriteExt};
@@ -295,9 +295,10 @@ impl P2PActor {
         from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
         mut to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
     ) -> Result<()> {
-        loop {
-            let mut message_len_buf = [0; 4];
+        let mut message_len_buf = [0; 4];
+        let mut message_len_read = 0;
 
+        loop {
             tokio::select! {
                 message_maybe = to_peer_rx.recv() => {
                     match message_maybe {
@@ -317,7 +318,18 @@ impl P2PActor {
                         }
                     }
                 }
-                _ = stream.read_exact(&mut message_len_buf) => {
+                // When the other branch is taken, `read_exact` could lose the bytes it already read.
+                bytes_read = stream.read(&mut message_len_buf[message_len_read..]) => {
+                    let bytes_read = bytes_read?;
+                    if bytes_read == 0 {
+                        bail!("Stream has been closed");
+                    }
+                    message_len_read += bytes_read;
+                    if message_len_read < message_len_buf.len() {
+                        continue;
+                    }
+                    message_len_read = 0;
+
                     let message_len = u32::from_be_bytes(message_len_buf);
                     let mut message_buf = vec![0; message_len as usize];
                     stream.read_exact(&mut message_buf).await?;
-- 
2.43.0


From 028126bbce7e9f48212f0d192d25306e67f2e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:32 +0000
Subject: [PATCH 11/13] fix: do not let peers change files that are never
 shared

A peer could create, overwrite and remove files in .git and .ethersync.
---
 daemon/src/daemon.rs | 8 ++++++++
 daemon/src/path.rs   | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 81ee48f..502fb39 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -221,6 +221,9 @@ impl DocumentActor {
                         PatchEffect::CursorChange(cursor_state) => {
                             cursor_states.push(cursor_state);
                         }
+                        PatchEffect::FileRemoval(file_path) if file_path.is_reserved() => {
+                            warn!("Not removing {file_path}, because it is never shared.");
+                        }
                         PatchEffect::FileRemoval(file_path) => {
                             info!("Removing file {file_path}.");
 
@@ -518,6 +521,11 @@ impl DocumentActor {
     }
 
     fn maybe_write_file(&mut self, file_path: &RelativePath) {
+        if file_path.is_reserved() {
+            warn!("Not writing {file_path}, because it is never shared.");
+            return;
+        }
+
         // Only write to the file if editor *doesn't* have the file open.
         if self.owns(file_path) {
             if let Ok(text) = self.current_file_content(file_path) {
diff --git a/daemon/src/path.rs b/daemon/src/path.rs
index 2c6c8be..c17126a 100644
--- a/daemon/src/path.rs
+++ b/daemon/src/path.rs
@@ -59,6 +59,13 @@ impl RelativePath {
         Self(path.into())
     }
 
+    /// Files in these directories are never shared, so peers must not be able to change them.
+    #[must_use]
+    pub fn is_reserved(&self) -> bool {
+        self.iter()
+            .any(|component| component == ".git" || component == ".ethersync")
+    }
+
     pub fn try_from_absolute(base_dir: &Path, path: &AbsolutePath) -> Result<Self, anyhow::Error> {
         let project_dir = path::absolute(base_dir).with_context(|| {
             format!(
-- 
2.43.0


From d9fabc0dd200c7d5254814c6dfc46adaed5c83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:53 +0000
Subject: [PATCH 12/13] fix: don't crash when answering an editor that was just
 removed

Sending a change to an editor can fail, which removes the editor.
Sending the next message to it then panicked.
---
 daemon/src/daemon.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 502fb39..cfc8bbb 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -487,10 +487,10 @@ impl DocumentActor {
     }
 
     async fn send_to_editor_client(&mut self, editor_id: &EditorId, message: EditorProtocolObject) {
-        let connection = self
-            .editor_connections
-            .get_mut(editor_id)
-            .expect("Could not get editor handle");
+        let Some(connection) = self.editor_connections.get_mut(editor_id) else {
+            debug!("Not sending to editor #{editor_id}, which was removed already");
+            return;
+        };
 
         connection.1.send(message).await.unwrap_or_else(|err| {
             error!("Failed to send message to editor: {err} Removing editor.");
-- 
2.43.0


From b7f82d71804b00bc98d2befc43a89d14ce458e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:50:04 +0000
Subject: [PATCH 13/13] fix: keep sending edits after an edit could not be
 applied in Neovim

When applying an edit of the daemon raised an error, for example because
the buffer is not modifiable, the flag that hides changes from the daemon
stayed set. From then on, no local edit was sent any more.
---
 vim-plugin/lua/changetracker.lua | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vim-plugin/lua/changetracker.lua b/vim-plugin/lua/changetracker.lua
index 07f81e3..bc6d9b6 100644
--- a/vim-plugin/lua/changetracker.lua
+++ b/vim-plugin/lua/changetracker.lua
@@ -139,8 +139,11 @@ function M.apply_delta(buffer, delta)
     end
 
     ignore_edits = true
-    utils.apply_text_edits(text_edits, buffer, "utf-32")
+    local ok, err = pcall(utils.apply_text_edits, text_edits, buffer, "utf-32")
     ignore_edits = false
+    if not ok then
+        error(err, 0)
+    end
 end
 
 return M
-- 
2.43.0

