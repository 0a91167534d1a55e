From 368b304cf7e8b00c76f1e0fbe5424a64963b8905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:23 +0000
Subject: [PATCH 01/57] Add guarded hooks for verification tools

---
 daemon/src/document.rs          |  2 ++
 daemon/src/jsonrpc_forwarder.rs |  7 +++++++
 daemon/src/lib.rs               |  4 ++++
 daemon/src/peer.rs              | 35 ++++++++++++++++++++++++++++++++-
 daemon/src/verif.rs             | 25 +++++++++++++++++++++++
 5 files changed, 72 insertions(+), 1 deletion(-)
 create mode 100644 daemon/src/verif.rs

diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 038c294..199ad6d 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -51,6 +51,8 @@ impl Document {
     pub fn load(bytes: &[u8]) -> Self {
         let doc =
             AutoCommit::load(bytes).expect("Failed to load Automerge document from given bytes");
+        #[cfg(ethersync_verif)]
+        let doc = crate::verif::choose_actor(doc);
         Self { doc }
     }
 
diff --git a/daemon/src/jsonrpc_forwarder.rs b/daemon/src/jsonrpc_forwarder.rs
index 66714fb..01d096e 100644
--- a/daemon/src/jsonrpc_forwarder.rs
+++ b/daemon/src/jsonrpc_forwarder.rs
@@ -112,3 +112,10 @@ impl Decoder for ContentLengthCodec {
         Ok(Some(std::str::from_utf8(&content)?.to_string()))
     }
 }
+
+/// Access to the codec for external verification tools.
+#[cfg(ethersync_verif)]
+pub fn verif_codec(
+) -> impl Decoder<Item = String, Error = anyhow::Error> + Encoder<String, Error = std::io::Error> {
+    ContentLengthCodec
+}
diff --git a/daemon/src/lib.rs b/daemon/src/lib.rs
index 37a0dc3..1b2328c 100644
--- a/daemon/src/lib.rs
+++ b/daemon/src/lib.rs
@@ -7,10 +7,14 @@ pub mod daemon;
 pub mod document;
 pub mod editor;
 pub mod editor_connection;
+#[cfg(ethersync_verif)]
+pub mod jsonrpc_forwarder;
 pub mod logging;
 pub mod ot;
 pub mod path;
 pub mod peer;
 pub mod sandbox;
 pub mod types;
+#[cfg(ethersync_verif)]
+pub mod verif;
 pub mod watcher;
diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 10897a4..0a8595a 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -291,7 +291,8 @@ impl P2PActor {
 
     /// Core low-level syncing protocol.
     async fn protocol_handler(
-        mut stream: Stream,
+        #[cfg(not(ethersync_verif))] mut stream: Stream,
+        #[cfg(ethersync_verif)] mut stream: impl futures::AsyncRead + futures::AsyncWrite + Unpin,
         from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
         mut to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
     ) -> Result<()> {
@@ -421,3 +422,35 @@ impl SyncActor {
         }
     }
 }
+
+/// Access to internals for external verification tools.
+#[cfg(ethersync_verif)]
+pub mod verif {
+    use super::*;
+
+    pub async fn protocol_handler(
+        stream: impl futures::AsyncRead + futures::AsyncWrite + Unpin,
+        from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
+        to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
+    ) -> Result<()> {
+        P2PActor::protocol_handler(stream, from_peer_tx, to_peer_rx).await
+    }
+
+    pub async fn sync_actor(
+        document_handle: DocumentActorHandle,
+        syncer_receiver: mpsc::Receiver<AutomergeSyncMessage>,
+        syncer_sender: mpsc::Sender<AutomergeSyncMessage>,
+    ) -> Result<()> {
+        SyncActor::new(document_handle, syncer_receiver, syncer_sender)
+            .run()
+            .await
+    }
+
+    pub fn keypair(actor: &P2PActor) -> Keypair {
+        actor.get_keypair()
+    }
+
+    pub fn passphrase_to_bytes(passphrase: &str) -> [u8; 32] {
+        P2PActor::passphrase_to_bytes(passphrase)
+    }
+}
diff --git a/daemon/src/verif.rs b/daemon/src/verif.rs
new file mode 100644
index 0000000..782bd81
--- /dev/null
+++ b/daemon/src/verif.rs
@@ -0,0 +1,25 @@
+// SPDX-FileCopyrightText: 2024 blinry <mail@blinry.org>
+// SPDX-FileCopyrightText: 2024 zormit <nt4u@kpvn.de>
+//
+// SPDX-License-Identifier: AGPL-3.0-or-later
+
+//! Hooks for external verification tools. Only compiled with `--cfg ethersync_verif`.
+
+use automerge::{ActorId, AutoCommit};
+use std::cell::RefCell;
+
+thread_local! {
+    static NEXT_ACTOR: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
+}
+
+/// The next document that is loaded on this thread gets this actor ID instead of a random one.
+pub fn set_next_actor(actor: &[u8]) {
+    NEXT_ACTOR.with(|next| *next.borrow_mut() = Some(actor.to_vec()));
+}
+
+pub(crate) fn choose_actor(doc: AutoCommit) -> AutoCommit {
+    match NEXT_ACTOR.with(|next| next.borrow_mut().take()) {
+        Some(actor) => doc.with_actor(ActorId::from(actor)),
+        None => doc,
+    }
+}
-- 
2.43.0


From 67bfaf29e4a7fde4d3882b7b5f8c88b81f55cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:43 +0000
Subject: [PATCH 02/57] fix: Count only "\n" as a line break in editor
 positions

Positions were computed with a rope that also breaks lines at carriage
returns, form feeds and Unicode line separators. Editors do not count
those, so an edit behind such a character landed on the wrong line or
crashed the daemon.
---
 daemon/src/types.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 3916a9a..a0ca17e 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -8,7 +8,6 @@ use anyhow::bail;
 use automerge::{Patch, PatchAction};
 use dissimilar::Chunk;
 use operational_transform::{Operation as OTOperation, OperationSeq};
-use ropey::Rope;
 use serde::{Deserialize, Serialize};
 use tracing::{debug, error, warn};
 
@@ -347,18 +346,35 @@ pub struct Position {
 impl Position {
     /// will panic when used with not matching offset/content
     fn from_offset(full_offset: usize, content: &str) -> Self {
-        let rope = Rope::from_str(content);
-        let line = rope.char_to_line(full_offset);
-        let character = full_offset - rope.line_to_char(line);
-        Self { line, character }
+        let mut position = Self::default();
+        let mut chars = content.chars();
+        for _ in 0..full_offset {
+            // Only "\n" separates lines, that's what the editors use for counting.
+            if chars.next().expect("Offset is outside of the content") == '\n' {
+                position.line += 1;
+                position.character = 0;
+            } else {
+                position.character += 1;
+            }
+        }
+        position
     }
 
     fn to_offset(&self, content: &str) -> usize {
-        let rope = Rope::from_str(content);
+        let mut offset = 0;
+        let mut lines = content.split_inclusive('\n').chain(
+            // Text after the last newline is a line, even if it is empty.
+            (content.is_empty() || content.ends_with('\n')).then_some(""),
+        );
+        for _ in 0..self.line {
+            let line = lines.next().expect("Line is outside of the content");
+            offset += line.chars().count();
+        }
+        let line = lines.next().expect("Line is outside of the content");
 
-        assert!(self.character <= rope.line(self.line).len_chars());
+        assert!(self.character <= line.chars().count());
 
-        rope.line_to_char(self.line) + self.character
+        offset + self.character
     }
 }
 
-- 
2.43.0


From 42ce3356c47fd812e3553a8ae2c503d74c44eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:55 +0000
Subject: [PATCH 03/57] fix: Answer editor edits that cannot be applied with an
 error

An edit with a position outside of the file, an impossible revision, or
more than one operation made the daemon panic and exit. It is now
answered with an error, and the document stays as it was.
---
 daemon/src/editor_connection.rs |  4 ++++
 daemon/src/ot.rs                | 32 ++++++++++++++++++++++++++++++++
 daemon/src/types.rs             | 20 ++++++++++++++------
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index a8b2308..aa2ccc4 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -197,6 +197,10 @@ impl EditorConnection {
                     delta: delta.clone(),
                 };
 
+                ot_server
+                    .check_editor_operation(&rev_delta)
+                    .map_err(anyhow_err_to_protocol_err)?;
+
                 let (delta_for_crdt, rev_deltas_for_editor) =
                     ot_server.apply_editor_operation(rev_delta.clone());
 
diff --git a/daemon/src/ot.rs b/daemon/src/ot.rs
index b49bb93..0119eb4 100644
--- a/daemon/src/ot.rs
+++ b/daemon/src/ot.rs
@@ -6,6 +6,7 @@
 #![allow(dead_code)]
 
 use crate::types::{EditorTextDelta, RevisionedEditorTextDelta, RevisionedTextDelta, TextDelta};
+use anyhow::{ensure, Result};
 use operational_transform::OperationSeq;
 use tracing::debug;
 
@@ -108,6 +109,37 @@ impl OTServer {
         }
     }
 
+    /// Checks whether an operation that the editor wants to send us makes sense.
+    pub fn check_editor_operation(
+        &self,
+        rev_editor_delta: &RevisionedEditorTextDelta,
+    ) -> Result<()> {
+        let ops = &rev_editor_delta.delta.0;
+        ensure!(
+            ops.len() <= 1,
+            "Edits with multiple operations are not supported"
+        );
+        ensure!(
+            rev_editor_delta.revision <= self.daemon_revision,
+            "Edit is based on a revision from the future"
+        );
+        let unseen_operations = self.daemon_revision - rev_editor_delta.revision;
+        ensure!(
+            unseen_operations <= self.editor_queue.len(),
+            "Edit is based on an outdated revision"
+        );
+        let seen_operations = self.editor_queue.len() - unseen_operations;
+        let content = self.editor_queue[..seen_operations].iter().fold(
+            self.last_confirmed_editor_content.clone(),
+            |content, op_seq| Self::force_apply(&content, op_seq.clone()),
+        );
+        ensure!(
+            ops.iter().all(|op| op.range.is_within(&content)),
+            "Edit has a range outside of the file"
+        );
+        Ok(())
+    }
+
     /// Called when the editor sends us an operation.
     /// daemonRevision is the revision this operation applies to.
     pub fn apply_editor_operation(
diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index a0ca17e..1c1a5b9 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -325,6 +325,11 @@ impl Range {
             || (self.start.line == self.end.line && self.start.character <= self.end.character)
     }
 
+    #[must_use]
+    pub fn is_within(&self, content: &str) -> bool {
+        self.start.checked_offset(content).is_some() && self.end.checked_offset(content).is_some()
+    }
+
     #[must_use]
     pub fn as_relative(&self, content: &str) -> (usize, usize) {
         let start_offset = self.start.to_offset(content);
@@ -361,20 +366,23 @@ impl Position {
     }
 
     fn to_offset(&self, content: &str) -> usize {
+        self.checked_offset(content)
+            .expect("Position is outside of the content")
+    }
+
+    /// Returns None if the position doesn't exist in the content.
+    fn checked_offset(&self, content: &str) -> Option<usize> {
         let mut offset = 0;
         let mut lines = content.split_inclusive('\n').chain(
             // Text after the last newline is a line, even if it is empty.
             (content.is_empty() || content.ends_with('\n')).then_some(""),
         );
         for _ in 0..self.line {
-            let line = lines.next().expect("Line is outside of the content");
-            offset += line.chars().count();
+            offset += lines.next()?.chars().count();
         }
-        let line = lines.next().expect("Line is outside of the content");
-
-        assert!(self.character <= line.chars().count());
+        let line = lines.next()?;
 
-        offset + self.character
+        (self.character <= line.chars().count()).then_some(offset + self.character)
     }
 }
 
-- 
2.43.0


From 054555aedf7c5f87122dbe9c53b97aafa7e33bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:39 +0000
Subject: [PATCH 04/57] fix: Use one relative path per file

An editor that opened "dir/../file" got a second file with that odd name
in the document. Peers then wrote its empty content over the real file.
Clean the path before making it relative.
---
 daemon/src/path.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/src/path.rs b/daemon/src/path.rs
index 2c6c8be..5d5961b 100644
--- a/daemon/src/path.rs
+++ b/daemon/src/path.rs
@@ -6,6 +6,7 @@
 use anyhow::{bail, Context};
 use automerge::Prop;
 use derive_more::{AsRef, Deref, Display};
+use path_clean::PathClean;
 use serde::{Deserialize, Serialize};
 use std::path::{self, Path, PathBuf};
 
@@ -66,7 +67,9 @@ impl RelativePath {
                 base_dir.display()
             )
         })?;
-        let relative_path = path.strip_prefix(&project_dir).with_context(|| {
+        // Remove any ".." and "." from the path, so that each file has only one relative path.
+        let clean_path = path.clean();
+        let relative_path = clean_path.strip_prefix(&project_dir).with_context(|| {
             format!(
                 "Failed to strip project directory '{}' from path {path}",
                 project_dir.display()
-- 
2.43.0


From 9bb0020eef2af45b1bc18f31d0a3bcc0faf9424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:54 +0000
Subject: [PATCH 05/57] fix: Do not write through dangling symlinks in the
 sandbox

Writing to a link whose target did not exist created the target, even
outside of the project directory. A missing path that ended in ".." made
the daemon panic.
---
 daemon/src/sandbox.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index e8bce6c..a70efad 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -145,8 +145,10 @@ fn absolute_and_canonicalized(path: &Path) -> Result<PathBuf> {
     let mut suffix_path = PathBuf::new();
     let mut prefix_path = canonical_path.clone();
 
-    for component in path.components().rev() {
-        if prefix_path.exists() {
+    for component in path.clean().components().rev() {
+        // Don't follow links here: A link that points to nothing must not be taken for a file that
+        // can be created, because its target might be outside of the base directory.
+        if prefix_path.symlink_metadata().is_ok() {
             break;
         }
         prefix_path.pop();
-- 
2.43.0


From 72cb8024ed6462a688c4dac9b9642b742979764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:11 +0000
Subject: [PATCH 06/57] fix: Answer with an error if an opened file cannot be
 checked

When it could not be found out whether an opened file is ignored, the
daemon panicked and exited.
---
 daemon/src/editor_connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index aa2ccc4..aa416a0 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -121,7 +121,7 @@ impl EditorConnection {
 
                 // We only want to process these messages for files that are not ignored.
                 if sandbox::ignored(&self.base_dir, &absolute_path)
-                    .expect("Could not check ignore status of opened file")
+                    .map_err(anyhow_err_to_protocol_err)?
                 {
                     return Err(EditorProtocolMessageError {
                         code: -1,
-- 
2.43.0


From 0ac6236eec86c617776f0ab44256da14a0c99d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:58 +0000
Subject: [PATCH 07/57] fix: Keep running when an editor disappears while being
 served

If writing to an editor failed, the daemon forgot the editor. The next
message from or to that editor made it panic and exit.
---
 daemon/src/daemon.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 1fffef0..a0166b3 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -287,12 +287,16 @@ impl DocumentActor {
         editor_id: EditorId,
         message: &EditorProtocolMessageFromEditor,
     ) -> Result<(), EditorProtocolMessageError> {
-        let (inside_message, messages_to_editor) = self
-            .editor_connections
-            .get_mut(&editor_id)
-            .expect("Could not get editor connection")
-            .0
-            .message_from_editor(message)?;
+        let Some((editor_connection, _)) = self.editor_connections.get_mut(&editor_id) else {
+            // We removed the editor already, because we couldn't send to it.
+            return Err(EditorProtocolMessageError {
+                code: -1,
+                message: "Editor is not connected anymore".into(),
+                data: None,
+            });
+        };
+        let (inside_message, messages_to_editor) =
+            editor_connection.message_from_editor(message)?;
 
         self.inside_message_to_doc(&inside_message).await;
         self.broadcast_to_editors(Some(editor_id), &inside_message)
@@ -467,10 +471,10 @@ impl DocumentActor {
     }
 
     async fn send_to_editor_client(&mut self, editor_id: &EditorId, message: EditorProtocolObject) {
-        let connection = self
-            .editor_connections
-            .get_mut(editor_id)
-            .expect("Could not get editor handle");
+        let Some(connection) = self.editor_connections.get_mut(editor_id) else {
+            debug!("Not sending message to editor {editor_id}, it was removed already.");
+            return;
+        };
 
         connection.1.send(message).await.unwrap_or_else(|err| {
             error!("Failed to send message to editor: {err} Removing editor.");
@@ -630,12 +634,10 @@ impl DocumentActor {
                 continue;
             }
 
-            let messages_to_editor = self
-                .editor_connections
-                .get_mut(&editor_id)
-                .expect("Could not get editor connection")
-                .0
-                .message_from_daemon(message);
+            let Some((editor_connection, _)) = self.editor_connections.get_mut(&editor_id) else {
+                continue;
+            };
+            let messages_to_editor = editor_connection.message_from_daemon(message);
 
             for message_to_editor in messages_to_editor {
                 self.send_to_editor_client(
-- 
2.43.0


From 0b3d8b7b6fb3c631b389b785cc86570059f874a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:00 +0000
Subject: [PATCH 08/57] fix: Write files to disk when the editor that had them
 open disappears

The shared content was only written when an editor closed a file, not
when it disconnected. The stale file could then undo shared edits.
---
 daemon/src/daemon.rs            | 17 +++++++++++++----
 daemon/src/editor_connection.rs |  4 ++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index a0166b3..48bcfcc 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -269,7 +269,7 @@ impl DocumentActor {
                 );
             }
             DocMessage::CloseEditorConnection(editor_id) => {
-                self.editor_connections.remove(&editor_id);
+                self.remove_editor(&editor_id);
 
                 let cursor_id = self.cursor_id(editor_id);
                 debug!("Deleting cursor {cursor_id}");
@@ -476,10 +476,19 @@ impl DocumentActor {
             return;
         };
 
-        connection.1.send(message).await.unwrap_or_else(|err| {
+        if let Err(err) = connection.1.send(message).await {
             error!("Failed to send message to editor: {err} Removing editor.");
-            self.editor_connections.remove(editor_id);
-        });
+            self.remove_editor(editor_id);
+        }
+    }
+
+    fn remove_editor(&mut self, editor_id: &EditorId) {
+        if let Some((editor_connection, _)) = self.editor_connections.remove(editor_id) {
+            // We might have gotten ownership of the files back.
+            for file_path in editor_connection.open_files() {
+                self.maybe_write_file(file_path);
+            }
+        }
     }
 
     fn maybe_write_files_changed_in_file_deltas(&mut self, file_deltas: &Vec<FileTextDelta>) {
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index aa416a0..3a664eb 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -41,6 +41,10 @@ impl EditorConnection {
         self.ot_servers.contains_key(file_path)
     }
 
+    pub fn open_files(&self) -> impl Iterator<Item = &RelativePath> {
+        self.ot_servers.keys()
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From 6b857aff8c1924e4e0e010e5de259baab45bf967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:41 +0000
Subject: [PATCH 09/57] fix: Align the document with the content of a newly
 opened file

An editor starts with the content that is on disk. If that was not what
the document had, all further edits went to wrong positions or made the
daemon panic. This happened when another editor had unsaved changes,
when a change on disk was not noticed yet, and for files that were not
shared before.
---
 daemon/src/daemon.rs            | 57 +++++++++++++++++++++++++++++++++
 daemon/src/editor_connection.rs |  7 ++++
 2 files changed, 64 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 48bcfcc..e917620 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -287,6 +287,11 @@ impl DocumentActor {
         editor_id: EditorId,
         message: &EditorProtocolMessageFromEditor,
     ) -> Result<(), EditorProtocolMessageError> {
+        let open_files: HashSet<RelativePath> = self
+            .editor_connections
+            .values()
+            .flat_map(|connection| connection.0.open_files().cloned())
+            .collect();
         let Some((editor_connection, _)) = self.editor_connections.get_mut(&editor_id) else {
             // We removed the editor already, because we couldn't send to it.
             return Err(EditorProtocolMessageError {
@@ -299,6 +304,10 @@ impl DocumentActor {
             editor_connection.message_from_editor(message)?;
 
         self.inside_message_to_doc(&inside_message).await;
+        if let ComponentMessage::Open { file_path } = &inside_message {
+            let was_open = open_files.contains(file_path);
+            self.align_opened_file(editor_id, file_path, was_open).await;
+        }
         self.broadcast_to_editors(Some(editor_id), &inside_message)
             .await;
         for message_to_editor in messages_to_editor {
@@ -312,6 +321,54 @@ impl DocumentActor {
         Ok(())
     }
 
+    /// An editor starts with the content on disk. Make sure that this is what's in the document.
+    async fn align_opened_file(
+        &mut self,
+        editor_id: EditorId,
+        file_path: &RelativePath,
+        was_open: bool,
+    ) {
+        if was_open {
+            // There might be changes which are not on disk yet.
+            self.send_difference_to_editor(editor_id, file_path).await;
+        } else if let Some(text) = self
+            .editor_connections
+            .get_mut(&editor_id)
+            .and_then(|connection| connection.0.content(file_path))
+        {
+            // The file on disk might have changes we didn't get notified about yet.
+            self.crdt_doc.update_text(&text, file_path);
+            let _ = self.doc_changed_ping_tx.send(());
+        }
+    }
+
+    /// If an editor has the file open, turn its content into what's in the document.
+    async fn send_difference_to_editor(&mut self, editor_id: EditorId, file_path: &RelativePath) {
+        let Some((editor_connection, _)) = self.editor_connections.get_mut(&editor_id) else {
+            return;
+        };
+        let (Some(editor_content), Ok(content)) = (
+            editor_connection.content(file_path),
+            self.crdt_doc.current_file_content(file_path),
+        ) else {
+            return;
+        };
+        if editor_content == content {
+            return;
+        }
+        let message = ComponentMessage::Edit {
+            file_path: file_path.clone(),
+            delta: dissimilar::diff(&editor_content, &content).into(),
+        };
+        for message_to_editor in editor_connection.message_from_daemon(&message) {
+            self.send_to_editor_client(
+                &editor_id,
+                EditorProtocolObject::Request(message_to_editor),
+            )
+            .await;
+        }
+    }
+
     fn cursor_id(&self, editor_id: EditorId) -> String {
         self.crdt_doc.actor_id() + "-" + editor_id.to_string().as_str()
     }
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index 3a664eb..66de468 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -45,6 +45,13 @@ impl EditorConnection {
         self.ot_servers.keys()
     }
 
+    /// The content that the editor has for a file, when it has received everything we sent.
+    pub fn content(&mut self, file_path: &RelativePath) -> Option<String> {
+        self.ot_servers
+            .get_mut(file_path)
+            .map(|ot_server| ot_server.current_content())
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From 2f879441b3e04bcaa86b9c3851028730d335d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:12 +0000
Subject: [PATCH 10/57] fix: Forget open files that a peer deleted

When a peer deleted a file that was open in an editor, the next edit of
that file made the daemon panic and exit. Such an edit is now answered
with an error.
---
 daemon/src/daemon.rs            | 9 +++++++++
 daemon/src/editor_connection.rs | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index e917620..67dccef 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -212,8 +212,17 @@ impl DocumentActor {
                             cursor_states.push(cursor_state);
                         }
                         PatchEffect::FileRemoval(file_path) => {
+                            if self.crdt_doc.file_exists(&file_path) {
+                                // It was created again right away.
+                                continue;
+                            }
+
                             info!("Removing file {file_path}.");
 
+                            for (editor_connection, _) in self.editor_connections.values_mut() {
+                                editor_connection.forget(&file_path);
+                            }
+
                             sandbox::remove_file(
                                 &self.base_dir,
                                 &self.absolute_path_for_file_path(&file_path),
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index 66de468..09008d7 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -52,6 +52,11 @@ impl EditorConnection {
             .map(|ot_server| ot_server.current_content())
     }
 
+    /// Stop tracking a file, because it doesn't exist anymore.
+    pub fn forget(&mut self, file_path: &RelativePath) {
+        self.ot_servers.remove(file_path);
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From da8608ec6a825c118f5abd671da11e656a0a3efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:18 +0000
Subject: [PATCH 11/57] fix: Give editors the right content when an open file
 is recreated

When a peer replaced a file that was open in an editor, for example
because both had created it, the new content was inserted in front of
the old one in the editor. Later edits went to wrong positions.
---
 daemon/src/daemon.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 67dccef..1d4f84c 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -236,13 +236,30 @@ impl DocumentActor {
                 }
 
                 self.maybe_write_files_changed_in_file_deltas(&file_deltas);
+                // A file with an empty delta was created anew. In case an editor had opened a previous
+                // version of the file, the other deltas don't apply to its content.
+                let recreated_files: HashSet<RelativePath> = file_deltas
+                    .iter()
+                    .filter(|file_text_delta| file_text_delta.delta.0.is_empty())
+                    .map(|file_text_delta| file_text_delta.file_path.clone())
+                    .collect();
                 for file_text_delta in &file_deltas {
+                    if recreated_files.contains(&file_text_delta.file_path) {
+                        continue;
+                    }
                     let message = ComponentMessage::Edit {
                         file_path: file_text_delta.file_path.clone(),
                         delta: file_text_delta.delta.clone(),
                     };
                     self.broadcast_to_editors(None, &message).await;
                 }
+                for file_path in &recreated_files {
+                    let editor_ids: Vec<EditorId> =
+                        self.editor_connections.keys().cloned().collect();
+                    for editor_id in editor_ids {
+                        self.send_difference_to_editor(editor_id, file_path).await;
+                    }
+                }
                 for cursor_state in &cursor_states {
                     let message = ComponentMessage::Cursor {
                         cursor_id: cursor_state.cursor_id.clone(),
-- 
2.43.0


From 4d700da9224bf64438a20692b54ea1d87e2af5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:01 +0000
Subject: [PATCH 12/57] fix: Tell peers that a cursor is gone even if no files
 are left

When an editor disconnected from a project without files, its cursor
stayed visible at the peers.
---
 daemon/src/document.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 199ad6d..94aabd9 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -246,11 +246,12 @@ impl Document {
     }
 
     pub fn maybe_delete_cursor_position(&mut self, cursor_id: &str) {
-        // We try to set an empty cursor position, but in case we don't have any file in the
-        // project its not a big deal if it stays.
-        if let Some(file_path) = self.get_valid_file_path() {
-            self.store_cursor_position(cursor_id, None, &file_path, vec![]);
-        }
+        // We set an empty cursor position. If there's no file in the project, its path doesn't
+        // matter.
+        let file_path = self
+            .get_valid_file_path()
+            .unwrap_or_else(|| RelativePath::new(""));
+        self.store_cursor_position(cursor_id, None, &file_path, vec![]);
     }
 
     fn get_valid_file_path(&self) -> Option<RelativePath> {
-- 
2.43.0


From c5b160ea075c697b2a76fa453c92b867bfd8504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:08 +0000
Subject: [PATCH 13/57] fix: Take over the content of a file that was moved
 over another one

The file watcher reported it as a creation, which was ignored because the
file existed in the document already. So the document kept the old content.
---
 daemon/src/daemon.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 1d4f84c..583a651 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -449,27 +449,22 @@ impl DocumentActor {
                 let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
                 if self.owns(&relative_file_path) {
-                    if !self.crdt_doc.file_exists(&relative_file_path) {
-                        let content = match sandbox::read_file(
-                            &self.base_dir,
-                            Path::new(&file_path),
-                        ) {
-                            Ok(content) => content,
-                            Err(e) => {
-                                warn!(
-                                    "The file watcher noticed a file creation for {relative_file_path}, \
-                                    but we couldn't read it: {e} (probably it disappeared again already?)"
-                                );
-                                return;
-                            }
-                        };
-                        if let Ok(content) = String::from_utf8(content) {
-                            self.crdt_doc.initialize_text(&content, &relative_file_path);
-                        } else {
-                            warn!("Ignoring newly created non-UTF-8 file {relative_file_path}");
+                    let content = match sandbox::read_file(&self.base_dir, Path::new(&file_path)) {
+                        Ok(content) => content,
+                        Err(e) => {
+                            warn!(
+                                "The file watcher noticed a file creation for {relative_file_path}, \
+                                but we couldn't read it: {e} (probably it disappeared again already?)"
+                            );
+                            return;
                         }
+                    };
+                    if let Ok(content) = String::from_utf8(content) {
+                        // The file might exist in the CRDT already, for example if another file
+                        // was moved over it.
+                        self.crdt_doc.update_text(&content, &relative_file_path);
                     } else {
-                        debug!("Received watcher creation event, but file already exists in CRDT.")
+                        warn!("Ignoring newly created non-UTF-8 file {relative_file_path}");
                     }
                     let _ = self.doc_changed_ping_tx.send(());
                 }
-- 
2.43.0


From 53a32c1d4de75b4c884d63820e1e351ea78cc2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:56 +0000
Subject: [PATCH 14/57] fix: Notice files that are moved into or out of the
 directory

For these, the kernel reports only one half of a rename, which was ignored.
So the files were not shared, or not removed.
---
 daemon/src/watcher.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/daemon/src/watcher.rs b/daemon/src/watcher.rs
index ab4ef68..4f4459d 100644
--- a/daemon/src/watcher.rs
+++ b/daemon/src/watcher.rs
@@ -82,19 +82,21 @@ impl Watcher {
                         return Some(e);
                     }
                 }
+                // We get these two for each rename inside of the directory, but only one of them
+                // when something is moved into or out of it.
                 EventKind::Modify(notify::event::ModifyKind::Name(
-                    notify::event::RenameMode::Both,
+                    notify::event::RenameMode::From,
                 )) => {
-                    assert!(event.paths.len() == 2);
-                    let removed = self.maybe_removed(&event.paths[0]);
-                    let created = self.maybe_created(&event.paths[1]);
-
-                    // Queue the create event for later, return the remove event.
-                    if let Some(e) = created {
-                        self.out_queue.push_back(e);
+                    assert!(event.paths.len() == 1);
+                    if let Some(e) = self.maybe_removed(&event.paths[0]) {
+                        return Some(e);
                     }
-
-                    if let Some(e) = removed {
+                }
+                EventKind::Modify(notify::event::ModifyKind::Name(
+                    notify::event::RenameMode::To,
+                )) => {
+                    assert!(event.paths.len() == 1);
+                    if let Some(e) = self.maybe_created(&event.paths[0]) {
                         return Some(e);
                     }
                 }
-- 
2.43.0


From adefd676df262d2d0f41c1d5f96d0ae30548e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:45 +0000
Subject: [PATCH 15/57] fix: Notice files in directories that are moved around

A directory that is moved is reported as one event, without events for the
files in it. The same holds for files that are put into a new directory
before it is being watched.
---
 daemon/src/daemon.rs  | 15 ++++++++++++---
 daemon/src/sandbox.rs | 30 +++++++++++++++++++++---------
 daemon/src/watcher.rs | 27 ++++++++++++++++++++++++++-
 3 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 583a651..b155c37 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -472,9 +472,18 @@ impl DocumentActor {
             WatcherEvent::Removed { file_path } => {
                 let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
-                if self.owns(&relative_file_path) {
-                    self.crdt_doc.remove_text(&relative_file_path);
-                    let _ = self.doc_changed_ping_tx.send(());
+                // If this was a directory, we don't get separate events for the files in it.
+                let removed_file_paths: Vec<RelativePath> = self
+                    .crdt_doc
+                    .files()
+                    .into_iter()
+                    .filter(|path| path.starts_with(&relative_file_path))
+                    .collect();
+                for removed_file_path in removed_file_paths {
+                    if self.owns(&removed_file_path) {
+                        self.crdt_doc.remove_text(&removed_file_path);
+                        let _ = self.doc_changed_ping_tx.send(());
+                    }
                 }
             }
             WatcherEvent::Changed { file_path } => {
diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index a70efad..76cafcc 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -90,13 +90,29 @@ pub fn ignored(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bo
     let canonical_file_path =
         check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
 
-    let ignored_things = [".git", ".ethersync"];
-
     // To use the same logic for which files are ignored, iterate through all files
     // using ignore::Walk, and try to find this file.
     // This has the downside that the file must already exist.
+    Ok(!walk_files(absolute_base_dir)
+        .map(|path| absolute_and_canonicalized(&path))
+        .filter_map(Result::ok)
+        .any(|path| path == canonical_file_path))
+}
+
+/// Returns all files below a directory that are not ignored.
+pub fn files_in_dir(absolute_base_dir: &Path, absolute_dir_path: &Path) -> Result<Vec<PathBuf>> {
+    check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_dir_path)?;
+
+    Ok(walk_files(absolute_base_dir)
+        .filter(|path| path.starts_with(absolute_dir_path))
+        .collect())
+}
+
+fn walk_files(absolute_base_dir: &Path) -> impl Iterator<Item = PathBuf> {
+    let ignored_things = [".git", ".ethersync"];
+
     // TODO: Things in .gitignore are only ignored when there is a .git? Does that make sense?
-    let walk = WalkBuilder::new(absolute_base_dir)
+    WalkBuilder::new(absolute_base_dir)
         .standard_filters(true)
         .hidden(false)
         // Interestingly, the standard filters don't seem to ignore .git.
@@ -109,9 +125,7 @@ pub fn ignored(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bo
                 .expect("Failed to convert OsStr to str");
             !ignored_things.contains(&name) && !name.ends_with('~')
         })
-        .build();
-
-    return Ok(!walk
+        .build()
         .filter_map(Result::ok)
         .filter(|dir_entry| {
             dir_entry
@@ -119,9 +133,7 @@ pub fn ignored(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bo
                 .expect("Couldn't get file type of dir entry")
                 .is_file()
         })
-        .map(|dir_entry| absolute_and_canonicalized(dir_entry.path()))
-        .filter_map(Result::ok)
-        .any(|path| path == canonical_file_path));
+        .map(|dir_entry| dir_entry.into_path())
 }
 
 fn check_inside_base_dir_and_canonicalize(base_dir: &Path, path: &Path) -> Result<PathBuf> {
diff --git a/daemon/src/watcher.rs b/daemon/src/watcher.rs
index 4f4459d..508e0f1 100644
--- a/daemon/src/watcher.rs
+++ b/daemon/src/watcher.rs
@@ -70,6 +70,10 @@ impl Watcher {
                         return Some(e);
                     }
                 }
+                EventKind::Create(notify::event::CreateKind::Folder) => {
+                    assert!(event.paths.len() == 1);
+                    self.queue_created_in_dir(&event.paths[0]);
+                }
                 EventKind::Remove(notify::event::RemoveKind::File) => {
                     assert!(event.paths.len() == 1);
                     if let Some(e) = self.maybe_removed(&event.paths[0]) {
@@ -96,7 +100,9 @@ impl Watcher {
                     notify::event::RenameMode::To,
                 )) => {
                     assert!(event.paths.len() == 1);
-                    if let Some(e) = self.maybe_created(&event.paths[0]) {
+                    if event.paths[0].is_dir() {
+                        self.queue_created_in_dir(&event.paths[0]);
+                    } else if let Some(e) = self.maybe_created(&event.paths[0]) {
                         return Some(e);
                     }
                 }
@@ -150,6 +156,25 @@ impl Watcher {
         })
     }
 
+    /// When a directory appears, we don't get separate events for the files that are in there already.
+    fn queue_created_in_dir(&mut self, dir_path: &Path) {
+        match sandbox::files_in_dir(&self.base_dir, dir_path) {
+            Ok(file_paths) => {
+                for file_path in file_paths {
+                    self.out_queue
+                        .push_back(WatcherEvent::Created { file_path });
+                }
+            }
+            Err(error) => {
+                debug!(
+                    "Ignoring creation of '{}' because of an error: {}",
+                    dir_path.display(),
+                    error
+                );
+            }
+        }
+    }
+
     fn maybe_removed(&self, file_path: &Path) -> Option<WatcherEvent> {
         // TODO: We should check whether the file was ignored here. But how?
         Some(WatcherEvent::Removed {
-- 
2.43.0


From e598590b20dd84a78edc3347f2905620689f02ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:10 +0000
Subject: [PATCH 16/57] fix: Ignore outdated notifications about removed files

When a peer removed a file and created it again, the late notification about
the removal deleted the new file for everybody.
---
 daemon/src/daemon.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index b155c37..87f3a02 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -480,7 +480,14 @@ impl DocumentActor {
                     .filter(|path| path.starts_with(&relative_file_path))
                     .collect();
                 for removed_file_path in removed_file_paths {
-                    if self.owns(&removed_file_path) {
+                    // The file might have been created again in the meantime, for example because
+                    // a peer did so after removing it.
+                    let is_gone = sandbox::read_file(
+                        &self.base_dir,
+                        &self.absolute_path_for_file_path(&removed_file_path),
+                    )
+                    .is_err();
+                    if is_gone && self.owns(&removed_file_path) {
                         self.crdt_doc.remove_text(&removed_file_path);
                         let _ = self.doc_changed_ping_tx.send(());
                     }
-- 
2.43.0


From f46fa5ec8a81d3c1e127d835e9baefa229b665b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:50 +0000
Subject: [PATCH 17/57] fix: Do not share backup files at startup

Files whose name ends in a tilde are ignored when they are created,
changed or opened, but were shared if they existed when the daemon was
started.
---
 daemon/src/daemon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 87f3a02..cec7b9e 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -641,7 +641,7 @@ impl DocumentActor {
                     .expect("Failed to get file name from path.")
                     .to_str()
                     .expect("Failed to convert OsStr to str");
-                !ignored_things.contains(&name)
+                !ignored_things.contains(&name) && !name.ends_with('~')
             })
             .build()
     }
-- 
2.43.0


From 1939d6d9f15de2f2ec6c09644100ab03861950ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:50 +0000
Subject: [PATCH 18/57] fix: Ignore files whose name is not valid UTF-8

A single such file in the directory crashed the daemon.
---
 daemon/src/daemon.rs  | 7 +++++--
 daemon/src/sandbox.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index cec7b9e..c6e2ba4 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -635,12 +635,15 @@ impl DocumentActor {
             .hidden(false)
             // Interestingly, the standard filters don't seem to ignore .git.
             .filter_entry(move |dir_entry| {
-                let name = dir_entry
+                let Some(name) = dir_entry
                     .path()
                     .file_name()
                     .expect("Failed to get file name from path.")
                     .to_str()
-                    .expect("Failed to convert OsStr to str");
+                else {
+                    // We can only share files whose name is valid UTF-8.
+                    return false;
+                };
                 !ignored_things.contains(&name) && !name.ends_with('~')
             })
             .build()
diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index 76cafcc..fe6e736 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -117,12 +117,15 @@ fn walk_files(absolute_base_dir: &Path) -> impl Iterator<Item = PathBuf> {
         .hidden(false)
         // Interestingly, the standard filters don't seem to ignore .git.
         .filter_entry(move |dir_entry| {
-            let name = dir_entry
+            let Some(name) = dir_entry
                 .path()
                 .file_name()
                 .expect("Failed to get file name from path.")
                 .to_str()
-                .expect("Failed to convert OsStr to str");
+            else {
+                // We can only share files whose name is valid UTF-8.
+                return false;
+            };
             !ignored_things.contains(&name) && !name.ends_with('~')
         })
         .build()
-- 
2.43.0


From 372848889bc7aee499a87967c5692738e7a08744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:25 +0000
Subject: [PATCH 19/57] fix: Keep the old state until the new one is written

A daemon that was killed while saving its state completely left a
truncated file behind, and could not be started again.
---
 daemon/src/daemon.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index c6e2ba4..93016d4 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -179,9 +179,15 @@ impl DocumentActor {
                 if self.save_fully {
                     debug!("Persisting fully!");
                     let bytes = self.crdt_doc.save();
-                    sandbox::write_file(&self.base_dir, &persistence_file, &bytes).unwrap_or_else(
-                        |_| panic!("Failed to persist to '{}'", persistence_file.display()),
-                    );
+                    // Replace the file in one step, so that there's always a complete version.
+                    let temporary_file = self.base_dir.join(".ethersync/doc.new");
+                    sandbox::write_file(&self.base_dir, &temporary_file, &bytes)
+                        .and_then(|()| {
+                            sandbox::rename_file(&self.base_dir, &temporary_file, &persistence_file)
+                        })
+                        .unwrap_or_else(|_| {
+                            panic!("Failed to persist to '{}'", persistence_file.display())
+                        });
                     self.save_fully = false
                 } else {
                     debug!("Persisting incrementally!");
-- 
2.43.0


From c51754579a2a353696f89730d36773ddad0fc7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:34 +0000
Subject: [PATCH 20/57] fix: Load the state even if the last changes are
 incomplete

A daemon that was killed while appending changes to its saved state
could not be started again.
---
 daemon/src/document.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 94aabd9..8c8e959 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -12,7 +12,7 @@ use automerge::{
     patches::TextRepresentation,
     sync::{Message as AutomergeSyncMessage, State as SyncState, SyncDoc},
     transaction::Transactable,
-    AutoCommit, ObjType, Patch, PatchLog, ReadDoc,
+    AutoCommit, LoadOptions, ObjType, OnPartialLoad, Patch, PatchLog, ReadDoc,
 };
 use dissimilar::Chunk;
 use tracing::{debug, info};
@@ -49,8 +49,13 @@ impl Default for Document {
 
 impl Document {
     pub fn load(bytes: &[u8]) -> Self {
-        let doc =
-            AutoCommit::load(bytes).expect("Failed to load Automerge document from given bytes");
+        // If we were stopped while appending the latest changes, the last ones are incomplete.
+        // Everything before them is still fine.
+        let doc = AutoCommit::load_with_options(
+            bytes,
+            LoadOptions::new().on_partial_load(OnPartialLoad::Ignore),
+        )
+        .expect("Failed to load Automerge document from given bytes");
         #[cfg(ethersync_verif)]
         let doc = crate::verif::choose_actor(doc);
         Self { doc }
-- 
2.43.0


From 680108c9f063079b2eb0d7867ce94d519ff56a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:27 +0000
Subject: [PATCH 21/57] fix: Read and write messages of peers independently

While a message from a peer had arrived only in part, sending one lost
that part, and everything received afterwards was misinterpreted. When
two peers sent more than the connection can buffer at the same time,
they waited for each other forever. And when the connection was closed
on our side, the task kept running in a busy loop.
---
 daemon/src/peer.rs | 65 +++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 0a8595a..15ca0bf 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -291,43 +291,42 @@ impl P2PActor {
 
     /// Core low-level syncing protocol.
     async fn protocol_handler(
-        #[cfg(not(ethersync_verif))] mut stream: Stream,
-        #[cfg(ethersync_verif)] mut stream: impl futures::AsyncRead + futures::AsyncWrite + Unpin,
+        #[cfg(not(ethersync_verif))] stream: Stream,
+        #[cfg(ethersync_verif)] stream: impl futures::AsyncRead + futures::AsyncWrite + Unpin,
         from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
         mut to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
     ) -> Result<()> {
-        loop {
-            let mut message_len_buf = [0; 4];
-
-            tokio::select! {
-                message_maybe = to_peer_rx.recv() => {
-                    match message_maybe {
-                        Some(message) => {
-                            let message = message.encode();
-                            let message_len = u32::try_from(message.len());
-                            stream
-                                .write_all(&message_len?.to_be_bytes())
-                                .await?;
-                            stream
-                                .write_all(&message)
-                                .await?;
-                            }
-                        None => {
-                            // TODO: What should we do?
-                            error!("None on to_peer_rx");
-                        }
-                    }
-                }
-                _ = stream.read_exact(&mut message_len_buf) => {
-                    let message_len = u32::from_be_bytes(message_len_buf);
-                    let mut message_buf = vec![0; message_len as usize];
-                    stream.read_exact(&mut message_buf).await?;
-
-                    let message =
-                        AutomergeSyncMessage::decode(&message_buf)?;
-                    from_peer_tx.send(message).await?;
-                }
+        // Reading and writing must not wait for each other: Otherwise, we would lose what we have
+        // read of a message when we start writing one, and two peers that are both busy writing
+        // would wait for each other forever.
+        let (mut reader, mut writer) = stream.split();
+
+        let write_messages = async {
+            while let Some(message) = to_peer_rx.recv().await {
+                let message = message.encode();
+                let message_len = u32::try_from(message.len());
+                writer.write_all(&message_len?.to_be_bytes()).await?;
+                writer.write_all(&message).await?;
             }
+            Ok(())
+        };
+
+        let read_messages = async {
+            loop {
+                let mut message_len_buf = [0; 4];
+                reader.read_exact(&mut message_len_buf).await?;
+                let message_len = u32::from_be_bytes(message_len_buf);
+                let mut message_buf = vec![0; message_len as usize];
+                reader.read_exact(&mut message_buf).await?;
+
+                let message = AutomergeSyncMessage::decode(&message_buf)?;
+                from_peer_tx.send(message).await?;
+            }
+        };
+
+        tokio::select! {
+            result = write_messages => result,
+            result = read_messages => result,
         }
     }
 }
-- 
2.43.0


From 28b0375a861bc17f33fe10ae6b47c2c7b9f9eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:08 +0000
Subject: [PATCH 22/57] fix: Keep receiving from a peer while it is slow to
 receive from us

Two daemons that both had many changes to send could end up with full queues
in both directions. Each then waited for the other one to take a message, and
they stopped synchronizing until one of them was restarted.

A synchronization message is now only generated when there is space for it,
and messages are received in the meantime.
---
 daemon/src/peer.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 15ca0bf..85a59ab 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -369,7 +369,7 @@ impl SyncActor {
             .expect("Couldn't read response from Document channel");
     }
 
-    async fn generate_sync_message(&mut self) -> Result<()> {
+    async fn generate_sync_message(&mut self) -> Result<Option<AutomergeSyncMessage>> {
         let (reponse_tx, response_rx) = oneshot::channel();
         self.document_handle
             .send_message(DocMessage::GenerateSyncMessage {
@@ -381,29 +381,21 @@ impl SyncActor {
             .await
             .context("Could not read response from Document channel")?;
         self.peer_state = ps;
-        if let Some(message) = message {
-            self.syncer_sender
-                .send(message)
-                .await
-                .context("Failed to send on syncer_sender channel")?;
-        }
-        Ok(())
+        Ok(message)
     }
 
     async fn run(mut self) -> Result<()> {
         let mut doc_changed_ping_rx = self.document_handle.subscribe_document_changes();
+        let syncer_sender = self.syncer_sender.clone();
 
         // Kick off initial synchronization with peer.
-        self.generate_sync_message().await?;
+        let mut should_generate = true;
 
         loop {
             tokio::select! {
-                // As doc_changed_ping_rx is a broadcast channel our understanding is,
-                // that this breaks a potential cyclic deadlock between SyncerActor
-                // and TCPActor (e.g. when TCPWriteActor.send blocks).
                 doc_ping = doc_changed_ping_rx.recv() => {
                     match doc_ping {
-                        Ok(()) => { self.generate_sync_message().await?; }
+                        Ok(()) => { should_generate = true; }
                         Err(broadcast::error::RecvError::Closed) => {
                             panic!("Doc changed channel has been closed");
                         }
@@ -414,6 +406,15 @@ impl SyncActor {
                         }
                     }
                 }
+                // Only generate a message when there's space for it. While there isn't, keep
+                // receiving: Otherwise, two peers could wait for each other forever.
+                permit = syncer_sender.reserve(), if should_generate => {
+                    let permit = permit.context("Failed to send on syncer_sender channel")?;
+                    should_generate = false;
+                    if let Some(message) = self.generate_sync_message().await? {
+                        permit.send(message);
+                    }
+                }
                 Some(message) = self.syncer_receiver.recv() => {
                     self.receive_sync_message(message).await;
                 }
-- 
2.43.0


From 6dce2371c77e5c929cf1824ec11ff45e52728cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:50 +0000
Subject: [PATCH 23/57] fix: Let the client accept headers after Content-Length

The base protocol of language servers also has a Content-Type header.
If it came after the Content-Length header, the client stopped.
---
 daemon/src/jsonrpc_forwarder.rs | 44 +++++++++++++++++----------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/daemon/src/jsonrpc_forwarder.rs b/daemon/src/jsonrpc_forwarder.rs
index 01d096e..fe196f2 100644
--- a/daemon/src/jsonrpc_forwarder.rs
+++ b/daemon/src/jsonrpc_forwarder.rs
@@ -74,29 +74,31 @@ impl Decoder for ContentLengthCodec {
             None => return Ok(None),
         };
 
-        // Find the end of the line after that.
-        let (end_of_line, end_of_line_bytes) = match src[start_of_header + c.len()..]
-            .windows(4)
-            .position(|window| window == b"\r\n\r\n")
-        {
-            Some(pos) => (pos, 4),
-            // Even though this is not valid in terms of the spec, also
-            // accept plain newline separators in order to simplify manual testing.
-            None => match src[start_of_header + c.len()..]
-                .windows(2)
-                .position(|window| (window == b"\n\n"))
-            {
-                Some(pos) => (pos, 2),
-                None => return Ok(None),
-            },
+        // Find the end of the headers. Even though this is not valid in terms of the spec, also
+        // accept plain newline separators in order to simplify manual testing.
+        let start_of_length = start_of_header + c.len();
+        let find_separator = |separator: &[u8]| {
+            src[start_of_length..]
+                .windows(separator.len())
+                .position(|window| window == separator)
+                .map(|pos| (start_of_length + pos, separator.len()))
+        };
+        let Some((end_of_headers, separator_bytes)) =
+            [find_separator(b"\r\n\r\n"), find_separator(b"\n\n")]
+                .into_iter()
+                .flatten()
+                .min()
+        else {
+            return Ok(None);
         };
 
-        // Parse the content length.
-        let content_length = std::str::from_utf8(
-            &src[start_of_header + c.len()..start_of_header + c.len() + end_of_line],
-        )?
-        .parse()?;
-        let content_start = start_of_header + c.len() + end_of_line + end_of_line_bytes;
+        // Parse the content length. There might be further headers on the lines after it.
+        let content_length = std::str::from_utf8(&src[start_of_length..end_of_headers])?
+            .lines()
+            .next()
+            .unwrap_or_default()
+            .parse()?;
+        let content_start = end_of_headers + separator_bytes;
 
         // Recommended optimization, in anticipation for future calls to `decode`.
         src.reserve(content_start + content_length);
-- 
2.43.0


From 2a3b7835ada63575f8f3e65522f5d8dc4b3b840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:13 +0000
Subject: [PATCH 24/57] Drop the verification hook of the client

The client is examined as a process, which doesn't need it.
---
 daemon/src/jsonrpc_forwarder.rs | 7 -------
 daemon/src/lib.rs               | 2 --
 2 files changed, 9 deletions(-)

diff --git a/daemon/src/jsonrpc_forwarder.rs b/daemon/src/jsonrpc_forwarder.rs
index fe196f2..62e7fc1 100644
--- a/daemon/src/jsonrpc_forwarder.rs
+++ b/daemon/src/jsonrpc_forwarder.rs
@@ -114,10 +114,3 @@ impl Decoder for ContentLengthCodec {
         Ok(Some(std::str::from_utf8(&content)?.to_string()))
     }
 }
-
-/// Access to the codec for external verification tools.
-#[cfg(ethersync_verif)]
-pub fn verif_codec(
-) -> impl Decoder<Item = String, Error = anyhow::Error> + Encoder<String, Error = std::io::Error> {
-    ContentLengthCodec
-}
diff --git a/daemon/src/lib.rs b/daemon/src/lib.rs
index 1b2328c..7d84ef1 100644
--- a/daemon/src/lib.rs
+++ b/daemon/src/lib.rs
@@ -7,8 +7,6 @@ pub mod daemon;
 pub mod document;
 pub mod editor;
 pub mod editor_connection;
-#[cfg(ethersync_verif)]
-pub mod jsonrpc_forwarder;
 pub mod logging;
 pub mod ot;
 pub mod path;
-- 
2.43.0


From 6339d3396eb669f6d32e1b98146d7144db91abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:52 +0000
Subject: [PATCH 25/57] fix: Only write and remove files that can be shared

Peers choose the names of files in the document. Absolute paths, names
with '..' and names that can't be created stopped the daemon, names like
'./f' overwrote another file, and .git and .ethersync could be changed.
---
 daemon/src/daemon.rs  | 90 ++++++++++++++++++++++++++++---------------
 daemon/src/sandbox.rs | 11 ++++++
 2 files changed, 71 insertions(+), 30 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 93016d4..23b8b46 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -16,7 +16,7 @@ use crate::types::{
 };
 use crate::watcher::Watcher;
 use crate::watcher::WatcherEvent;
-use anyhow::Result;
+use anyhow::{bail, Result};
 use automerge::{
     sync::{Message as AutomergeSyncMessage, State as SyncState},
     Patch,
@@ -26,7 +26,7 @@ use ignore::{Walk, WalkBuilder};
 use rand::Rng;
 use std::collections::{HashMap, HashSet};
 use std::fmt;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::sync::{
     atomic::{AtomicUsize, Ordering},
     Arc,
@@ -229,13 +229,13 @@ impl DocumentActor {
                                 editor_connection.forget(&file_path);
                             }
 
-                            sandbox::remove_file(
-                                &self.base_dir,
-                                &self.absolute_path_for_file_path(&file_path),
-                            )
-                            .unwrap_or_else(|err| {
-                                warn!("Failed to remove file {file_path}: {err}");
-                            });
+                            self.shareable_path_for_file_path(&file_path)
+                                .and_then(|abs_path| {
+                                    sandbox::remove_file(&self.base_dir, &abs_path)
+                                })
+                                .unwrap_or_else(|err| {
+                                    warn!("Failed to remove file {file_path}: {err}");
+                                });
                         }
                         PatchEffect::NoEffect => {}
                     }
@@ -314,6 +314,26 @@ impl DocumentActor {
         AbsolutePath::from_parts(&self.base_dir, file_path).expect("base_dir should be absolute")
     }
 
+    /// Peers choose the names in the document. This is an error for names that don't stand for a
+    /// file we could share ourselves.
+    fn shareable_path_for_file_path(&self, file_path: &RelativePath) -> Result<AbsolutePath> {
+        let mut components = file_path.components();
+        let is_plain = components.all(|component| matches!(component, Component::Normal(_)));
+        let normalized: PathBuf = file_path.components().collect();
+        if !is_plain || normalized.as_os_str().is_empty() {
+            bail!("Path is not inside the base directory");
+        }
+        if normalized.as_os_str() != file_path.as_os_str() {
+            bail!("Path is not normalized");
+        }
+
+        let abs_path = self.absolute_path_for_file_path(file_path);
+        if sandbox::is_private(&self.base_dir, &abs_path)? {
+            bail!("Path is private");
+        }
+        Ok(abs_path)
+    }
+
     async fn react_to_message_from_editor(
         &mut self,
         editor_id: EditorId,
@@ -608,30 +628,32 @@ impl DocumentActor {
         // Only write to the file if editor *doesn't* have the file open.
         if self.owns(file_path) {
             if let Ok(text) = self.current_file_content(file_path) {
-                let abs_path = self.absolute_path_for_file_path(file_path);
-                debug!("Writing to {abs_path}.");
-
-                // Create the parent directorie(s), if neccessary.
-                let parent_dir = abs_path.parent().unwrap();
-                sandbox::create_dir_all(&self.base_dir, parent_dir).unwrap_or_else(|_| {
-                    panic!("Could not create parent directory {}", parent_dir.display())
-                });
-
-                // If the file didn't exist before, log it.
-                if !sandbox::exists(&self.base_dir, &abs_path)
-                    .expect("Failed to check for file existence before writing to it")
-                {
-                    info!("Creating {file_path}.");
+                if let Err(err) = self.write_file(file_path, &text) {
+                    error!("Could not write to file {file_path}: {err}");
                 }
-
-                sandbox::write_file(&self.base_dir, &abs_path, &text.into_bytes())
-                    .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));
             } else {
                 warn!("Failed to get content of file '{file_path}' when writing to disk. Key should have existed?");
             }
         }
     }
 
+    fn write_file(&self, file_path: &RelativePath, text: &str) -> Result<()> {
+        let abs_path = self.shareable_path_for_file_path(file_path)?;
+        debug!("Writing to {abs_path}.");
+
+        // Create the parent directorie(s), if neccessary.
+        if let Some(parent_dir) = abs_path.parent() {
+            sandbox::create_dir_all(&self.base_dir, parent_dir)?;
+        }
+
+        // If the file didn't exist before, log it.
+        if !sandbox::exists(&self.base_dir, &abs_path)? {
+            info!("Creating {file_path}.");
+        }
+
+        sandbox::write_file(&self.base_dir, &abs_path, text.as_bytes())
+    }
+
     // TODO: Should this also go to the sandbox module?
     fn build_walk(&mut self) -> Walk {
         let ignored_things = [".git", ".ethersync"];
@@ -687,10 +709,18 @@ impl DocumentActor {
                 }
             });
         for file_path in self.crdt_doc.files() {
-            let absolute_file_path = self.absolute_path_for_file_path(&file_path);
-            if !sandbox::exists(&self.base_dir, &absolute_file_path).expect("") {
-                warn!("File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT.");
-                self.crdt_doc.remove_text(&file_path);
+            let exists = self
+                .shareable_path_for_file_path(&file_path)
+                .and_then(|abs_path| sandbox::exists(&self.base_dir, &abs_path));
+            match exists {
+                Ok(true) => {}
+                Ok(false) => {
+                    warn!("File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT.");
+                    self.crdt_doc.remove_text(&file_path);
+                }
+                Err(err) => {
+                    warn!("Leaving {file_path} in the CRDT, even though it can't be on disk: {err}");
+                }
             }
         }
         let _ = self.doc_changed_ping_tx.send(());
diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index fe6e736..8a64c1e 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -84,6 +84,17 @@ pub fn exists(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<boo
     Ok(canonical_file_path.exists())
 }
 
+/// Our own data and the Git repository don't belong to the shared project.
+pub fn is_private(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bool> {
+    let canonical_base_dir = absolute_and_canonicalized(absolute_base_dir)?;
+    let canonical_file_path =
+        check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
+    Ok(canonical_file_path
+        .strip_prefix(canonical_base_dir)?
+        .iter()
+        .any(|name| name == ".git" || name == ".ethersync"))
+}
+
 // TODO: Don't build the list of ignored files on every call.
 // TODO: Allow calling this for non-existing files.
 pub fn ignored(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bool> {
-- 
2.43.0


From 6758dc107fee7e8f9fd99346dfaed639ac830478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:13 +0000
Subject: [PATCH 26/57] fix: Ignore unexpected structure in the documents of
 peers

Anything else than texts in the maps 'files' and 'states' stopped the
daemon while it was synchronizing.
---
 daemon/src/types.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 1c1a5b9..62b91b4 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -119,7 +119,8 @@ impl PatchEffect {
                     file_deltas.push(result);
                 }
                 Err(e) => {
-                    panic!("Failed to convert patch to delta: {e:#?}");
+                    // Peers can put anything into the document, we don't want to crash then.
+                    warn!("Ignoring patch that can't be converted: {e:#?}");
                 }
             }
         }
@@ -529,10 +530,14 @@ impl TryFrom<Patch> for PatchEffect {
                                 delta,
                             )))
                         }
-                        other_action => Err(anyhow::anyhow!(
-                            "Unsupported patch action for path 'files/*': {}",
-                            other_action
-                        )),
+                        other_action => {
+                            // We return an empty delta, so that the new content is looked up.
+                            warn!("Unsupported patch action for path 'files/*': {other_action}");
+                            Ok(PatchEffect::FileChange(FileTextDelta::new(
+                                file_path_from_path_default(&patch.path)?,
+                                delta,
+                            )))
+                        }
                     }
                 } else {
                     Err(anyhow::anyhow!(
@@ -543,8 +548,7 @@ impl TryFrom<Patch> for PatchEffect {
             (_, automerge::Prop::Map(key)) if key == "states" => {
                 if patch.path.len() == 2 {
                     match patch.action {
-                        PatchAction::SpliceText { index, value, .. } => {
-                            assert_eq!(index, 0);
+                        PatchAction::SpliceText { value, .. } => {
                             if let Ok(cursor_state) = serde_json::from_str(&value.make_string()) {
                                 Ok(PatchEffect::CursorChange(cursor_state))
                             } else {
-- 
2.43.0


From 53dab9826799d9a70441d9388b6ba9c8168b0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:00 +0000
Subject: [PATCH 27/57] fix: Cope with peers replacing files and maps in the
 document

Editing a file that a peer had replaced with something else than a text
stopped the daemon. So did creating files or moving the cursor after a
peer had replaced the map for them.
---
 daemon/src/daemon.rs   | 12 ++++++++++++
 daemon/src/document.rs | 18 +++++++++++-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 23b8b46..eed1ba4 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -241,6 +241,18 @@ impl DocumentActor {
                     }
                 }
 
+                // A peer might have replaced files with something else without removing them first.
+                for (editor_connection, _) in self.editor_connections.values_mut() {
+                    let missing_files: Vec<RelativePath> = editor_connection
+                        .open_files()
+                        .filter(|file_path| !self.crdt_doc.file_exists(file_path))
+                        .cloned()
+                        .collect();
+                    for file_path in missing_files {
+                        editor_connection.forget(&file_path);
+                    }
+                }
+
                 self.maybe_write_files_changed_in_file_deltas(&file_deltas);
                 // A file with an empty delta was created anew. In case an editor had opened a previous
                 // version of the file, the other deltas don't apply to its content.
diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 8c8e959..455b6f1 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -129,10 +129,7 @@ impl Document {
     pub fn initialize_text(&mut self, text: &str, file_path: &RelativePath) {
         info!("Initializing {file_path} in CRDT.");
 
-        // Now it should definitely work?
-        let file_map = self
-            .top_level_map_obj("files")
-            .expect("Failed to get files Map object");
+        let file_map = self.get_or_create_top_level_map_obj("files");
 
         let text_obj = self
             .doc
@@ -193,6 +190,15 @@ impl Document {
         }
     }
 
+    /// The map always exists, unless a peer replaced it with something else.
+    fn get_or_create_top_level_map_obj(&mut self, name: &str) -> automerge::ObjId {
+        self.top_level_map_obj(name).unwrap_or_else(|_| {
+            self.doc
+                .put_object(automerge::ROOT, name, ObjType::Map)
+                .expect("Failed to create top level Map object in Automerge document")
+        })
+    }
+
     fn text_obj(&self, file_path: &RelativePath) -> Result<automerge::ObjId> {
         let file_map = self.top_level_map_obj("files")?;
         let text_obj = self
@@ -230,9 +236,7 @@ impl Document {
         file_path: &RelativePath,
         ranges: Vec<Range>,
     ) {
-        let state_map = self
-            .top_level_map_obj("states")
-            .expect("Failed to get states Map object");
+        let state_map = self.get_or_create_top_level_map_obj("states");
         let user_obj = self
             .doc
             .put_object(state_map, cursor_id, ObjType::Text)
-- 
2.43.0


From b83e712d60a334a47561d227c8a37dd985779980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:11 +0000
Subject: [PATCH 28/57] fix: Don't stop when a peer sends contradicting changes

A change that claims to be from the same author with the same number as
another one stopped the daemon.
---
 daemon/src/daemon.rs   |  8 ++++++--
 daemon/src/document.rs | 14 +++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index eed1ba4..b344725 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -727,11 +727,15 @@ impl DocumentActor {
             match exists {
                 Ok(true) => {}
                 Ok(false) => {
-                    warn!("File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT.");
+                    warn!(
+                        "File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT."
+                    );
                     self.crdt_doc.remove_text(&file_path);
                 }
                 Err(err) => {
-                    warn!("Leaving {file_path} in the CRDT, even though it can't be on disk: {err}");
+                    warn!(
+                        "Leaving {file_path} in the CRDT, even though it can't be on disk: {err}"
+                    );
                 }
             }
         }
diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 455b6f1..90ddeaa 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -15,7 +15,7 @@ use automerge::{
     AutoCommit, LoadOptions, ObjType, OnPartialLoad, Patch, PatchLog, ReadDoc,
 };
 use dissimilar::Chunk;
-use tracing::{debug, info};
+use tracing::{debug, error, info};
 
 /// Encapsulates the Automerge `AutoCommit` and provides a generic interface,
 /// s.t. we don't need to worry about automerge internals elsewhere.
@@ -79,10 +79,14 @@ impl Document {
         peer_state: &mut SyncState,
     ) -> Vec<Patch> {
         let mut patch_log = PatchLog::active(TextRepresentation::String);
-        self.doc
-            .sync()
-            .receive_sync_message_log_patches(peer_state, message, &mut patch_log)
-            .expect("Failed to apply sync message to Automerge document");
+        if let Err(err) =
+            self.doc
+                .sync()
+                .receive_sync_message_log_patches(peer_state, message, &mut patch_log)
+        {
+            // Peers might send changes that contradict the ones we have already.
+            error!("Failed to apply sync message to Automerge document: {err}");
+        }
         self.doc.make_patches(&mut patch_log)
     }
 
-- 
2.43.0


From 3af5117205f3a809189dd8c79b9c1e6dd409d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:27 +0000
Subject: [PATCH 29/57] Drop verification hooks for keys and secrets

These are examined with whole processes, which don't need them.
---
 daemon/src/peer.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 85a59ab..70b11ba 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -445,12 +445,4 @@ pub mod verif {
             .run()
             .await
     }
-
-    pub fn keypair(actor: &P2PActor) -> Keypair {
-        actor.get_keypair()
-    }
-
-    pub fn passphrase_to_bytes(passphrase: &str) -> [u8; 32] {
-        P2PActor::passphrase_to_bytes(passphrase)
-    }
 }
-- 
2.43.0


From e4d3f195f29284cd66d929582de4d50d239afef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:05 +0000
Subject: [PATCH 30/57] fix: Report all changes when Neovim changes several
 lines one by one

When a command like a visual replace changes several lines, Neovim notifies us
line by line, but the buffer already has all of the changes. Comparing with the
whole buffer made us miss some of them. Only look at the lines a notification is
about.
---
 vim-plugin/lua/changetracker.lua | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vim-plugin/lua/changetracker.lua b/vim-plugin/lua/changetracker.lua
index 07f81e3..c0bbd21 100644
--- a/vim-plugin/lua/changetracker.lua
+++ b/vim-plugin/lua/changetracker.lua
@@ -33,8 +33,15 @@ function M.track_changes(buffer, callback)
             -- last_line and new_last_line are exclusive
 
             debug({ first_line = first_line, last_line = last_line, new_last_line = new_last_line })
-            -- TODO: optimize with a cache
-            local curr_lines = vim.api.nvim_buf_get_lines(buffer, 0, -1, true)
+            -- Only take over the lines that this notification is about. Others might have changed already,
+            -- but we'll be notified about them separately.
+            local curr_lines = vim.list_slice(prev_lines, 1, first_line)
+            vim.list_extend(curr_lines, vim.api.nvim_buf_get_lines(buffer, first_line, new_last_line, true))
+            vim.list_extend(curr_lines, prev_lines, last_line + 1)
+            if #curr_lines == 0 then
+                -- Vim buffers always have at least one line.
+                curr_lines = { "" }
+            end
 
             -- Are we currently ignoring edits?
             if ignore_edits then
-- 
2.43.0


From 8c7f1c7201278bc9e55206a0af80f89fa3bf29ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:05 +0000
Subject: [PATCH 31/57] fix: Report lines added after an empty last line in the
 right place

The range was shifted back by one line even if the replacement ends with a line
break, so the daemon inserted the new lines before the empty one.
---
 vim-plugin/lua/changetracker.lua | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vim-plugin/lua/changetracker.lua b/vim-plugin/lua/changetracker.lua
index c0bbd21..9988b07 100644
--- a/vim-plugin/lua/changetracker.lua
+++ b/vim-plugin/lua/changetracker.lua
@@ -78,19 +78,19 @@ function M.track_changes(buffer, callback)
                     -- The range doesn't start on the first line.
                     if diff.range["end"].character == 0 then
                         -- The range ends at the beginning of the line after the visible lines.
-                        if diff.range["start"].character == 0 then
+                        if string.sub(diff.text, -1) == "\n" then
+                            -- The replacement ends with a newline.
+                            -- Drop it, and shorten the range by one character.
+                            diff.text = string.sub(diff.text, 1, -2)
+                            diff.range["end"].line = diff.range["end"].line - 1
+                            diff.range["end"].character = vim.fn.strchars(prev_lines[diff.range["end"].line + 1])
+                        elseif diff.range["start"].character == 0 then
                             -- Operation applies to beginning of lines, that means it's possible to shift it back.
                             -- Modify edit, s.t. not the last \n, but the one before is replaced.
                             diff.range["start"].line = diff.range["start"].line - 1
                             diff.range["end"].line = diff.range["end"].line - 1
                             diff.range["start"].character = vim.fn.strchars(prev_lines[diff.range["start"].line + 1])
                             diff.range["end"].character = vim.fn.strchars(prev_lines[diff.range["end"].line + 1])
-                        elseif string.sub(diff.text, -1) == "\n" then
-                            -- The replacement ends with a newline.
-                            -- Drop it, and shorten the range by one character.
-                            diff.text = string.sub(diff.text, 1, -2)
-                            diff.range["end"].line = diff.range["end"].line - 1
-                            diff.range["end"].character = vim.fn.strchars(prev_lines[diff.range["end"].line + 1])
                         else
                             vim.api.nvim_err_writeln(
                                 "[ethersync] We don't know how to handle this case for a deletion after the last visible line. Please file a bug."
-- 
2.43.0


From 6b4995093e64261b0c425ebdb09f982e73898aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:05 +0000
Subject: [PATCH 32/57] fix: Keep missing line breaks when text is added after
 the last line

If the daemon adds text after the last line break, and it doesn't end with one,
the file doesn't either. Adding nothing there doesn't change anything.
---
 vim-plugin/lua/utils.lua | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vim-plugin/lua/utils.lua b/vim-plugin/lua/utils.lua
index bbc60f0..e9f2ff3 100644
--- a/vim-plugin/lua/utils.lua
+++ b/vim-plugin/lua/utils.lua
@@ -111,9 +111,11 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
             -- If the replacement text ends with a newline, drop it - we're happy with keeping the implicit
             -- newline at the end of the buffer (which we're assuming to be there, because we're getting
             -- an insert *after* the visible lines.
-            -- TODO: Is this always correct?
-            if #e.text > 1 and e.text[#e.text] == "" then
+            -- Otherwise, the text now ends without a newline.
+            if e.text[#e.text] == "" then
                 table.remove(e.text)
+            else
+                disable_eol = true
             end
             vim.api.nvim_buf_set_lines(bufnr, max, max, false, e.text)
         else
-- 
2.43.0


From b42e40b0219bc514c97db1c01177dca5b631564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:05 +0000
Subject: [PATCH 33/57] fix: Set 'noeol' in the buffer that was edited

The edit might be about a buffer other than the current one.
---
 vim-plugin/lua/utils.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vim-plugin/lua/utils.lua b/vim-plugin/lua/utils.lua
index e9f2ff3..26a6b48 100644
--- a/vim-plugin/lua/utils.lua
+++ b/vim-plugin/lua/utils.lua
@@ -167,7 +167,7 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
     end
 
     if disable_eol then
-        vim.bo.eol = false
+        vim.bo[bufnr].eol = false
     end
 end
 
-- 
2.43.0


From b99de09741ae897c80e8e7aba6df8deccb5f6174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:05 +0000
Subject: [PATCH 34/57] fix: Keep carriage returns that the daemon sends

In buffers with Unix line endings, they are part of the text. Dropping them made
the buffer differ from the document.
---
 vim-plugin/lua/utils.lua | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vim-plugin/lua/utils.lua b/vim-plugin/lua/utils.lua
index 26a6b48..a57ee79 100644
--- a/vim-plugin/lua/utils.lua
+++ b/vim-plugin/lua/utils.lua
@@ -92,8 +92,10 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
     -- Apply text edits.
     local disable_eol = false
     for _, text_edit in ipairs(text_edits) do
-        -- Normalize line ending
-        text_edit.newText, _ = string.gsub(text_edit.newText, "\r\n?", "\n")
+        -- Normalize line ending, if it's implied by the buffer's file format.
+        if vim.bo[bufnr].fileformat ~= "unix" then
+            text_edit.newText, _ = string.gsub(text_edit.newText, "\r\n?", "\n")
+        end
 
         -- Convert from LSP style ranges to Neovim style ranges.
         local e = {
-- 
2.43.0


From c045ca5d498ac18417645dcb53774a925a8f4be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:05 +0000
Subject: [PATCH 35/57] fix: Track Neovim buffers before the daemon has
 answered

Edits made before the answer arrived were lost. If the user switched to another
buffer in the meantime, that one was tracked instead. If they closed it, the
daemon did not learn about it.
---
 vim-plugin/plugin/ethersync.lua | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/vim-plugin/plugin/ethersync.lua b/vim-plugin/plugin/ethersync.lua
index d4ba110..b7a156c 100644
--- a/vim-plugin/plugin/ethersync.lua
+++ b/vim-plugin/plugin/ethersync.lua
@@ -123,7 +123,7 @@ local function is_ethersync_enabled(filename)
     end
 end
 
-local function track_edits(filename, uri)
+local function track_edits(bufnr, filename, uri)
     files[filename] = {
         -- Number of operations the daemon has made.
         daemon_revision = 0,
@@ -131,14 +131,22 @@ local function track_edits(filename, uri)
         editor_revision = 0,
     }
 
-    changetracker.track_changes(0, function(delta)
+    changetracker.track_changes(bufnr, function(delta)
+        if not files[filename] then
+            return
+        end
+
         files[filename].editor_revision = files[filename].editor_revision + 1
 
         local params = { uri = uri, delta = delta, revision = files[filename].daemon_revision }
 
         send_request("edit", params)
     end)
-    cursor.track_cursor(0, function(ranges)
+    cursor.track_cursor(bufnr, function(ranges)
+        if not files[filename] then
+            return
+        end
+
         local params = { uri = uri, ranges = ranges }
         -- Even though it's not "needed" we're sending requests in this case
         -- to ensure we're processing/seeing potential errors.
@@ -149,13 +157,13 @@ end
 -- Disabling 'autoread' prevents Neovim from reloading the file when it changes externally,
 -- but only in the case where the buffer hasn't been modified in Neovim already.
 -- For the conflicting case, we prevent a popup dialog by setting the FileChangedShell autocommand below.
-local function ensure_autoread_is_off()
-    if vim.o.autoread then
+local function ensure_autoread_is_off(bufnr)
+    if vim.o.autoread and vim.api.nvim_buf_is_valid(bufnr) then
         if not did_print_autoread_info then
             print("Ethersync works better when autoread is off, so we're disabling it for you (in Ethersync buffers).")
             did_print_autoread_info = true
         end
-        vim.bo.autoread = false
+        vim.bo[bufnr].autoread = false
     end
 end
 
@@ -180,10 +188,15 @@ local function on_buffer_open()
         vim.bo.eol = false
     end
 
+    -- The user might edit or leave the buffer before the daemon answers, so track it right away.
+    local bufnr = vim.api.nvim_get_current_buf()
+    debug("Tracking Edits")
+    track_edits(bufnr, filename, uri)
+
     send_request("open", { uri = uri }, function()
-        debug("Tracking Edits")
-        ensure_autoread_is_off()
-        track_edits(filename, uri)
+        ensure_autoread_is_off(bufnr)
+    end, function()
+        files[filename] = nil
     end)
 end
 
-- 
2.43.0


From f1f224b8bca984feddf140a557b6d33c46dc7ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:06 +0000
Subject: [PATCH 36/57] fix: Find out reliably which Neovim buffer was closed

File names like "~" got expanded.
---
 vim-plugin/plugin/ethersync.lua | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vim-plugin/plugin/ethersync.lua b/vim-plugin/plugin/ethersync.lua
index b7a156c..d9788d7 100644
--- a/vim-plugin/plugin/ethersync.lua
+++ b/vim-plugin/plugin/ethersync.lua
@@ -208,8 +208,8 @@ local function on_buffer_new_file()
     on_buffer_open()
 end
 
-local function on_buffer_close()
-    local closed_file = vim.fn.expand("<afile>:p")
+local function on_buffer_close(event)
+    local closed_file = vim.api.nvim_buf_get_name(event.buf)
     debug("on_buffer_close: " .. closed_file)
 
     if not is_ethersync_enabled(closed_file) then
-- 
2.43.0


From a79189c0ad0e29f6ff4b571971d203898e63e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:06 +0000
Subject: [PATCH 37/57] fix: Support percent signs in file names in Neovim

The protocol does not escape characters in URIs, so don't unescape them.
---
 vim-plugin/lua/cursor.lua       | 8 +++++---
 vim-plugin/lua/utils.lua        | 5 +++++
 vim-plugin/plugin/ethersync.lua | 5 +++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index 309d462..4a99267 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -3,6 +3,8 @@
 --
 -- SPDX-License-Identifier: AGPL-3.0-or-later
 
+local utils = require("utils")
+
 local M = {}
 
 -- This variable is a table that maps user IDs to a list of cursors.
@@ -20,7 +22,7 @@ local offset_encoding = "utf-32"
 local cursor_timeout_ms = 300 * 1000
 
 local function show_cursor_information(name, cursor)
-    return name .. " @ " .. vim.uri_to_fname(cursor.uri) .. ":" .. cursor.range.start.line + 1
+    return name .. " @ " .. utils.uri_to_path(cursor.uri) .. ":" .. cursor.range.start.line + 1
 end
 
 -- https://www.reddit.com/r/neovim/comments/152bs5t/unable_to_render_comments_in_the_color_id_like/
@@ -39,7 +41,7 @@ end
 -- A new set of ranges means, we delete all existing ones for that user.
 function M.set_cursor(uri, user_id, name, ranges)
     -- Find correct buffer to apply edits to.
-    local bufnr = vim.uri_to_bufnr(uri)
+    local bufnr = vim.fn.bufadd(utils.uri_to_path(uri))
 
     if user_cursors[user_id] then
         for _, user_cursor in ipairs(user_cursors[user_id].cursors) do
@@ -306,7 +308,7 @@ function M.list_cursors()
             elseif #cursors == 1 then
                 message = show_cursor_information(name, cursors[1])
             else
-                message = message .. " Multiple cursors in " .. vim.uri_to_fname(cursors[1].uri)
+                message = message .. " Multiple cursors in " .. utils.uri_to_path(cursors[1].uri)
             end
         end
     end
diff --git a/vim-plugin/lua/utils.lua b/vim-plugin/lua/utils.lua
index a57ee79..842290c 100644
--- a/vim-plugin/lua/utils.lua
+++ b/vim-plugin/lua/utils.lua
@@ -4,6 +4,11 @@
 
 local M = {}
 
+--- Gets the path from a URI of the editor protocol, in which no characters are escaped.
+function M.uri_to_path(uri)
+    return (string.gsub(uri, "^file://", ""))
+end
+
 -- The following functions are taken from the Neovim source code:
 -- https://github.com/neovim/neovim/blob/master/runtime/lua/vim/lsp/util.lua
 
diff --git a/vim-plugin/plugin/ethersync.lua b/vim-plugin/plugin/ethersync.lua
index d9788d7..63e2be5 100644
--- a/vim-plugin/plugin/ethersync.lua
+++ b/vim-plugin/plugin/ethersync.lua
@@ -5,6 +5,7 @@
 
 local changetracker = require("changetracker")
 local cursor = require("cursor")
+local utils = require("utils")
 local debug = require("logging").debug
 
 -- We only want to communicate a possibly annoying info once.
@@ -45,7 +46,7 @@ local function process_operation_for_editor(method, parameters)
     if method == "edit" then
         local uri = parameters.uri
         -- TODO: Determine the proper filepath (relative to project dir).
-        local filepath = vim.uri_to_fname(uri)
+        local filepath = utils.uri_to_path(uri)
         local delta = parameters.delta
         local the_editor_revision = parameters.revision
 
@@ -53,7 +54,7 @@ local function process_operation_for_editor(method, parameters)
         -- If it's not, ignore it! The daemon will send a transformed one later.
         if the_editor_revision == files[filepath].editor_revision then
             -- Find correct buffer to apply edits to.
-            local bufnr = vim.uri_to_bufnr(uri)
+            local bufnr = vim.fn.bufadd(filepath)
 
             changetracker.apply_delta(bufnr, delta)
 
-- 
2.43.0


From 584d6543ec540834b43de60b9c83baf0d63f8aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:24 +0000
Subject: [PATCH 38/57] fix: Support special characters in file names in VS
 Code

URIs were unescaped with decodeURI, which keeps the escape sequences of
characters like # and +, so the daemon did not know which file was meant.
---
 vscode-plugin/src/extension.ts | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 345e271..f508063 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -88,6 +88,12 @@ function uriToFname(uri: string): string {
     return uri.slice(prefix.length)
 }
 
+// In the editor protocol, no characters are escaped in URIs.
+function uriForDocument(document: vscode.TextDocument): string {
+    const uri = document.uri
+    return uri.scheme === "file" ? `file://${uri.path}` : uri.toString()
+}
+
 // helpful: https://stackoverflow.com/a/54369605
 function UTF16CodeUnitOffsetToCharOffset(utf16CodeUnitOffset: number, content: string): number {
     if (utf16CodeUnitOffset > content.length) {
@@ -178,7 +184,7 @@ function openCurrentTextDocuments() {
 }
 
 function documentForUri(uri: string): vscode.TextDocument | undefined {
-    return vscode.workspace.textDocuments.find((doc) => decodeURI(doc.uri.toString()) === uri)
+    return vscode.workspace.textDocuments.find((doc) => uriForDocument(doc) === uri)
 }
 
 async function processEditFromDaemon(edit: Edit) {
@@ -230,7 +236,7 @@ async function processCursorFromDaemon(cursor: CursorFromDaemon) {
         if (document) {
             selections = cursor.ranges.map((r) => ethersyncRangeToVSCodeRange(document, r)).map(vsCodeRangeToSelection)
         }
-        setCursor(cursor.userid, cursor.name || "anonymous", vscode.Uri.parse(uri), selections)
+        setCursor(cursor.userid, cursor.name || "anonymous", vscode.Uri.file(uriToFname(uri)), selections)
     } catch {
         // If we couldn't convert ethersyncRangeToVSCodeRange, it's probably because
         // we received the cursor message before integrating the edits, typing at the end of a line.
@@ -244,7 +250,7 @@ async function applyEdit(document: vscode.TextDocument, edit: Edit): Promise<boo
     for (const delta of edit.delta) {
         const range = ethersyncRangeToVSCodeRange(document, delta.range)
         let edit = new vscode.TextEdit(range, delta.replacement)
-        debug(`Edit applied to document ${decodeURI(document.uri.toString())}`)
+        debug(`Edit applied to document ${uriForDocument(document)}`)
         edits.push(edit)
     }
     let workspaceEdit = new vscode.WorkspaceEdit()
@@ -262,7 +268,7 @@ async function applyEdit(document: vscode.TextDocument, edit: Edit): Promise<boo
 
 // TODO: check if belongs to project.
 async function processUserOpen(document: vscode.TextDocument) {
-    const fileUri = decodeURI(document.uri.toString())
+    const fileUri = uriForDocument(document)
     debug("OPEN " + fileUri)
     connection
         .sendRequest(openType, {uri: fileUri})
@@ -281,7 +287,7 @@ function processUserClose(document: vscode.TextDocument) {
         // File is not currently tracked in ethersync.
         return
     }
-    const fileUri = decodeURI(document.uri.toString())
+    const fileUri = uriForDocument(document)
     connection.sendRequest(closeType, {uri: fileUri})
 
     delete revisions[document.fileName]
@@ -380,7 +386,7 @@ function processSelection(event: vscode.TextEditorSelectionChangeEvent) {
         // File is not currently tracked in ethersync.
         return
     }
-    let uri = decodeURI(event.textEditor.document.uri.toString())
+    let uri = uriForDocument(event.textEditor.document)
     let content = contents[event.textEditor.document.fileName]
     let ranges = event.selections.map((s) => {
         return vsCodeRangeToEthersyncRange(content, s)
@@ -399,7 +405,7 @@ function vsCodeChangeEventToEthersyncEdits(event: vscode.TextDocumentChangeEvent
 
     for (const change of event.contentChanges) {
         let delta = vsCodeChangeToEthersyncDelta(content, change)
-        let uri = decodeURI(document.uri.toString())
+        let uri = uriForDocument(document)
         let theEdit: Edit = {uri, revision: revision.daemon, delta: [delta]}
         edits.push(theEdit)
     }
-- 
2.43.0


From 4baf2b110c0bb03e35c09553c07a02595e477707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:25 +0000
Subject: [PATCH 39/57] fix: Track VS Code documents before the daemon has
 answered

Edits made before the answer arrived were lost. If the user closed the document
in the meantime, the daemon did not learn about it.
---
 vscode-plugin/src/extension.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index f508063..83f3730 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -270,15 +270,20 @@ async function applyEdit(document: vscode.TextDocument, edit: Edit): Promise<boo
 async function processUserOpen(document: vscode.TextDocument) {
     const fileUri = uriForDocument(document)
     debug("OPEN " + fileUri)
+    // The user might edit or close the document before the daemon answers, so track it right away.
+    const revision = new Revision()
+    revisions[document.fileName] = revision
+    updateContents(document)
     connection
         .sendRequest(openType, {uri: fileUri})
         .then(() => {
-            revisions[document.fileName] = new Revision()
-            updateContents(document)
             debug("Successfully opened. Tracking changes.")
         })
         .catch(() => {
             debug("OPEN rejected by daemon")
+            if (revisions[document.fileName] === revision) {
+                delete revisions[document.fileName]
+            }
         })
 }
 
-- 
2.43.0


From 99913140c7e88a72ca8dd7267607d51a63234e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:25 +0000
Subject: [PATCH 40/57] fix: Accept empty edits from the daemon in VS Code

VS Code reports that it could not apply an edit without changes. So we
contradicted the daemon, which sent the edit again, over and over.
---
 vscode-plugin/src/extension.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 83f3730..708b517 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -253,6 +253,10 @@ async function applyEdit(document: vscode.TextDocument, edit: Edit): Promise<boo
         debug(`Edit applied to document ${uriForDocument(document)}`)
         edits.push(edit)
     }
+    // VS Code doesn't report success for edits that change nothing.
+    if (edits.length === 0) {
+        return true
+    }
     let workspaceEdit = new vscode.WorkspaceEdit()
     workspaceEdit.set(document.uri, edits)
     let worked = await vscode.workspace.applyEdit(workspaceEdit)
-- 
2.43.0


From 70a4bc6da4d05d3e4e5d21fd8172550b2470aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:25 +0000
Subject: [PATCH 41/57] fix: Tell apart edits by the user and the daemon in VS
 Code

We compared the edits from the daemon with the changes VS Code reports. These
look different if there is more than one change, or if VS Code shortens them, so
edits were sent back to the daemon. Edits VS Code refused were remembered
forever. Changes that the user made while an edit of the daemon was applied were
converted using the wrong content.

Convert changes as soon as they are reported. While an edit of the daemon is
being applied, hold them back, and find out afterwards which one we caused.
---
 vscode-plugin/src/extension.ts | 196 +++++++++++++++------------------
 1 file changed, 86 insertions(+), 110 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 708b517..6fc5b28 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -73,7 +73,10 @@ let contents: {[filename: string]: string[]} = {}
 // TODO: if we load from disk, this will also cause edits :-/
 let t0 = Date.now()
 const mutex = new Mutex()
-let attemptedRemoteEdits: Set<vscode.TextEdit[]> = new Set()
+
+// The document that we are changing on behalf of the daemon, and the changes that happened to it
+// since we asked VS Code to do that.
+let remoteEdit: {document: vscode.TextDocument; changes: {deltas: Delta[]; text: string}[]} | null = null
 
 const openType = new rpc.RequestType<{uri: string}, string, void>("open")
 const closeType = new rpc.RequestType<{uri: string}, string, void>("close")
@@ -203,11 +206,23 @@ async function processEditFromDaemon(edit: Edit) {
 
             const document = documentForUri(uri)
             if (document) {
-                let textEdit = ethersyncDeltasToVSCodeTextEdits(document, edit.delta)
-                attemptedRemoteEdits.add(textEdit)
-                let worked = await applyEdit(document, edit)
+                const textEdits = ethersyncDeltasToVSCodeTextEdits(document, edit.delta)
+                const expectedText = textAfterEdits(document, textEdits)
+                const remote: typeof remoteEdit = {document, changes: []}
+                remoteEdit = remote
+                let worked = false
+                try {
+                    worked = await applyEdit(document, textEdits)
+                } finally {
+                    remoteEdit = null
+                }
                 if (worked) {
                     revision.daemon += 1
+                    // VS Code refuses to change any other version than the one we know, so if there
+                    // was a change because of our edit, it was the first one.
+                    if (remote.changes[0]?.text === expectedText) {
+                        remote.changes.shift()
+                    }
                     // Attempt auto-save to avoid the situation where one user closes a modified
                     // document without saving, which will cause VS Code to undo the dirty changes.
                     document.save()
@@ -217,6 +232,10 @@ async function processEditFromDaemon(edit: Edit) {
                     connection.sendRequest(editType, theEdit)
                     revision.editor += 1
                 }
+                // Everything else that happened in the meantime was done by the user.
+                for (const {deltas} of remote.changes) {
+                    sendUserEdits(document, deltas)
+                }
             } else {
                 throw new Error(`No document for URI ${uri}, why is the daemon sending me this?`)
             }
@@ -245,29 +264,27 @@ async function processCursorFromDaemon(cursor: CursorFromDaemon) {
     }
 }
 
-async function applyEdit(document: vscode.TextDocument, edit: Edit): Promise<boolean> {
-    let edits = []
-    for (const delta of edit.delta) {
-        const range = ethersyncRangeToVSCodeRange(document, delta.range)
-        let edit = new vscode.TextEdit(range, delta.replacement)
-        debug(`Edit applied to document ${uriForDocument(document)}`)
-        edits.push(edit)
-    }
+async function applyEdit(document: vscode.TextDocument, textEdits: vscode.TextEdit[]): Promise<boolean> {
     // VS Code doesn't report success for edits that change nothing.
-    if (edits.length === 0) {
+    if (textEdits.length === 0) {
         return true
     }
     let workspaceEdit = new vscode.WorkspaceEdit()
-    workspaceEdit.set(document.uri, edits)
-    let worked = await vscode.workspace.applyEdit(workspaceEdit)
-
-    // TODO: Make this more efficient by replacing only the changed lines.
-    // The challenge with that is that we need to compute how many lines are
-    // left after the edit.
-    if (worked) {
-        updateContents(document)
+    workspaceEdit.set(document.uri, textEdits)
+    debug(`Applying edit to document ${uriForDocument(document)}`)
+    return await vscode.workspace.applyEdit(workspaceEdit)
+}
+
+function textAfterEdits(document: vscode.TextDocument, textEdits: vscode.TextEdit[]): string {
+    const before = document.getText()
+    let text = ""
+    let position = 0
+    for (const {range, newText} of [...textEdits].sort((a, b) => a.range.start.compareTo(b.range.start))) {
+        text += before.slice(position, document.offsetAt(range.start)) + newText
+        position = document.offsetAt(range.end)
     }
-    return worked
+    text += before.slice(position)
+    return text
 }
 
 // TODO: check if belongs to project.
@@ -302,38 +319,6 @@ function processUserClose(document: vscode.TextDocument) {
     delete revisions[document.fileName]
 }
 
-function isTextEditsEqualToVSCodeContentChanges(
-    textEdits: vscode.TextEdit[],
-    changes: readonly vscode.TextDocumentContentChangeEvent[],
-): boolean {
-    if (textEdits.length !== changes.length) {
-        return false
-    }
-    for (let i = 0; i < textEdits.length; i++) {
-        let textEdit = textEdits[i]
-        let change = changes[i]
-        if (textEdit.newText !== change.text || !textEdit.range.isEqual(change.range)) {
-            return false
-        }
-    }
-    return true
-}
-
-function isRemoteEdit(event: vscode.TextDocumentChangeEvent): boolean {
-    let found: vscode.TextEdit[] | null = null
-    for (let attemptedEdit of attemptedRemoteEdits) {
-        if (isTextEditsEqualToVSCodeContentChanges(attemptedEdit, event.contentChanges)) {
-            found = attemptedEdit
-            break
-        }
-    }
-    if (found !== null) {
-        attemptedRemoteEdits.delete(found)
-        return true
-    }
-    return false
-}
-
 // NOTE: We might get multiple events per document.version,
 // as the _state_ of the document might change (like isDirty).
 function processUserEdit(event: vscode.TextDocumentChangeEvent) {
@@ -341,53 +326,62 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
         // File is not currently tracked in Ethersync.
         return
     }
-    if (isRemoteEdit(event)) {
-        debug("Ignoring remote event (we have caused it)")
+    let document = event.document
+
+    // For some reason we get multipe events per edit caused by us.
+    // Let's actively skip the empty ones to make debugging output below less noisy.
+    if (event.contentChanges.length == 0) {
+        if (document.isDirty == false) {
+            debug("Ignoring empty docChange. (probably saving...)")
+        }
         return
     }
-    mutex
-        .runExclusive(() => {
-            let document = event.document
-
-            // For some reason we get multipe events per edit caused by us.
-            // Let's actively skip the empty ones to make debugging output below less noisy.
-            if (event.contentChanges.length == 0) {
-                if (document.isDirty == false) {
-                    debug("Ignoring empty docChange. (probably saving...)")
-                }
-                return
-            }
 
-            const filename = document.fileName
-            if (!isEthersyncEnabled(path.dirname(filename))) {
-                return
-            }
+    const filename = document.fileName
+    if (!isEthersyncEnabled(path.dirname(filename))) {
+        return
+    }
 
-            let revision = revisions[filename]
+    try {
+        // This event is about exactly the content that we know, so convert the positions right away.
+        let deltas = event.contentChanges.map((change) => vsCodeChangeToEthersyncDelta(contents[filename], change))
 
-            let edits = vsCodeChangeEventToEthersyncEdits(event)
+        // TODO: Make this more efficient by replacing only the changed lines.
+        // The challenge with that is that we need to compute how many lines are
+        // left after the edit.
+        updateContents(document)
 
-            for (const theEdit of edits) {
-                // interestingly this seems to block when it can't send
-                // TODO: Catch exceptions, for example when daemon disconnects/crashes.
-                connection.sendRequest(editType, theEdit)
-                revision.editor += 1
+        if (remoteEdit?.document === document) {
+            // We don't know yet whether we have caused this.
+            remoteEdit.changes.push({deltas, text: document.getText()})
+            return
+        }
 
-                debug(`sent edit for dR ${revision.daemon} (having edR ${revision.editor})`)
-            }
+        sendUserEdits(document, deltas)
 
-            // TODO: Make this more efficient by replacing only the changed lines.
-            // The challenge with that is that we need to compute how many lines are
-            // left after the edit.
-            updateContents(document)
+        // Attempt auto-save to avoid the situation where one user closes a modified
+        // document without saving, which will cause VS Code to undo the dirty changes.
+        document.save()
+    } catch (e) {
+        vscode.window.showErrorMessage(`Error while sending edit to Ethersync daemon: ${e}`)
+    }
+}
 
-            // Attempt auto-save to avoid the situation where one user closes a modified
-            // document without saving, which will cause VS Code to undo the dirty changes.
-            document.save()
-        })
-        .catch((e: Error) => {
-            vscode.window.showErrorMessage(`Error while sending edit to Ethersync daemon: ${e}`)
-        })
+function sendUserEdits(document: vscode.TextDocument, deltas: Delta[]) {
+    let revision = revisions[document.fileName]
+    if (!revision) {
+        // The file was closed in the meantime.
+        return
+    }
+
+    for (const delta of deltas) {
+        // interestingly this seems to block when it can't send
+        // TODO: Catch exceptions, for example when daemon disconnects/crashes.
+        connection.sendRequest(editType, {uri: uriForDocument(document), revision: revision.daemon, delta: [delta]})
+        revision.editor += 1
+
+        debug(`sent edit for dR ${revision.daemon} (having edR ${revision.editor})`)
+    }
 }
 
 function processSelection(event: vscode.TextEditorSelectionChangeEvent) {
@@ -403,24 +397,6 @@ function processSelection(event: vscode.TextEditorSelectionChangeEvent) {
     connection.sendNotification(cursorType, {uri, ranges})
 }
 
-function vsCodeChangeEventToEthersyncEdits(event: vscode.TextDocumentChangeEvent): Edit[] {
-    let document = event.document
-    let filename = document.fileName
-
-    let revision = revisions[filename]
-
-    let content = contents[filename]
-    let edits = []
-
-    for (const change of event.contentChanges) {
-        let delta = vsCodeChangeToEthersyncDelta(content, change)
-        let uri = uriForDocument(document)
-        let theEdit: Edit = {uri, revision: revision.daemon, delta: [delta]}
-        edits.push(theEdit)
-    }
-    return edits
-}
-
 function vsCodeChangeToEthersyncDelta(content: string[], change: vscode.TextDocumentContentChangeEvent): Delta {
     return {
         range: vsCodeRangeToEthersyncRange(content, change.range),
-- 
2.43.0


From b2ce900f55dd512475de6aa2c9e382a78112e8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:49 +0000
Subject: [PATCH 42/57] fix: Save the latest changes when the daemon is stopped

The state was saved at most once per second. If the daemon was stopped
shortly after a change, the change was missing from the saved state.
After a restart it counted as made anew, and peers got it twice or lost
other changes to the same file.
---
 daemon/src/daemon.rs |  7 +++++++
 daemon/src/main.rs   | 10 +++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index b344725..4e51d46 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -956,6 +956,13 @@ impl Daemon {
 
         Self { document_handle }
     }
+
+    /// Saves the current state, so that nothing is missing after the next start.
+    pub async fn save(&self) {
+        self.document_handle.send_message(DocMessage::Persist).await;
+        // The messages are handled in order: When this is answered, the state is saved.
+        let _ = self.document_handle.content().await;
+    }
 }
 
 async fn spawn_file_watcher(base_dir: &Path, document_handle: DocumentActorHandle) {
diff --git a/daemon/src/main.rs b/daemon/src/main.rs
index c2c6126..b723409 100644
--- a/daemon/src/main.rs
+++ b/daemon/src/main.rs
@@ -9,6 +9,7 @@ use ethersync::peer::PeerConnectionInfo;
 use ethersync::{daemon::Daemon, editor, logging, sandbox};
 use std::path::{Path, PathBuf};
 use tokio::signal;
+use tokio::time::{timeout, Duration};
 use tracing::{error, info};
 
 mod jsonrpc_forwarder;
@@ -129,7 +130,7 @@ async fn main() -> Result<()> {
             }
 
             info!("Starting Ethersync on {}", directory.display());
-            Daemon::new(peer_connection_info, &socket_path, &directory, init);
+            let daemon = Daemon::new(peer_connection_info, &socket_path, &directory, init);
             match signal::ctrl_c().await {
                 Ok(()) => {}
                 Err(err) => {
@@ -137,6 +138,13 @@ async fn main() -> Result<()> {
                     // still shut down.
                 }
             }
+            // Don't wait forever, in case the daemon hangs.
+            if timeout(Duration::from_secs(5), daemon.save())
+                .await
+                .is_err()
+            {
+                error!("Failed to save the latest changes");
+            }
         }
         Commands::Client => {
             jsonrpc_forwarder::connection(&socket_path)
-- 
2.43.0


From e0d1c39df9f234a51f097ee3062c63c79f15a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:01 +0000
Subject: [PATCH 43/57] fix: don't stop serving everybody when a connecting
 peer opens no stream

The event loop waited for the stream of a peer that had just connected. When
that peer stalled or went away at this moment, the loop waited forever, and no
other peer could connect.
---
 daemon/src/peer.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 70b11ba..3c98af6 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -149,6 +149,18 @@ impl P2PActor {
             .accept(ETHERSYNC_PROTOCOL)
             .unwrap();
 
+        // Don't wait for streams in the loop below: A peer might never open one, and we still need to
+        // poll the swarm for the others.
+        {
+            let p2p_actor = self.clone();
+            tokio::spawn(async move {
+                while let Some((peer, stream)) = incoming_streams.next().await {
+                    info!("Peer connected: {}", peer);
+                    p2p_actor.spawn_peer_sync(stream);
+                }
+            });
+        }
+
         if let Some(ref address) = self.connection_info.peer {
             let multiaddr = address
                 .parse::<Multiaddr>()
@@ -195,15 +207,6 @@ impl P2PActor {
 
                     self.spawn_peer_sync(stream);
                 }
-                libp2p::swarm::SwarmEvent::ConnectionEstablished {
-                    endpoint: ConnectedPoint::Listener { .. },
-                    ..
-                } => {
-                    if let Some((peer, stream)) = incoming_streams.next().await {
-                        info!("Peer connected: {}", peer);
-                        self.spawn_peer_sync(stream);
-                    }
-                }
                 libp2p::swarm::SwarmEvent::OutgoingConnectionError { error, .. } => {
                     error!("Failed to connect, the peer multiaddress or secret you provided might be wrong?");
                     debug!("{:?}", error);
-- 
2.43.0


From 594fc240f72ecff6da114d5cdf551e741f73dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:01 +0000
Subject: [PATCH 44/57] fix: keep running when the host goes away before our
 stream is open

The event loop waited for the stream to be opened. When the host stalled at
this moment, the loop stood still, and when it went away, the loop ended and
never connected again.
---
 daemon/src/peer.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 3c98af6..2457d12 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -198,14 +198,18 @@ impl P2PActor {
                     ..
                 } => {
                     let mut control = swarm.behaviour().new_control();
-                    let stream = control
-                        .open_stream(peer_id, ETHERSYNC_PROTOCOL)
-                        .await
-                        .context("Failed to open stream")?;
-
-                    info!("Connected to peer {}", peer_id);
-
-                    self.spawn_peer_sync(stream);
+                    let p2p_actor = self.clone();
+                    // The peer might be slow to respond, or be gone already. Keep polling the swarm
+                    // for the others.
+                    tokio::spawn(async move {
+                        match control.open_stream(peer_id, ETHERSYNC_PROTOCOL).await {
+                            Ok(stream) => {
+                                info!("Connected to peer {}", peer_id);
+                                p2p_actor.spawn_peer_sync(stream);
+                            }
+                            Err(error) => error!("Failed to open stream: {error}"),
+                        }
+                    });
                 }
                 libp2p::swarm::SwarmEvent::OutgoingConnectionError { error, .. } => {
                     error!("Failed to connect, the peer multiaddress or secret you provided might be wrong?");
-- 
2.43.0


From 923c7ea2eab82899db819a4b1cee128646ec720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:01 +0000
Subject: [PATCH 45/57] fix: report selections that end in a multi-byte
 character correctly

The end of a selection was moved back by one byte, which can be in the middle
of a character.
---
 vim-plugin/lua/cursor.lua | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index 4a99267..48687ea 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -38,6 +38,14 @@ local function is_forward(start_row, end_row, start_col, end_col)
     return (start_row < end_row) or (start_row == end_row and start_col <= end_col)
 end
 
+-- Moves a column (in bytes) that might point into a character to the start of that character.
+local function start_of_character(row, col)
+    if col < 0 then
+        return col
+    end
+    return col + vim.str_utf_start(vim.fn.getline(row), col + 1)
+end
+
 -- A new set of ranges means, we delete all existing ones for that user.
 function M.set_cursor(uri, user_id, name, ranges)
     -- Find correct buffer to apply edits to.
@@ -149,14 +157,14 @@ function M.track_cursor(bufnr, callback)
                     -- TODO: This is not in "screen columns", but in "bytes"!
                     if not is_forward(start_row, end_row, start_col, end_col) then
                         -- If the selection is backwards, we need to extend it on both ends for some reason.
-                        end_col = end_col - 1
+                        end_col = start_of_character(end_row, end_col - 1)
                         start_col = start_col + 1
                     end
                 elseif vim.fn.mode() == "V" then
                     -- If we're in linewise visual mode, expand the range to include the entire line(s).
                     if is_forward(start_row, end_row, start_col, end_col) then
                         start_col = 0
-                        end_col = vim.fn.strlen(vim.fn.getline(end_row)) - 1
+                        end_col = start_of_character(end_row, vim.fn.strlen(vim.fn.getline(end_row)) - 1)
                     else
                         start_col = vim.fn.strlen(vim.fn.getline(start_row))
                         end_col = -1
-- 
2.43.0


From b95282a7706173795c59fa4f154d9a25b2dae26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:01 +0000
Subject: [PATCH 46/57] fix: report blockwise selections in the right lines

virtcol2col() takes a window, but was given the number of the buffer.
---
 vim-plugin/lua/cursor.lua | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index 48687ea..2cdb6b0 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -207,8 +207,8 @@ function M.track_cursor(bufnr, callback)
                     local larger_row = math.max(start_row, end_row)
 
                     for row = smaller_row, larger_row do
-                        local bytes_start = vim.fn.virtcol2col(bufnr, row, smaller_cell + 1) - 1
-                        local bytes_end = vim.fn.virtcol2col(bufnr, row, larger_cell + 1) - 1
+                        local bytes_start = start_of_character(row, vim.fn.virtcol2col(0, row, smaller_cell + 1) - 1)
+                        local bytes_end = start_of_character(row, vim.fn.virtcol2col(0, row, larger_cell + 1) - 1)
 
                         if bytes_start ~= -1 then
                             -- The line is not empty, add a range.
-- 
2.43.0


From 661af6991306e76924303e0b01554e601f5deecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:01 +0000
Subject: [PATCH 47/57] fix: show an empty cursor range in buffers that are not
 displayed

The length of the line was taken from the buffer in the current window.
---
 vim-plugin/lua/cursor.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index 2cdb6b0..71ca2c6 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -85,7 +85,7 @@ function M.set_cursor(uri, user_id, name, ranges)
 
         -- If the range is empty, expand the highlighted range by 1 to make it visible.
         if start_row == end_row and start_col == end_col then
-            local bytes_in_end_row = vim.fn.strlen(vim.fn.getline(end_row + 1))
+            local bytes_in_end_row = #(vim.api.nvim_buf_get_lines(bufnr, end_row, end_row + 1, false)[1] or "")
             if bytes_in_end_row > end_col then
                 -- Note: Instead of 1, we should actually add the byte length of the character at this position.
                 end_col = end_col + 1
-- 
2.43.0


From 7b9b151c3e8f0906ca5ae4e60f585c7be40535c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:02 +0000
Subject: [PATCH 48/57] fix: move cursors away from buffers that were wiped out

Deleting the old extmark raised an error, so the new position was not shown.
---
 vim-plugin/lua/cursor.lua | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index 71ca2c6..ec9d9fa 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -34,6 +34,13 @@ vim.api.nvim_create_autocmd("ColorScheme", {
 })
 vim.api.nvim_exec_autocmds("ColorScheme", {})
 
+-- The buffer might have been wiped out since the extmark was created.
+local function delete_extmark(bufnr, id)
+    if vim.api.nvim_buf_is_valid(bufnr) then
+        vim.api.nvim_buf_del_extmark(bufnr, cursor_namespace, id)
+    end
+end
+
 local function is_forward(start_row, end_row, start_col, end_col)
     return (start_row < end_row) or (start_row == end_row and start_col <= end_col)
 end
@@ -56,7 +63,7 @@ function M.set_cursor(uri, user_id, name, ranges)
             if user_cursor.extmark then
                 local old_id = user_cursor.extmark.id
                 local old_bufnr = user_cursor.extmark.bufnr
-                vim.api.nvim_buf_del_extmark(old_bufnr, cursor_namespace, old_id)
+                delete_extmark(old_bufnr, old_id)
             end
         end
     end
@@ -117,7 +124,7 @@ function M.set_cursor(uri, user_id, name, ranges)
                 virt_text = virt_text,
             })
             vim.defer_fn(function()
-                vim.api.nvim_buf_del_extmark(bufnr, cursor_namespace, extmark_id)
+                delete_extmark(bufnr, extmark_id)
                 for _, user_cursor in ipairs(user_cursors[user_id].cursors) do
                     if user_cursor.extmark ~= nil and user_cursor.extmark.id == extmark_id then
                         -- If we find our own extmark_id, we can remove all ranges,
-- 
2.43.0


From 54815f7627a0f33141469d886f459329babf72f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:02 +0000
Subject: [PATCH 49/57] fix: list all cursors, also of people without a name

Each person replaced those listed before, and a missing name raised an error.
---
 vim-plugin/lua/cursor.lua | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index ec9d9fa..41540dd 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -22,7 +22,7 @@ local offset_encoding = "utf-32"
 local cursor_timeout_ms = 300 * 1000
 
 local function show_cursor_information(name, cursor)
-    return name .. " @ " .. utils.uri_to_path(cursor.uri) .. ":" .. cursor.range.start.line + 1
+    return (name or "anonymous") .. " @ " .. utils.uri_to_path(cursor.uri) .. ":" .. cursor.range.start.line + 1
 end
 
 -- https://www.reddit.com/r/neovim/comments/152bs5t/unable_to_render_comments_in_the_color_id_like/
@@ -309,26 +309,26 @@ function M.jump_to_cursor()
 end
 
 function M.list_cursors()
-    local message = ""
+    local messages = {}
 
     if next(user_cursors) == nil then
-        message = "No cursors."
+        table.insert(messages, "No cursors.")
     else
         for _, data in pairs(user_cursors) do
             local name = data.name
             local cursors = data.cursors
-            message = message .. name .. ":"
             if #cursors == 0 then
-                message = message .. " No cursors"
+                table.insert(messages, (name or "anonymous") .. ": No cursors")
             elseif #cursors == 1 then
-                message = show_cursor_information(name, cursors[1])
+                table.insert(messages, show_cursor_information(name, cursors[1]))
             else
-                message = message .. " Multiple cursors in " .. utils.uri_to_path(cursors[1].uri)
+                local path = utils.uri_to_path(cursors[1].uri)
+                table.insert(messages, (name or "anonymous") .. ": Multiple cursors in " .. path)
             end
         end
     end
 
-    return message
+    return table.concat(messages, "\n")
 end
 
 return M
-- 
2.43.0


From 2402de16bbcc5c37ac4741748f16e398a294d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:02 +0000
Subject: [PATCH 50/57] fix: jump to cursors in files whose names contain a
 percent sign

The URIs we get are not percent-encoded, but jumping decodes them.
---
 vim-plugin/lua/cursor.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index 41540dd..2b90245 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -255,7 +255,7 @@ function M.jump_to_cursor()
             table.insert(descriptions, description)
 
             table.insert(locations, {
-                targetUri = cursor.uri,
+                targetUri = vim.uri_from_fname(utils.uri_to_path(cursor.uri)),
                 targetRange = cursor.range,
                 targetSelectionRange = cursor.range,
             })
-- 
2.43.0


From 9d16cb74b4d8936280e20a66c73bf1b20231055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:18 +0000
Subject: [PATCH 51/57] fix: report it when lines are put in the middle of a
 line

Neovim splits the line, but only notifies us about the lines below it. So its
second half stayed in the line for everyone else.
---
 vim-plugin/lua/changetracker.lua | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vim-plugin/lua/changetracker.lua b/vim-plugin/lua/changetracker.lua
index 9988b07..8936c8a 100644
--- a/vim-plugin/lua/changetracker.lua
+++ b/vim-plugin/lua/changetracker.lua
@@ -33,6 +33,12 @@ function M.track_changes(buffer, callback)
             -- last_line and new_last_line are exclusive
 
             debug({ first_line = first_line, last_line = last_line, new_last_line = new_last_line })
+
+            if first_line == last_line and first_line > 0 then
+                -- Putting lines in the middle of a line splits it, but only notifies us about the lines below.
+                first_line = first_line - 1
+            end
+
             -- Only take over the lines that this notification is about. Others might have changed already,
             -- but we'll be notified about them separately.
             local curr_lines = vim.list_slice(prev_lines, 1, first_line)
-- 
2.43.0


From 5d336752f21d866a3eb422f67235120c603cf257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:18 +0000
Subject: [PATCH 52/57] fix: ignore notifications about a line that doesn't
 exist

Neovim sends one when all lines of a buffer are replaced from an empty register.
We reported it as an edit that does not fit the document.
---
 vim-plugin/lua/changetracker.lua | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vim-plugin/lua/changetracker.lua b/vim-plugin/lua/changetracker.lua
index 8936c8a..3606791 100644
--- a/vim-plugin/lua/changetracker.lua
+++ b/vim-plugin/lua/changetracker.lua
@@ -34,6 +34,11 @@ function M.track_changes(buffer, callback)
 
             debug({ first_line = first_line, last_line = last_line, new_last_line = new_last_line })
 
+            if last_line > #prev_lines then
+                -- Replacing all lines from an empty register notifies us about a line that doesn't exist.
+                return
+            end
+
             if first_line == last_line and first_line > 0 then
                 -- Putting lines in the middle of a line splits it, but only notifies us about the lines below.
                 first_line = first_line - 1
-- 
2.43.0


From 3b3fc04ffa2edd5d04485df8669a40739e6fc0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:48 +0000
Subject: [PATCH 53/57] fix: show the cursors of several people in a file in VS
 Code

They shared a decoration type, so each cursor replaced those of the others.
---
 vscode-plugin/src/cursor.ts | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/vscode-plugin/src/cursor.ts b/vscode-plugin/src/cursor.ts
index 11c8623..652a660 100644
--- a/vscode-plugin/src/cursor.ts
+++ b/vscode-plugin/src/cursor.ts
@@ -5,17 +5,28 @@
 
 import * as vscode from "vscode"
 
-const selectionDecorationType = vscode.window.createTextEditorDecorationType({
-    backgroundColor: "#1a4978",
-    borderRadius: "0.1rem",
-    rangeBehavior: vscode.DecorationRangeBehavior.ClosedClosed,
-    before: {
-        color: "#548abf",
-        contentText: "ᛙ",
-        margin: "0px 0px 0px -0.5ch",
-        textDecoration: "font-weight: bold; position: absolute; top: 0; font-size: 200%; z-index: 0;",
-    },
-})
+// Setting the decorations of a type replaces the previous ones of that type in the editor, so every
+// user needs their own.
+const selectionDecorationTypes: Map<number, vscode.TextEditorDecorationType> = new Map()
+
+function selectionDecorationTypeFor(userid: number): vscode.TextEditorDecorationType {
+    let decorationType = selectionDecorationTypes.get(userid)
+    if (!decorationType) {
+        decorationType = vscode.window.createTextEditorDecorationType({
+            backgroundColor: "#1a4978",
+            borderRadius: "0.1rem",
+            rangeBehavior: vscode.DecorationRangeBehavior.ClosedClosed,
+            before: {
+                color: "#548abf",
+                contentText: "ᛙ",
+                margin: "0px 0px 0px -0.5ch",
+                textDecoration: "font-weight: bold; position: absolute; top: 0; font-size: 200%; z-index: 0;",
+            },
+        })
+        selectionDecorationTypes.set(userid, decorationType)
+    }
+    return decorationType
+}
 
 interface RemoteCursor {
     name: string
@@ -26,6 +37,7 @@ interface RemoteCursor {
 let cursors: Map<number, RemoteCursor[]> = new Map()
 
 export function setCursor(userid: number, name: string, uri: vscode.Uri, selections: vscode.Selection[]) {
+    const selectionDecorationType = selectionDecorationTypeFor(userid)
     let usersCursors = cursors.get(userid)
     if (usersCursors) {
         for (let cursor of usersCursors) {
-- 
2.43.0


From 5663d6b83bdd4b65728921d6651f5c0be3c89f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:48 +0000
Subject: [PATCH 54/57] fix: show cursors in all editors of a document in VS
 Code

When a document was visible more than once, only one of the editors showed them.
---
 vscode-plugin/src/cursor.ts | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vscode-plugin/src/cursor.ts b/vscode-plugin/src/cursor.ts
index 652a660..9b34ea5 100644
--- a/vscode-plugin/src/cursor.ts
+++ b/vscode-plugin/src/cursor.ts
@@ -36,15 +36,17 @@ interface RemoteCursor {
 
 let cursors: Map<number, RemoteCursor[]> = new Map()
 
+// A document can be visible in multiple editors.
+function visibleTextEditorsFor(uri: vscode.Uri): vscode.TextEditor[] {
+    return vscode.window.visibleTextEditors.filter((editor) => editor.document.uri.toString() === uri.toString())
+}
+
 export function setCursor(userid: number, name: string, uri: vscode.Uri, selections: vscode.Selection[]) {
     const selectionDecorationType = selectionDecorationTypeFor(userid)
     let usersCursors = cursors.get(userid)
     if (usersCursors) {
         for (let cursor of usersCursors) {
-            const editor = vscode.window.visibleTextEditors.find(
-                (editor) => editor.document.uri.toString() === cursor.uri.toString(),
-            )
-            if (editor) {
+            for (const editor of visibleTextEditorsFor(cursor.uri)) {
                 editor.setDecorations(selectionDecorationType, [])
             }
         }
@@ -55,8 +57,7 @@ export function setCursor(userid: number, name: string, uri: vscode.Uri, selecti
     })
     cursors.set(userid, newCursors)
 
-    const editor = vscode.window.visibleTextEditors.find((editor) => editor.document.uri.toString() === uri.toString())
-    if (editor) {
+    for (const editor of visibleTextEditorsFor(uri)) {
         editor.setDecorations(selectionDecorationType, selections)
     }
 }
-- 
2.43.0


From acbd721926074e015d2cc2537720206055d7a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:48 +0000
Subject: [PATCH 55/57] fix: report where the active end of a selection is in
 VS Code

The end of a range is the active end of the selection, but selections made
backwards were reported the other way round.
---
 vscode-plugin/src/extension.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 6fc5b28..dffddff 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -392,7 +392,11 @@ function processSelection(event: vscode.TextEditorSelectionChangeEvent) {
     let uri = uriForDocument(event.textEditor.document)
     let content = contents[event.textEditor.document.fileName]
     let ranges = event.selections.map((s) => {
-        return vsCodeRangeToEthersyncRange(content, s)
+        // The end is where the active/movable end of the selection is.
+        return {
+            start: vsCodePositionToEthersyncPosition(content, s.anchor),
+            end: vsCodePositionToEthersyncPosition(content, s.active),
+        }
     })
     connection.sendNotification(cursorType, {uri, ranges})
 }
-- 
2.43.0


From ebf6db330ad23a02b91b3be310bd56cca08a9666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:48:12 +0000
Subject: [PATCH 56/57] fix: don't leave an incomplete key file behind when
 killed

The key is written to a temporary file first, and renamed when it is complete.
Otherwise, a daemon that was killed while creating it could not be started again.
---
 daemon/src/peer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 2457d12..461f3c6 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -247,14 +247,17 @@ impl P2PActor {
                 .to_protobuf_encoding()
                 .expect("Failed to serialize keypair");
 
+            // If we are killed in the middle of this, there shouldn't be an incomplete key file.
+            let temporary_file = keyfile.with_extension("new");
+            let _ = fs::remove_file(&temporary_file);
             let mut file = OpenOptions::new()
-                .create(true)
+                .create_new(true)
                 .write(true)
-                .truncate(true)
                 .mode(0o600)
-                .open(keyfile)
+                .open(&temporary_file)
                 .expect("Should have been able to create key file that did not exist before");
             file.write_all(&bytes).expect("Failed to write to key file");
+            fs::rename(&temporary_file, &keyfile).expect("Failed to rename key file");
 
             keypair
         }
-- 
2.43.0


From a0682f575e82ba4b69d997e0e03ec52f4301f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:48:12 +0000
Subject: [PATCH 57/57] fix: don't create new files outside of shared
 directories in Neovim

The plugin saved every new buffer to disk, also when its directory is not
marked for sharing.
---
 vim-plugin/plugin/ethersync.lua | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vim-plugin/plugin/ethersync.lua b/vim-plugin/plugin/ethersync.lua
index 63e2be5..f345181 100644
--- a/vim-plugin/plugin/ethersync.lua
+++ b/vim-plugin/plugin/ethersync.lua
@@ -202,6 +202,10 @@ local function on_buffer_open()
 end
 
 local function on_buffer_new_file()
+    if not is_ethersync_enabled(vim.fn.expand("%:p")) then
+        return
+    end
+
     -- Ensure that the file exists on disk before we "open" it in the daemon,
     -- to prevent a warning that the file has been created externally (W13).
     -- This resolves issue #92.
-- 
2.43.0

