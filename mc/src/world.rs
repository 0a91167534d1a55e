//! Real daemons (document tasks), reference editors and peer links under the harness' control.
//! Included by the binaries that need it.
#![allow(dead_code)]

use automerge::sync::{Message, State as SyncState, SyncDoc};
use automerge::{AutoCommit, ReadDoc};
use ethersync::daemon::{DocMessage, DocumentActorHandle};
use ethersync::editor::EditorProtocolCodec;
use ethersync::watcher::WatcherEvent;
use mc::text::{self, Edit};
use mc::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, VecDeque};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::time::Duration;
use tokio::sync::{broadcast, oneshot};

pub type Files = BTreeMap<String, String>;

const PATIENCE: Duration = Duration::from_secs(30);

pub fn block_on<F: std::future::Future>(ctx: &Ctx, f: F) -> Res<F::Output> {
    let rt = ctx.rt;
    match rt.block_on(async { tokio::time::timeout(PATIENCE, f).await }) {
        Ok(x) => Ok(x),
        Err(_) => {
            check_panics("the daemon does not answer")?;
            Err(Violation::new("the daemon does not answer any more"))
        }
    }
}

/// One daemon: its project directory and its document task.
pub struct Node {
    pub name: char,
    pub dir: PathBuf,
    actor: u8,
    handle: Option<DocumentActorHandle>,
    pings: Option<broadcast::Receiver<()>>,
    /// The document changed since the synchronization tasks last looked.
    pub dirty: bool,
    generation: u8,
}

impl Node {
    /// Prepares a project directory.
    pub fn new(ctx: &mut Ctx, name: char, actor: u8) -> Self {
        let dir = ctx.fresh_dir().join("project");
        std::fs::create_dir_all(dir.join(".ethersync")).unwrap();
        Self {
            name,
            dir,
            actor,
            handle: None,
            pings: None,
            dirty: false,
            generation: 0,
        }
    }

    pub fn write(&self, file: &str, content: &str) {
        let path = self.dir.join(file);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(path, content).unwrap();
    }

    pub fn read(&self, file: &str) -> Option<String> {
        std::fs::read(self.dir.join(file))
            .ok()
            .map(|b| String::from_utf8_lossy(&b).into_owned())
    }

    pub fn remove(&self, file: &str) {
        std::fs::remove_file(self.dir.join(file)).unwrap();
    }

    pub fn uri(&self, file: &str) -> String {
        format!("file://{}/{file}", self.dir.display())
    }

    /// Starts the daemon on its directory.
    pub fn start(&mut self, ctx: &mut Ctx, init: bool, host: bool) -> Res {
        note!(ctx, "{}: start (init={init}, host={host})", self.name);
        ctx.step();
        self.generation += 1;
        ethersync::verif::set_next_actor(&[self.actor, self.generation]);
        let handle = {
            let _guard = ctx.rt.enter();
            DocumentActorHandle::new(&self.dir, init, host)
        };
        self.pings = Some(handle.subscribe_document_changes());
        self.handle = Some(handle);
        self.dirty = true;
        self.barrier(ctx)
    }

    /// Stops the daemon without giving it a chance to do anything.
    pub fn stop(&mut self, ctx: &mut Ctx) {
        if self.handle.is_some() {
            note!(ctx, "{}: stop", self.name);
            self.handle = None;
            self.pings = None;
            ctx.rt.block_on(async {
                for _ in 0..4 {
                    tokio::task::yield_now().await;
                }
            });
        }
    }

    pub fn running(&self) -> bool {
        self.handle.is_some()
    }

    pub fn handle(&self) -> &DocumentActorHandle {
        self.handle.as_ref().expect("daemon is not running")
    }

    fn barrier(&mut self, ctx: &Ctx) -> Res {
        let handle = self.handle.as_ref().expect("daemon is not running").clone();
        let (tx, rx) = oneshot::channel();
        let answered = block_on(ctx, async {
            handle
                .send_message(DocMessage::GetContent { response_tx: tx })
                .await;
            rx.await.is_ok()
        })?;
        check_panics(&format!("daemon {} died", self.name))?;
        ensure!(answered, "daemon {} does not answer", self.name);
        if let Some(pings) = &mut self.pings {
            loop {
                match pings.try_recv() {
                    Ok(()) | Err(broadcast::error::TryRecvError::Lagged(_)) => self.dirty = true,
                    Err(_) => break,
                }
            }
        }
        Ok(())
    }

    /// Lets the daemon handle one message completely.
    pub fn send(&mut self, ctx: &mut Ctx, message: DocMessage) -> Res {
        ctx.step();
        let handle = self.handle().clone();
        block_on(ctx, async { handle.send_message(message).await })?;
        self.barrier(ctx)
    }

    pub fn created(&mut self, ctx: &mut Ctx, file: &str) -> Res {
        let file_path = self.dir.join(file);
        self.send(ctx, DocMessage::FromWatcher(WatcherEvent::Created { file_path }))
    }

    pub fn changed(&mut self, ctx: &mut Ctx, file: &str) -> Res {
        let file_path = self.dir.join(file);
        self.send(ctx, DocMessage::FromWatcher(WatcherEvent::Changed { file_path }))
    }

    pub fn removed(&mut self, ctx: &mut Ctx, file: &str) -> Res {
        let file_path = self.dir.join(file);
        self.send(ctx, DocMessage::FromWatcher(WatcherEvent::Removed { file_path }))
    }

    pub fn persist(&mut self, ctx: &mut Ctx) -> Res {
        self.send(ctx, DocMessage::Persist)
    }

    pub fn generate(&mut self, ctx: &mut Ctx, state: SyncState) -> Res<(SyncState, Option<Message>)> {
        ctx.step();
        let handle = self.handle().clone();
        let (response_tx, rx) = oneshot::channel();
        let r = block_on(ctx, async {
            handle
                .send_message(DocMessage::GenerateSyncMessage { state, response_tx })
                .await;
            rx.await
        })?;
        check_panics(&format!("daemon {} died", self.name))?;
        self.barrier(ctx)?;
        match r {
            Ok(r) => Ok(r),
            Err(_) => fail!("daemon {} does not answer", self.name),
        }
    }

    pub fn receive(&mut self, ctx: &mut Ctx, state: SyncState, message: Message) -> Res<SyncState> {
        ctx.step();
        let handle = self.handle().clone();
        let (response_tx, rx) = oneshot::channel();
        let r = block_on(ctx, async {
            handle
                .send_message(DocMessage::ReceiveSyncMessage {
                    message,
                    state,
                    response_tx,
                })
                .await;
            rx.await
        })?;
        check_panics(&format!("daemon {} died", self.name))?;
        self.barrier(ctx)?;
        match r {
            Ok(r) => Ok(r),
            Err(_) => fail!("daemon {} does not answer", self.name),
        }
    }

    /// Synchronizes with a foreign replica until neither has anything to say.
    pub fn sync_with(&mut self, ctx: &mut Ctx, doc: &mut AutoCommit) -> Res {
        let mut mine = SyncState::new();
        let mut theirs = SyncState::new();
        for _ in 0..50 {
            let (s, m) = self.generate(ctx, mine)?;
            mine = s;
            let mut quiet = m.is_none();
            if let Some(m) = m {
                doc.sync()
                    .receive_sync_message(&mut theirs, m)
                    .expect("observer cannot read the daemon's message");
            }
            if let Some(m) = doc.sync().generate_sync_message(&mut theirs) {
                quiet = false;
                mine = self.receive(ctx, mine, m)?;
            }
            if quiet {
                return Ok(());
            }
        }
        fail!("synchronization with daemon {} never becomes quiet", self.name)
    }

    /// The shared document, as received by an additional peer.
    pub fn observe(&mut self, ctx: &mut Ctx) -> Res<Files> {
        let mut doc = AutoCommit::new();
        self.sync_with(ctx, &mut doc)?;
        files_of(&doc)
    }

    pub fn observe_states(&mut self, ctx: &mut Ctx) -> Res<Files> {
        let mut doc = AutoCommit::new();
        self.sync_with(ctx, &mut doc)?;
        map_of(&doc, "states")
    }

    /// Everything in the project directory except the daemon's own files.
    pub fn disk(&self) -> Files {
        let mut files = Files::new();
        collect(&self.dir, &self.dir, &mut files);
        files
    }
}

fn collect(base: &Path, dir: &Path, files: &mut Files) {
    let Ok(entries) = std::fs::read_dir(dir) else {
        return;
    };
    for entry in entries.flatten() {
        let path = entry.path();
        let name = entry.file_name();
        if name == ".ethersync" || name == ".git" {
            continue;
        }
        let kind = entry.file_type().unwrap();
        if kind.is_dir() {
            collect(base, &path, files);
        } else if kind.is_file() {
            let rel = path.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            files.insert(
                rel,
                String::from_utf8_lossy(&std::fs::read(&path).unwrap_or_default()).into_owned(),
            );
        }
    }
}

pub fn map_of(doc: &AutoCommit, name: &str) -> Res<Files> {
    let mut files = Files::new();
    if let Ok(Some((_, map))) = doc.get(automerge::ROOT, name) {
        let keys: Vec<String> = doc.keys(&map).collect();
        for key in keys {
            if let Ok(Some((_, obj))) = doc.get(&map, key.as_str()) {
                if let Ok(text) = doc.text(&obj) {
                    files.insert(key, text);
                }
            }
        }
    }
    Ok(files)
}

pub fn files_of(doc: &AutoCommit) -> Res<Files> {
    map_of(doc, "files")
}

/// A buffer of a reference editor.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Buffer {
    pub content: String,
    pub daemon_revision: u64,
    pub editor_revision: u64,
}

/// An editor following the documented protocol.
pub struct Editor {
    pub name: char,
    pub node: usize,
    pub id: usize,
    sock: Option<std::os::unix::net::UnixStream>,
    raw: Vec<u8>,
    pub buffers: BTreeMap<String, Buffer>,
    /// Lines on their way to the daemon.
    pub outbox: VecDeque<Value>,
    /// Lines on their way to the editor.
    pub inbox: VecDeque<Value>,
    pub next_request: u64,
    pub unanswered: BTreeMap<u64, String>,
    /// Responses that were not success: (id, error)
    pub errors: Vec<Value>,
    pub cursors: BTreeMap<String, Value>,
    pub cursor_log: Vec<Value>,
    pub edits_received: Vec<Value>,
    pub refused: usize,
    pub unknown_edits: Vec<Value>,
}

pub struct Link {
    pub a: usize,
    pub b: usize,
    pub up: bool,
    state_a: SyncState,
    state_b: SyncState,
    pub ab: VecDeque<Message>,
    pub ba: VecDeque<Message>,
    pub need_a: bool,
    pub need_b: bool,
}

#[derive(Default)]
pub struct World {
    pub nodes: Vec<Node>,
    pub editors: Vec<Editor>,
    pub links: Vec<Link>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum SyncAction {
    /// The task of link l at side a (true) or b generates a message.
    Generate(usize, bool),
    /// Deliver the oldest message of link l to a (true) or b.
    Deliver(usize, bool),
}

impl World {
    pub fn link(&mut self, ctx: &mut Ctx, a: usize, b: usize) -> usize {
        note!(ctx, "connect {} and {}", self.nodes[a].name, self.nodes[b].name);
        self.links.push(Link {
            a,
            b,
            up: true,
            state_a: SyncState::new(),
            state_b: SyncState::new(),
            ab: VecDeque::new(),
            ba: VecDeque::new(),
            need_a: true,
            need_b: true,
        });
        self.links.len() - 1
    }

    /// The connection breaks: messages in flight are lost.
    pub fn cut(&mut self, ctx: &mut Ctx, l: usize) {
        note!(ctx, "connection {l} breaks");
        let link = &mut self.links[l];
        link.up = false;
        link.ab.clear();
        link.ba.clear();
    }

    /// A new connection with fresh synchronization state.
    pub fn reconnect(&mut self, ctx: &mut Ctx, l: usize) {
        note!(ctx, "connection {l} is re-established");
        let link = &mut self.links[l];
        link.up = true;
        link.state_a = SyncState::new();
        link.state_b = SyncState::new();
        link.ab.clear();
        link.ba.clear();
        link.need_a = true;
        link.need_b = true;
    }

    /// Distributes change notifications to the links and collects what was sent to editors.
    pub fn pump(&mut self) -> Res {
        for (n, node) in self.nodes.iter_mut().enumerate() {
            if std::mem::take(&mut node.dirty) {
                for link in self.links.iter_mut().filter(|l| l.up) {
                    if link.a == n {
                        link.need_a = true;
                    }
                    if link.b == n {
                        link.need_b = true;
                    }
                }
            }
        }
        for e in &mut self.editors {
            e.collect()?;
        }
        Ok(())
    }

    pub fn sync_actions(&self) -> Vec<SyncAction> {
        let mut list = vec![];
        for (l, link) in self.links.iter().enumerate() {
            if !link.up {
                continue;
            }
            if !link.ab.is_empty() {
                list.push(SyncAction::Deliver(l, false));
            }
            if !link.ba.is_empty() {
                list.push(SyncAction::Deliver(l, true));
            }
            if link.need_a {
                list.push(SyncAction::Generate(l, true));
            }
            if link.need_b {
                list.push(SyncAction::Generate(l, false));
            }
        }
        list
    }

    /// The node an action happens at.
    pub fn node_of(&self, action: &SyncAction) -> usize {
        match action {
            SyncAction::Generate(l, true) | SyncAction::Deliver(l, true) => self.links[*l].a,
            SyncAction::Generate(l, false) | SyncAction::Deliver(l, false) => self.links[*l].b,
        }
    }

    pub fn sync(&mut self, ctx: &mut Ctx, action: &SyncAction) -> Res {
        match action {
            SyncAction::Generate(l, at_a) => {
                let link = &mut self.links[*l];
                let n = if *at_a { link.a } else { link.b };
                let state = if *at_a {
                    link.need_a = false;
                    std::mem::take(&mut link.state_a)
                } else {
                    link.need_b = false;
                    std::mem::take(&mut link.state_b)
                };
                let (state, message) = self.nodes[n].generate(ctx, state)?;
                note!(
                    ctx,
                    "{}: generates {}",
                    self.nodes[n].name,
                    if message.is_some() { "a message" } else { "nothing" }
                );
                let link = &mut self.links[*l];
                if *at_a {
                    link.state_a = state;
                    link.ab.extend(message);
                } else {
                    link.state_b = state;
                    link.ba.extend(message);
                }
            }
            SyncAction::Deliver(l, to_a) => {
                let link = &mut self.links[*l];
                let (n, message, state) = if *to_a {
                    (link.a, link.ba.pop_front(), std::mem::take(&mut link.state_a))
                } else {
                    (link.b, link.ab.pop_front(), std::mem::take(&mut link.state_b))
                };
                note!(ctx, "{}: receives a message", self.nodes[n].name);
                let state = self.nodes[n].receive(ctx, state, message.expect("no message"))?;
                let link = &mut self.links[*l];
                if *to_a {
                    link.state_a = state;
                } else {
                    link.state_b = state;
                }
            }
        }
        self.pump()
    }

    /// Runs the synchronization to its end in one fixed order.
    pub fn settle_sync(&mut self, ctx: &mut Ctx) -> Res {
        self.pump()?;
        for _ in 0..2000 {
            let list = self.sync_actions();
            let Some(action) = list.first() else {
                return Ok(());
            };
            self.sync(ctx, action)?;
        }
        fail!("the synchronization never becomes quiet")
    }

    /// Delivers everything that is in flight anywhere.
    pub fn settle(&mut self, ctx: &mut Ctx) -> Res {
        for _ in 0..200 {
            self.settle_sync(ctx)?;
            let mut quiet = true;
            for e in 0..self.editors.len() {
                while !self.editors[e].outbox.is_empty() {
                    quiet = false;
                    self.deliver_to_daemon(ctx, e)?;
                }
                while !self.editors[e].inbox.is_empty() {
                    quiet = false;
                    self.deliver_to_editor(ctx, e)?;
                }
            }
            if quiet && self.sync_actions().is_empty() {
                return Ok(());
            }
        }
        fail!("messages keep being exchanged forever")
    }

    /// Delivers everything that is in flight between one editor and its daemon.
    pub fn settle_editor(&mut self, ctx: &mut Ctx, e: usize) -> Res {
        self.pump()?;
        for _ in 0..200 {
            if !self.editors[e].outbox.is_empty() {
                self.deliver_to_daemon(ctx, e)?;
            } else if !self.editors[e].inbox.is_empty() {
                self.deliver_to_editor(ctx, e)?;
            } else {
                return Ok(());
            }
        }
        fail!("messages with editor {} keep being exchanged forever", self.editors[e].name)
    }

    pub fn connect_editor(&mut self, ctx: &mut Ctx, name: char, node: usize) -> Res<usize> {
        note!(ctx, "editor {name} connects to {}", self.nodes[node].name);
        let (sock, writer) = {
            let _guard = ctx.rt.enter();
            let (daemon_side, editor_side) = tokio::net::UnixStream::pair().unwrap();
            let (_read, write) = tokio::io::split(daemon_side);
            let sock = editor_side.into_std().unwrap();
            sock.set_nonblocking(true).unwrap();
            (
                sock,
                tokio_util::codec::FramedWrite::new(write, EditorProtocolCodec),
            )
        };
        let id = self.nodes[node].handle().next_editor_id();
        self.nodes[node].send(ctx, DocMessage::NewEditorConnection(id, writer))?;
        self.editors.push(Editor {
            name,
            node,
            id,
            sock: Some(sock),
            raw: vec![],
            buffers: BTreeMap::new(),
            outbox: VecDeque::new(),
            inbox: VecDeque::new(),
            next_request: 1,
            unanswered: BTreeMap::new(),
            errors: vec![],
            cursors: BTreeMap::new(),
            cursor_log: vec![],
            edits_received: vec![],
            refused: 0,
            unknown_edits: vec![],
        });
        self.pump()?;
        Ok(self.editors.len() - 1)
    }

    /// The editor's process ends; the daemon notices.
    pub fn disconnect_editor(&mut self, ctx: &mut Ctx, e: usize) -> Res {
        note!(ctx, "editor {} disconnects", self.editors[e].name);
        let (node, id) = (self.editors[e].node, self.editors[e].id);
        self.editors[e].hang_up();
        self.nodes[node].send(ctx, DocMessage::CloseEditorConnection(id))?;
        self.pump()
    }

    pub fn request(&mut self, e: usize, method: &str, params: Value) {
        let editor = &mut self.editors[e];
        let id = editor.next_request;
        editor.next_request += 1;
        editor.unanswered.insert(id, method.to_string());
        editor
            .outbox
            .push_back(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
    }

    /// The editor loads the file from disk and announces it. Handled by the daemon at once.
    pub fn open(&mut self, ctx: &mut Ctx, e: usize, file: &str) -> Res {
        let node = self.editors[e].node;
        let content = self.nodes[node].read(file).unwrap_or_default();
        note!(ctx, "editor {} opens {file} with {content:?}", self.editors[e].name);
        let uri = self.nodes[node].uri(file);
        self.request(e, "open", json!({ "uri": uri }));
        self.editors[e].buffers.insert(
            file.to_string(),
            Buffer {
                content,
                daemon_revision: 0,
                editor_revision: 0,
            },
        );
        while !self.editors[e].outbox.is_empty() {
            self.deliver_to_daemon(ctx, e)?;
        }
        Ok(())
    }

    pub fn close(&mut self, ctx: &mut Ctx, e: usize, file: &str) {
        note!(ctx, "editor {} closes {file}", self.editors[e].name);
        let uri = self.nodes[self.editors[e].node].uri(file);
        self.editors[e].buffers.remove(file);
        self.request(e, "close", json!({ "uri": uri }));
    }

    /// The user changes the buffer; the edit is put on its way.
    pub fn type_text(&mut self, ctx: &mut Ctx, e: usize, file: &str, start: usize, len: usize, t: &str) {
        let uri = self.nodes[self.editors[e].node].uri(file);
        let editor = &mut self.editors[e];
        let buffer = editor.buffers.get_mut(file).expect("file is open");
        let edit = text::edit_at(&buffer.content, start, len, t);
        note!(ctx, "editor {} types {edit:?} in {:?}", editor.name, buffer.content);
        buffer.content = text::splice(&buffer.content, start, len, t);
        buffer.editor_revision += 1;
        let revision = buffer.daemon_revision;
        self.request(
            e,
            "edit",
            json!({"uri": uri, "revision": revision, "delta": [edit_json(&edit)]}),
        );
    }

    pub fn send_line(&mut self, ctx: &mut Ctx, e: usize, line: String) -> Res {
        let (node, id) = (self.editors[e].node, self.editors[e].id);
        self.nodes[node].send(ctx, DocMessage::FromEditor(id, line))?;
        self.pump()
    }

    pub fn deliver_to_daemon(&mut self, ctx: &mut Ctx, e: usize) -> Res {
        let line = self.editors[e].outbox.pop_front().expect("nothing to deliver");
        note!(
            ctx,
            "{}: receives {} from editor {}",
            self.nodes[self.editors[e].node].name,
            short(&line),
            self.editors[e].name
        );
        self.send_line(ctx, e, line.to_string())
    }

    pub fn deliver_to_editor(&mut self, ctx: &mut Ctx, e: usize) -> Res {
        ctx.step();
        let message = self.editors[e].inbox.pop_front().expect("nothing to deliver");
        note!(ctx, "editor {}: receives {}", self.editors[e].name, short(&message));
        let dir = self.nodes[self.editors[e].node].dir.clone();
        self.editors[e].handle(ctx, &dir, message)
    }

    /// Does an editor of this node have the file open?
    pub fn is_open(&self, node: usize, file: &str) -> bool {
        self.editors
            .iter()
            .any(|e| e.node == node && e.connected() && e.buffers.contains_key(file))
    }

    /// All documents are equal, and equal to disks and buffers. Returns the common content.
    pub fn check_converged(&mut self, ctx: &mut Ctx) -> Res<Files> {
        let mut reference: Option<Files> = None;
        for n in 0..self.nodes.len() {
            if !self.nodes[n].running() {
                continue;
            }
            let files = self.nodes[n].observe(ctx)?;
            self.check_node(n, &files)?;
            if let Some(reference) = &reference {
                ensure!(
                    *reference == files,
                    "peers differ: {} has {reference:?} but {} has {files:?}",
                    self.nodes[0].name,
                    self.nodes[n].name
                );
            } else {
                reference = Some(files);
            }
        }
        self.pump()?;
        Ok(reference.unwrap_or_default())
    }

    /// The disk and the buffers at a node agree with the shared content.
    pub fn check_node(&self, n: usize, files: &Files) -> Res {
        let node = &self.nodes[n];
        let disk = node.disk();
        for (file, content) in files {
            if self.is_open(n, file) {
                continue;
            }
            ensure!(
                disk.get(file) == Some(content),
                "{}: {file} is {content:?} in the shared document but {:?} on disk",
                node.name,
                disk.get(file)
            );
        }
        for file in disk.keys() {
            ensure!(
                files.contains_key(file) || self.is_open(n, file),
                "{}: {file} is on disk but not in the shared document",
                node.name
            );
        }
        for e in self.editors.iter().filter(|e| e.node == n && e.connected()) {
            for (file, buffer) in &e.buffers {
                ensure!(
                    files.get(file) == Some(&buffer.content),
                    "editor {} shows {:?} for {file} but the shared document of {} has {:?}",
                    e.name,
                    buffer.content,
                    node.name,
                    files.get(file)
                );
            }
        }
        Ok(())
    }

    /// A hash of what can be observed cheaply.
    pub fn fingerprint(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for n in &self.nodes {
            n.disk().hash(&mut h);
        }
        for e in &self.editors {
            e.buffers.hash(&mut h);
            e.inbox.len().hash(&mut h);
            e.outbox.len().hash(&mut h);
        }
        for l in &self.links {
            (l.up, l.ab.len(), l.ba.len(), l.need_a, l.need_b).hash(&mut h);
        }
        h.finish()
    }

    pub fn shutdown(&mut self, ctx: &mut Ctx) {
        for n in &mut self.nodes {
            n.handle = None;
            n.pings = None;
        }
        ctx.rt.block_on(async {
            for _ in 0..4 {
                tokio::task::yield_now().await;
            }
        });
    }
}

impl Editor {
    pub fn connected(&self) -> bool {
        self.sock.is_some()
    }

    pub fn hang_up(&mut self) {
        self.sock = None;
        self.inbox.clear();
        self.outbox.clear();
        self.buffers.clear();
        self.unanswered.clear();
    }

    /// The editor's socket disappears without the daemon having noticed yet.
    pub fn vanish(&mut self) {
        self.sock = None;
    }

    pub fn collect(&mut self) -> Res {
        let Some(sock) = &mut self.sock else {
            return Ok(());
        };
        let mut chunk = [0u8; 4096];
        loop {
            match sock.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => self.raw.extend_from_slice(&chunk[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(_) => break,
            }
        }
        while let Some(end) = self.raw.iter().position(|b| *b == b'\n') {
            let line: Vec<u8> = self.raw.drain(..=end).collect();
            let value: Value = match serde_json::from_slice(&line[..line.len() - 1]) {
                Ok(v) => v,
                Err(e) => fail!(
                    "editor {} got a line that is not JSON ({e}): {:?}",
                    self.name,
                    String::from_utf8_lossy(&line)
                ),
            };
            self.inbox.push_back(value);
        }
        Ok(())
    }

    pub fn file_of(&self, dir: &Path, uri: &str) -> Option<String> {
        uri.strip_prefix(&format!("file://{}/", dir.display()))
            .map(|s| s.to_string())
    }

    fn handle(&mut self, ctx: &mut Ctx, dir: &Path, message: Value) -> Res {
        ensure!(
            message["jsonrpc"] == "2.0",
            "editor {} got a message without version: {message}",
            self.name
        );
        match message["method"].as_str() {
            Some("edit") => {
                let params = &message["params"];
                self.edits_received.push(params.clone());
                let uri = params["uri"].as_str().unwrap_or("");
                let file = match self.file_of(dir, uri) {
                    Some(f) => f,
                    None => fail!("editor {} got an edit for a strange URI {uri}", self.name),
                };
                let Some(buffer) = self.buffers.get_mut(&file) else {
                    // The file was closed while this was on its way.
                    self.unknown_edits.push(params.clone());
                    return Ok(());
                };
                if params["revision"].as_u64() == Some(buffer.editor_revision) {
                    let delta = parse_delta(&params["delta"])?;
                    buffer.content = text::apply(&buffer.content, &delta).map_err(|e| {
                        Violation::new(format!("edit for editor {} does not fit: {e}", self.name))
                    })?;
                    buffer.daemon_revision += 1;
                    note!(ctx, "  now {:?}", buffer.content);
                } else {
                    self.refused += 1;
                    note!(ctx, "  refused");
                }
            }
            Some("cursor") => {
                let params = &message["params"];
                self.cursor_log.push(params.clone());
                let id = params["userid"].as_str().unwrap_or("").to_string();
                self.cursors.insert(id, params.clone());
            }
            Some(other) => fail!("editor {} got an unknown method {other}", self.name),
            None => {
                let Some(id) = message["id"].as_u64() else {
                    self.errors.push(message);
                    return Ok(());
                };
                ensure!(
                    self.unanswered.remove(&id).is_some(),
                    "editor {} got a second or unsolicited response {message}",
                    self.name
                );
                if message.get("error").is_some() {
                    self.errors.push(message);
                } else {
                    ensure!(
                        message.get("result").is_some(),
                        "editor {} got a response without result: {message}",
                        self.name
                    );
                }
            }
        }
        Ok(())
    }
}

pub fn edit_json(e: &Edit) -> Value {
    json!({
        "range": {
            "start": {"line": e.start.0, "character": e.start.1},
            "end": {"line": e.end.0, "character": e.end.1},
        },
        "replacement": e.text,
    })
}

pub fn parse_delta(value: &Value) -> Res<Vec<Edit>> {
    fn pos(v: &Value) -> Option<(usize, usize)> {
        Some((v["line"].as_u64()? as usize, v["character"].as_u64()? as usize))
    }
    let parse = || -> Option<Vec<Edit>> {
        value
            .as_array()?
            .iter()
            .map(|o| {
                Some(Edit {
                    start: pos(&o["range"]["start"])?,
                    end: pos(&o["range"]["end"])?,
                    text: o["replacement"].as_str()?.to_string(),
                })
            })
            .collect()
    };
    match parse() {
        Some(d) => Ok(d),
        None => fail!("malformed delta {value}"),
    }
}

pub fn short(v: &Value) -> String {
    let mut s = v.to_string();
    if s.chars().count() > 260 {
        s = s.chars().take(260).collect();
    }
    s
}
