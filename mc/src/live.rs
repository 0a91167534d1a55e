//! A small world of real daemon processes on the loopback interface, with editors on their sockets.
//! Nothing in here depends on the daemon's code, only on its documented interfaces.

use crate::process::*;
use crate::text::{self, Edit};
use crate::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::fs::MetadataExt;
use std::os::unix::net::UnixStream;
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub type Files = BTreeMap<String, String>;

/// How long something may take that has to happen.
const SOON: Duration = Duration::from_secs(40);

pub struct Node {
    dir: PathBuf,
    pub project: PathBuf,
    run: PathBuf,
    port: u16,
    /// The port of the peer to join.
    peer: Option<u16>,
    pub process: Option<Process>,
    /// The call at which the program ends, and how much of it still happens (crash.c).
    crash: Option<(usize, usize)>,
}

impl Node {
    pub fn new(dir: PathBuf, peer: Option<u16>) -> Self {
        let project = project(&dir, None);
        let run = run_dir(&dir);
        Self {
            dir,
            project,
            run,
            port: fresh_port(),
            peer,
            process: None,
            crash: None,
        }
    }

    pub fn port(&self) -> u16 {
        self.port
    }

    pub fn start(&mut self, init: bool) -> Res {
        let mut c: Command = command(&self.run);
        c.args(["daemon", "--port", &self.port.to_string()]);
        if let Some(peer) = self.peer {
            c.args(["--peer", &format!("/ip4/127.0.0.1/tcp/{peer}")]);
        }
        if init {
            c.arg("--init");
        }
        c.arg(&self.project);
        if let Some((at, part)) = self.crash {
            c.env("LD_PRELOAD", std::env::var_os("MC_CRASH_LIB").unwrap_or_default())
                .env("MC_CRASH_DIR", &self.project)
                .env("MC_CRASH_AT", at.to_string())
                .env("MC_CRASH_PART", part.to_string());
        }
        // The socket of an earlier program may still be there.
        let socket = self.socket();
        let inode = || std::fs::metadata(&socket).ok().map(|m| m.ino());
        let old = inode();
        let mut p = Process::start(c, &self.dir.join("log"));
        listening(&mut p, self.port)?;
        ensure!(
            wait_until(SOON, || {
                let new = inode().filter(|i| Some(*i) != old).map(|_| true);
                new.or_else(|| p.ended().map(|_| false))
            }) == Some(true),
            "the daemon does not listen for editors: {}",
            p.said()
        );
        self.process = Some(p);
        // Changes on disk are only noticed when the watcher is ready.
        self.watching();
        Ok(())
    }

    /// Waits until the watcher knows all directories.
    pub fn watching(&self) {
        let dirs = directories(&self.project);
        if let Some(p) = &self.process {
            let gone = || std::fs::read_dir(format!("/proc/{}/fd", p.child.id())).map_or(0, |d| d.count()) == 0;
            wait_until(Duration::from_secs(5), || (watches(p.child.id()) >= dirs || gone()).then_some(()));
        }
    }

    fn socket(&self) -> PathBuf {
        self.run.join("ethersync")
    }

    /// As with Ctrl+C.
    pub fn stop(&mut self) -> Res {
        let Some(mut p) = self.process.take() else { return Ok(()) };
        self.alive_process(&mut p)?;
        unsafe { libc::kill(p.child.id() as i32, libc::SIGINT) };
        ensure!(
            wait_until(SOON, || p.ended()).is_some(),
            "the daemon does not stop: {}",
            p.said()
        );
        Ok(())
    }

    pub fn alive(&mut self) -> Res {
        match self.process.take() {
            Some(mut p) => {
                let r = self.alive_process(&mut p);
                self.process = Some(p);
                r
            }
            None => Ok(()),
        }
    }

    fn alive_process(&self, p: &mut Process) -> Res {
        ensure!(p.ended().is_none(), "the daemon has ended: {}", p.said());
        Ok(())
    }

    pub fn said(&self) -> String {
        self.process.as_ref().map(|p| p.said()).unwrap_or_default()
    }

    pub fn write(&self, name: &str, content: &str) {
        let path = self.project.join(name);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        self.watching();
        std::fs::write(path, content).unwrap();
    }

    pub fn remove(&self, name: &str) {
        self.watching();
        std::fs::remove_file(self.project.join(name)).unwrap();
    }

    /// The files on disk, without those of Ethersync and Git.
    pub fn files(&self) -> Files {
        let mut files = Files::new();
        collect(&self.project, &self.project, &mut files);
        files
    }

    pub fn connect(&self) -> Res<LiveEditor> {
        let Ok(stream) = UnixStream::connect(self.socket()) else {
            fail!("the daemon does not accept an editor: {}", self.said())
        };
        stream.set_read_timeout(Some(Duration::from_millis(2))).unwrap();
        Ok(LiveEditor {
            stream,
            project: self.project.clone(),
            input: vec![],
            next_id: 1,
            answers: BTreeMap::new(),
            strays: vec![],
            open: BTreeMap::new(),
            cursors: BTreeMap::new(),
            cursor_messages: 0,
            closed: false,
        })
    }
}

fn collect(base: &Path, dir: &Path, files: &mut Files) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let name = e.file_name();
        if name == ".ethersync" || name == ".git" {
            continue;
        }
        if e.path().is_dir() {
            collect(base, &e.path(), files);
        } else if let Ok(c) = std::fs::read_to_string(e.path()) {
            files.insert(e.path().strip_prefix(base).unwrap().to_string_lossy().into_owned(), c);
        }
    }
}

fn directories(dir: &Path) -> usize {
    1 + std::fs::read_dir(dir)
        .into_iter()
        .flatten()
        .flatten()
        .filter(|e| e.file_type().is_ok_and(|t| t.is_dir()))
        .map(|e| directories(&e.path()))
        .sum::<usize>()
}

/// How many inotify watches does a process have?
fn watches(pid: u32) -> usize {
    std::fs::read_dir(format!("/proc/{pid}/fdinfo"))
        .into_iter()
        .flatten()
        .flatten()
        .map(|e| {
            std::fs::read_to_string(e.path())
                .unwrap_or_default()
                .lines()
                .filter(|l| l.starts_with("inotify wd:"))
                .count()
        })
        .sum()
}

#[derive(Debug)]
pub struct Buffer {
    pub content: String,
    /// Edits sent and received.
    sent: u64,
    received: u64,
}

/// An editor that follows the protocol, on the daemon's socket.
pub struct LiveEditor {
    pub stream: UnixStream,
    project: PathBuf,
    input: Vec<u8>,
    next_id: u64,
    pub answers: BTreeMap<u64, Result<Value, Value>>,
    /// Error responses without an id.
    pub strays: Vec<Value>,
    pub open: BTreeMap<String, Buffer>,
    /// Name, file and ranges of each user that has a cursor.
    pub cursors: BTreeMap<String, (Value, String, Value)>,
    pub cursor_messages: usize,
    /// The daemon has closed the connection.
    pub closed: bool,
}

impl LiveEditor {
    pub fn uri(&self, name: &str) -> String {
        format!("file://{}/{name}", self.project.display())
    }

    /// Works on everything that has arrived.
    pub fn pump(&mut self) -> Res {
        let mut chunk = [0; 65536];
        self.stream.set_nonblocking(true).unwrap();
        while let Ok(n) = self.stream.read(&mut chunk) {
            if n == 0 {
                self.closed = true;
                break;
            }
            self.input.extend_from_slice(&chunk[..n]);
        }
        self.stream.set_nonblocking(false).unwrap();
        while let Some(i) = self.input.iter().position(|b| *b == b'\n') {
            let line: Vec<u8> = self.input.drain(..=i).collect();
            let Ok(v) = serde_json::from_slice::<Value>(&line) else {
                fail!("an editor got {:?}", String::from_utf8_lossy(&line))
            };
            self.handle(v)?;
        }
        Ok(())
    }

    fn handle(&mut self, v: Value) -> Res {
        match v["method"].as_str() {
            Some("edit") => {
                let p = &v["params"];
                let uri = p["uri"].as_str().unwrap_or_default();
                let name = uri
                    .strip_prefix(&self.uri(""))
                    .map(|s| s.to_string())
                    .unwrap_or_else(|| uri.to_string());
                let Some(buffer) = self.open.get_mut(&name) else {
                    fail!("an editor got an edit for {uri}, which it does not have open")
                };
                if p["revision"].as_u64() != Some(buffer.sent) {
                    return Ok(());
                }
                buffer.received += 1;
                let mut edits = vec![];
                for op in p["delta"].as_array().into_iter().flatten() {
                    let pos = |k: &str| {
                        let p = &op["range"][k];
                        (
                            p["line"].as_u64().unwrap_or(u64::MAX) as usize,
                            p["character"].as_u64().unwrap_or(u64::MAX) as usize,
                        )
                    };
                    edits.push(Edit {
                        start: pos("start"),
                        end: pos("end"),
                        text: op["replacement"].as_str().unwrap_or_default().to_string(),
                    });
                }
                buffer.content = match text::apply(&buffer.content, &edits) {
                    Ok(c) => c,
                    Err(e) => fail!("an editor got an edit that does not fit: {e}"),
                };
            }
            Some("cursor") => {
                self.cursor_messages += 1;
                let p = &v["params"];
                let uri = p["uri"].as_str().unwrap_or_default();
                let name = uri.strip_prefix(&self.uri("")).unwrap_or(uri).to_string();
                let id = p["userid"].as_str().unwrap_or_default().to_string();
                if p["ranges"].as_array().is_some_and(|r| r.is_empty()) {
                    self.cursors.remove(&id);
                } else {
                    self.cursors.insert(id, (p["name"].clone(), name, p["ranges"].clone()));
                }
            }
            Some(m) => fail!("an editor got a {m} message"),
            None => match v["id"].as_u64() {
                Some(id) => {
                    let answer = match v.get("error") {
                        Some(e) => Err(e.clone()),
                        None => Ok(v["result"].clone()),
                    };
                    ensure!(
                        self.answers.insert(id, answer).is_none(),
                        "request {id} was answered twice"
                    );
                }
                None => self.strays.push(v),
            },
        }
        Ok(())
    }

    pub fn send(&mut self, bytes: &[u8]) -> bool {
        self.stream.write_all(bytes).is_ok()
    }

    pub fn post(&mut self, method: &str, params: Value) -> u64 {
        let id = self.next_id;
        self.next_id += 1;
        let v = json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params});
        self.send(format!("{v}\n").as_bytes());
        id
    }

    /// Sends a request and waits for its answer.
    pub fn request(&mut self, method: &str, params: Value) -> Res<Result<Value, Value>> {
        let id = self.post(method, params);
        let mut failure = None;
        let answer = wait_until(SOON, || {
            if let Err(e) = self.pump() {
                failure = Some(e);
                return Some(None);
            }
            let answer = self.answers.get(&id).cloned().map(Some);
            answer.or(self.closed.then_some(None))
        });
        if let Some(e) = failure {
            return Err(e);
        }
        match answer.flatten() {
            Some(a) => Ok(a),
            None => fail!("the daemon does not answer {method}"),
        }
    }

    pub fn open(&mut self, name: &str) -> Res {
        let content = std::fs::read_to_string(self.project.join(name)).unwrap_or_default();
        self.open.insert(
            name.to_string(),
            Buffer {
                content,
                sent: 0,
                received: 0,
            },
        );
        let uri = self.uri(name);
        let answer = self.request("open", json!({ "uri": uri }))?;
        ensure!(answer.is_ok(), "opening {name} is refused: {answer:?}");
        Ok(())
    }

    pub fn close(&mut self, name: &str) -> Res {
        let uri = self.uri(name);
        let answer = self.request("close", json!({ "uri": uri }))?;
        ensure!(answer.is_ok(), "closing {name} is refused: {answer:?}");
        self.open.remove(name);
        Ok(())
    }

    /// Replaces `len` characters at an offset.
    pub fn type_text(&mut self, name: &str, at: usize, len: usize, new: &str) -> Res {
        let uri = self.uri(name);
        let b = self.open.get_mut(name).unwrap();
        let (s, e) = (
            text::offset_to_pos(&b.content, at),
            text::offset_to_pos(&b.content, at + len),
        );
        b.content = text::splice(&b.content, at, len, new);
        b.sent += 1;
        let params = json!({
            "uri": uri,
            "revision": b.received,
            "delta": [{
                "range": {"start": {"line": s.0, "character": s.1}, "end": {"line": e.0, "character": e.1}},
                "replacement": new,
            }],
        });
        let answer = self.request("edit", params)?;
        ensure!(answer.is_ok(), "an edit is refused: {answer:?}");
        Ok(())
    }

    pub fn cursor(&mut self, name: &str, at: (u64, u64)) -> Res {
        let uri = self.uri(name);
        let p = json!({"line": at.0, "character": at.1});
        let answer = self.request("cursor", json!({"uri": uri, "ranges": [{"start": p, "end": p}]}))?;
        ensure!(answer.is_ok(), "a cursor is refused: {answer:?}");
        Ok(())
    }
}

/// Several daemons, the first of which is the host the others join, and their editors.
pub struct Live {
    pub nodes: Vec<Node>,
    /// Editors with the number of their node.
    pub editors: Vec<(usize, LiveEditor)>,
    /// What should be shared.
    pub expected: Files,
}

impl Live {
    /// A host with files, and daemons that join it with empty directories.
    pub fn new(ctx: &mut Ctx, peers: usize, files: &[(&str, &str)]) -> Res<Self> {
        let host = Node::new(ctx.fresh_dir(), None);
        for (name, content) in files {
            host.write(name, content);
        }
        let port = host.port();
        let mut nodes = vec![host];
        for _ in 1..peers {
            nodes.push(Node::new(ctx.fresh_dir(), Some(port)));
        }
        let mut live = Self {
            nodes,
            editors: vec![],
            expected: files.iter().map(|(n, c)| (n.to_string(), c.to_string())).collect(),
        };
        for n in &mut live.nodes {
            n.start(false)?;
        }
        live.settle(ctx)?;
        Ok(live)
    }

    fn difference(&mut self) -> Res<Option<String>> {
        for (_, e) in &mut self.editors {
            e.pump()?;
        }
        for (i, n) in self.nodes.iter().enumerate() {
            if n.process.is_none() {
                continue;
            }
            let is_open = |name: &str| self.editors.iter().any(|(j, e)| *j == i && e.open.contains_key(name));
            let mut found = n.files();
            found.retain(|name, _| !is_open(name));
            let mut wanted = self.expected.clone();
            wanted.retain(|name, _| !is_open(name));
            if found != wanted {
                return Ok(Some(format!("daemon {i} has the files {found:?}, expected {wanted:?}")));
            }
        }
        for (i, e) in &self.editors {
            for (name, b) in &e.open {
                if Some(&b.content) != self.expected.get(name) {
                    return Ok(Some(format!(
                        "an editor of daemon {i} shows {:?} for {name}, expected {:?}",
                        b.content,
                        self.expected.get(name)
                    )));
                }
            }
        }
        Ok(None)
    }

    /// Waits until everyone has what is expected.
    pub fn settle(&mut self, ctx: &mut Ctx) -> Res {
        ctx.step();
        let mut last = None;
        let mut failure = None;
        let done = wait_until(SOON, || {
            match self.difference() {
                Ok(None) => return Some(()),
                Ok(d) => last = d,
                Err(e) => {
                    failure = Some(e);
                    return Some(());
                }
            }
            for n in &mut self.nodes {
                if let Err(e) = n.alive() {
                    failure = Some(e);
                    return Some(());
                }
            }
            None
        });
        if let Some(e) = failure {
            return Err(e);
        }
        ensure!(done.is_some(), "{}", last.unwrap_or_default());
        ctx.state(&self.expected);
        Ok(())
    }

    /// What has settled stays as it is.
    pub fn stays(&mut self) -> Res {
        std::thread::sleep(Duration::from_millis(100));
        for n in &mut self.nodes {
            n.alive()?;
        }
        // A file that is written again is empty for a moment.
        if self.difference()?.is_some() {
            std::thread::sleep(Duration::from_millis(400));
        }
        if let Some(d) = self.difference()? {
            fail!("later, {d}");
        }
        Ok(())
    }

    /// Stops a daemon. Its editors lose their connections.
    pub fn stop(&mut self, i: usize) -> Res {
        self.editors.retain(|(j, _)| *j != i);
        self.nodes[i].stop()
    }
}

/// Something that happens at one of the daemons.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// Another program adds something to the file f.
    Write(usize),
    /// Another program creates a file in a new directory.
    New(usize),
    /// Another program removes a file.
    Remove(usize),
    /// Another program renames a file.
    Rename(usize),
    /// An editor opens f, types and closes it.
    Type(usize),
    /// An editor opens f, types and disconnects.
    Hang(usize),
    /// An editor opens a file that does not exist, and closes it.
    OpenNew(usize),
    /// The daemon is stopped and started again. Without the host, all are.
    Restart(usize),
    /// A file is changed while the daemon is stopped.
    Offline(usize),
    /// A file is changed at every daemon while all are stopped.
    OfflineAll,
    /// The daemon is started again and discards its state. If it is the host, all do.
    Fresh(usize),
}

/// Runs daemons through a sequence of operations; everyone has to have the right content after
/// each of them. The operations are chosen before anything is started.
pub fn sequence(ctx: &mut Ctx, peers: usize, ops: &[Op], depth: usize) -> Res {
    // A daemon that starts over with its own files and then joins has all of them in conflict with
    // those of the host. As they have the same content, one cannot see when this is settled, so
    // this comes last.
    let most: Vec<Op> = ops.iter().filter(|o| !matches!(o, Op::Fresh(_))).copied().collect();
    let chosen: Vec<Op> = (1..=depth).map(|i| ctx.pick(if i < depth { &most } else { ops })).collect();
    patiently(ctx, |ctx| {
        let mut w = Live::new(ctx, peers, &[("f", "ab\nc")])?;
        for (i, op) in chosen.iter().enumerate() {
            note!(ctx, "{op:?}");
            w.perform(ctx, *op, i)?;
        }
        w.stays()
    })
}

impl Live {
    fn restart(&mut self, ctx: &mut Ctx, i: usize, init: bool, meanwhile: impl FnOnce(&mut Self)) -> Res {
        let which: Vec<usize> = if i == 0 { (0..self.nodes.len()).collect() } else { vec![i] };
        for j in &which {
            self.stop(*j)?;
        }
        meanwhile(self);
        for j in &which {
            self.nodes[*j].start(init)?;
        }
        self.settle(ctx)
    }

    fn perform(&mut self, ctx: &mut Ctx, op: Op, number: usize) -> Res {
        let token = ["1", "2", "3", "4", "5", "6"][number % 6];
        match op {
            Op::Write(i) => {
                let content = self.expected.get("f").cloned().unwrap_or_default() + token;
                self.nodes[i].write("f", &content);
                self.expected.insert("f".into(), content);
                self.settle(ctx)
            }
            Op::New(i) => {
                let name = format!("d{token}/n");
                let content = format!("new {token}\n");
                self.nodes[i].write(&name, &content);
                self.expected.insert(name, content);
                self.settle(ctx)
            }
            Op::Remove(i) => {
                let Some(name) = self.expected.keys().next().cloned() else { return Ok(()) };
                self.nodes[i].remove(&name);
                self.expected.remove(&name);
                self.settle(ctx)
            }
            Op::Rename(i) => {
                let Some((name, content)) = self.expected.pop_last() else { return Ok(()) };
                let new = format!("r{token}");
                self.nodes[i].watching();
                let p = &self.nodes[i].project;
                std::fs::rename(p.join(&name), p.join(&new)).unwrap();
                self.expected.insert(new, content);
                self.settle(ctx)
            }
            Op::Type(i) | Op::Hang(i) => {
                let old = self.expected.get("f").cloned().unwrap_or_default();
                let mut e = self.nodes[i].connect()?;
                e.open("f")?;
                e.type_text("f", 0, 0, token)?;
                self.editors.push((i, e));
                self.expected.insert("f".into(), format!("{token}{old}"));
                self.settle(ctx)?;
                if op == Op::Type(i) {
                    self.editors.last_mut().unwrap().1.close("f")?;
                    self.settle(ctx)?;
                }
                self.editors.pop();
                self.settle(ctx)
            }
            Op::OpenNew(i) => {
                let name = format!("o{token}");
                let mut e = self.nodes[i].connect()?;
                e.open(&name)?;
                self.expected.insert(name.clone(), String::new());
                self.editors.push((i, e));
                self.settle(ctx)?;
                self.editors.last_mut().unwrap().1.close(&name)?;
                self.settle(ctx)?;
                self.editors.pop();
                self.settle(ctx)
            }
            Op::Restart(i) => self.restart(ctx, i, false, |_| {}),
            Op::Offline(i) => self.restart(ctx, i, false, |w| {
                let content = w.expected.get("f").cloned().unwrap_or_default() + token;
                w.nodes[i].write("f", &content);
                w.expected.insert("f".into(), content);
            }),
            Op::OfflineAll => self.restart(ctx, 0, false, |w| {
                let old = w.expected.get("f").cloned().unwrap_or_default();
                if old.is_empty() {
                    // Where nothing is left, it is open whose text comes first.
                    return;
                }
                // At the beginning, at the end, and in another file.
                w.nodes[0].write("f", &format!("{token}{old}"));
                w.nodes[1].write("f", &format!("{old}{token}"));
                w.expected.insert("f".into(), format!("{token}{old}{token}"));
                for n in 2..w.nodes.len() {
                    let name = format!("offline{n}");
                    w.nodes[n].write(&name, token);
                    w.expected.insert(name, token.into());
                }
            }),
            Op::Fresh(i) => self.restart(ctx, i, true, |_| {}),
        }
    }
}

/// Forwards TCP connections to a port. The first one only gets so far.
struct Proxy {
    port: u16,
    shared: std::sync::Arc<ProxyState>,
}

struct ProxyState {
    /// What ends the first connection: bytes towards the host (or from it), and whether it is
    /// closed or just stands still.
    to_host: bool,
    bytes: usize,
    close: bool,
    reached: AtomicBool,
    over: AtomicBool,
    seen: [AtomicUsize; 2],
}

impl Drop for Proxy {
    fn drop(&mut self) {
        self.shared.over.store(true, Ordering::Relaxed);
    }
}

impl Proxy {
    fn start(target: u16, to_host: bool, bytes: usize, close: bool) -> Self {
        let listener = loop {
            if let Ok(l) = TcpListener::bind(("127.0.0.1", fresh_port())) {
                break l;
            }
        };
        let port = listener.local_addr().unwrap().port();
        listener.set_nonblocking(true).unwrap();
        let shared = std::sync::Arc::new(ProxyState {
            to_host,
            bytes,
            close,
            reached: AtomicBool::new(false),
            over: AtomicBool::new(false),
            seen: [AtomicUsize::new(0), AtomicUsize::new(0)],
        });
        let state = shared.clone();
        std::thread::spawn(move || {
            let mut first = true;
            while !state.over.load(Ordering::Relaxed) {
                let Ok((client, _)) = listener.accept() else {
                    std::thread::sleep(Duration::from_millis(3));
                    continue;
                };
                let Ok(host) = TcpStream::connect(("127.0.0.1", target)) else { continue };
                for to_host in [true, false] {
                    let (from, to) = if to_host { (&client, &host) } else { (&host, &client) };
                    let (from, to) = (from.try_clone().unwrap(), to.try_clone().unwrap());
                    let state = state.clone();
                    let limited = first;
                    std::thread::spawn(move || state.forward(from, to, to_host, limited));
                }
                first = false;
            }
        });
        Self { port, shared }
    }
}

impl ProxyState {
    fn forward(&self, mut from: TcpStream, mut to: TcpStream, to_host: bool, limited: bool) {
        from.set_nonblocking(false).unwrap();
        from.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
        let _ = to.set_nodelay(true);
        let mut chunk = [0; 4096];
        let mut count = 0;
        while !self.over.load(Ordering::Relaxed) {
            if limited && to_host == self.to_host && count == self.bytes && !self.reached.load(Ordering::Relaxed) {
                // Let the last bytes have their effect.
                std::thread::sleep(Duration::from_millis(30));
                if self.close {
                    let _ = from.shutdown(std::net::Shutdown::Both);
                    let _ = to.shutdown(std::net::Shutdown::Both);
                }
                self.reached.store(true, Ordering::Relaxed);
            }
            if limited && self.reached.load(Ordering::Relaxed) {
                if self.close {
                    return;
                }
                std::thread::sleep(Duration::from_millis(20));
                continue;
            }
            let n = match from.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => n,
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => continue,
                Err(_) => break,
            };
            let end = if limited && to_host == self.to_host { n.min(self.bytes - count) } else { n };
            count += end;
            if limited {
                self.seen[to_host as usize].store(count, Ordering::Relaxed);
            }
            if to.write_all(&chunk[..end]).is_err() {
                break;
            }
            // There is more, but it will not get through.
            if end < n {
                continue;
            }
        }
        let _ = from.shutdown(std::net::Shutdown::Both);
        let _ = to.shutdown(std::net::Shutdown::Both);
    }
}

fn soon_has(node: &mut Node, name: &str, content: &str, why: &str) -> Res {
    let found = wait_until(SOON, || (node.files().get(name).map(|c| c.as_str()) == Some(content)).then_some(()));
    node.alive()?;
    ensure!(found.is_some(), "{why}: {name} does not arrive; {}", node.said());
    Ok(())
}

/// A connection between two daemons ends or stands still after any number of bytes. Both of them
/// have to be able to work with others, and with each other when they connect again.
pub fn interrupted(ctx: &mut Ctx, points: &[usize]) -> Res {
    let bytes = ctx.pick(points);
    let to_host = ctx.flip();
    let close = ctx.flip();
    let at_host = ctx.flip();
    patiently(ctx, |ctx| {
        let mut host = Node::new(ctx.fresh_dir(), None);
        host.write("f", "ab\nc");
        host.start(false)?;
        let proxy = Proxy::start(host.port(), to_host, bytes, close);
        let mut peer = Node::new(ctx.fresh_dir(), Some(proxy.port));
        peer.start(false)?;
        let state = proxy.shared.clone();
        let done = wait_until(SOON, || {
            let synchronized = || {
                let sizes = || (state.seen[0].load(Ordering::Relaxed), state.seen[1].load(Ordering::Relaxed));
                let before = sizes();
                std::thread::sleep(Duration::from_millis(50));
                peer.files().contains_key("f") && before == sizes()
            };
            if state.reached.load(Ordering::Relaxed) {
                Some(true)
            } else {
                synchronized().then_some(false)
            }
        });
        ctx.step();
        host.alive()?;
        peer.alive()?;
        ensure!(done.is_some(), "the daemons do not synchronize; {}", peer.said());
        if done == Some(false) {
            ctx.outcome("all was said");
            return Ok(());
        }
        note!(
            ctx,
            "{} after {bytes} bytes {} the host; then another daemon joins {}",
            if close { "closed" } else { "stuck" },
            if to_host { "to" } else { "from" },
            if at_host { "the host" } else { "the peer" }
        );
        let old = if at_host { &mut host } else { &mut peer };
        let mut other = Node::new(ctx.fresh_dir(), Some(old.port()));
        other.start(false)?;
        if at_host {
            soon_has(&mut other, "f", "ab\nc", "another daemon joins after an interruption")?;
        }
        other.write("new", "n");
        soon_has(old, "new", "n", "another daemon joined after an interruption")?;
        old.write("old", "o");
        soon_has(&mut other, "old", "o", "another daemon joined after an interruption")?;
        ctx.step();
        if close {
            // The same daemon comes back.
            peer.stop()?;
            peer.start(false)?;
            soon_has(&mut peer, "f", "ab\nc", "the peer came back after an interruption")?;
            peer.write("back", "b");
            soon_has(&mut host, "back", "b", "the peer came back after an interruption")?;
            ctx.step();
        }
        for n in [&mut host, &mut peer, &mut other] {
            n.alive()?;
        }
        ctx.outcome("interrupted");
        ctx.state(&(bytes, to_host, close, at_host));
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------
// Killed programs

/// A daemon ends at the chosen call that changes a file, wherever that happens; it and another one
/// must come up again and agree.
pub fn killed(ctx: &mut Ctx, calls: usize, times: usize, joins: bool) -> Res {
    let crashes: Vec<(usize, usize)> = (0..times).map(|_| (ctx.choose(calls), ctx.choose(3))).collect();
    patiently(ctx, |ctx| {
        let files = [("f", "one\ntwo\n"), ("d/g", "three")];
        let mut host = Node::new(ctx.fresh_dir(), None);
        let mut joiner = Node::new(ctx.fresh_dir(), Some(host.port()));
        for (name, content) in files {
            host.write(name, content);
        }
        if joins {
            host.start(false)?;
        }
        let mut reached = 0;
        for crash in &crashes {
            let n = if joins { &mut joiner } else { &mut host };
            n.crash = Some(*crash);
            // What fails now fails because the program ends.
            let result = n.start(false).and_then(|()| if joins { join_history(n) } else { host_history(n) });
            if let Err(e) = result {
                note!(ctx, "{}", e.what);
            }
            if let Some(p) = &mut n.process {
                // If it still runs, it has not come to that call.
                let stopped = p.ended();
                if stopped.is_none() {
                    unsafe { libc::kill(p.child.id() as i32, libc::SIGINT) };
                    ensure!(wait_until(SOON, || p.ended()).is_some(), "the daemon does not stop: {}", p.said());
                }
            }
            if n.process.take().is_none_or(|mut p| p.ended() == Some(-1)) {
                reached += 1;
            }
            n.crash = None;
            ctx.step();
        }
        ctx.outcome(&format!("killed {reached} times"));
        if joins {
            host.alive()?;
            joiner.start(false)?;
            let same = wait_until(SOON, || {
                (joiner.files() == host.files() && joiner.files().len() == files.len()).then_some(())
            });
            ensure!(
                same.is_some(),
                "the peer has {:?}, the host has {:?}: {}",
                joiner.files(),
                host.files(),
                joiner.said()
            );
        } else {
            host.start(false)?;
            let on_disk = host.files();
            ctx.state(&on_disk);
            joiner.start(false)?;
            let same = wait_until(SOON, || (joiner.files() == on_disk).then_some(()));
            ensure!(same.is_some(), "the peer has {:?}, the host has {on_disk:?}: {}", joiner.files(), host.said());
            ensure!(host.files() == on_disk, "the host had {on_disk:?} and has {:?}", host.files());
        }
        // Go on, and save again.
        host.write("later", "text");
        let came = wait_until(SOON, || (joiner.files().get("later").map(|s| s.as_str()) == Some("text")).then_some(()));
        ensure!(came.is_some(), "a new file does not reach the peer: {} {}", host.said(), joiner.said());
        let all = host.files();
        for n in [&mut joiner, &mut host] {
            n.stop()?;
        }
        host.start(false)?;
        joiner.start(false)?;
        std::thread::sleep(Duration::from_millis(100));
        for n in [&mut host, &mut joiner] {
            n.alive()?;
            ensure!(n.files() == all, "there was {all:?}, after another restart {:?}", n.files());
        }
        Ok(())
    })
}

fn host_history(n: &mut Node) -> Res {
    let mut e = n.connect()?;
    e.open("f")?;
    e.type_text("f", 0, 0, "zero ")?;
    e.close("f")?;
    n.write("new", "from disk");
    e.open("d/g")?;
    e.type_text("d/g", 5, 0, "!")?;
    e.close("d/g")?;
    Ok(())
}

fn join_history(n: &mut Node) -> Res {
    wait_until(Duration::from_secs(3), || (n.files().len() == 2 || n.alive().is_err()).then_some(()));
    Ok(())
}
