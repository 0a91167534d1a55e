//! C23 and C26: the VS Code extension. Each worker runs the extension of the current tree in Node, in
//! a stand-in for the process that runs extensions (editors/vscode.js); MC_EXTENSION names the
//! translated extension. The main process of VS Code, which owns the documents, is modelled here:
//! changes are announced to the extension by messages, and a requested change is carried out only
//! if the extension knew the current version.

use ethersync::ot::OTServer;
use ethersync::types::{
    EditorTextDelta, EditorTextOp, Position, Range, RevisionedEditorTextDelta, TextDelta, TextOp,
};
use mc::text::{self, Edit};
use mc::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

const PATIENCE: Duration = Duration::from_secs(60);

fn main() {
    let o = parse_args();
    let scenarios = match o.property.as_str() {
        "C23" => c23(o.tier),
        "C26" => c26(o.tier),
        other => engine_error(&format!("unknown property {other}")),
    };
    run_check(
        &o,
        "model_checking",
        &[
            "VS Code itself is modelled: it announces changes in order, refuses to change a document \
             of which the extension knew an older version, and answers after announcing the change",
            "documents with line feeds as line endings",
        ],
        scenarios,
    );
}

// ------------------------------------------------------------------ the extension

struct Node {
    child: Child,
    commands: ChildStdin,
    answers: mpsc::Receiver<String>,
}

impl Node {
    fn start() -> Self {
        let extension = std::env::var("MC_EXTENSION").unwrap_or_default();
        let mut child = Command::new("node")
            .arg(verif_dir().join("editors/vscode.js"))
            .arg(extension)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| engine_error(&format!("cannot start node: {e}")));
        let commands = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (send, receive) = mpsc::channel();
        std::thread::spawn(move || {
            for line in BufReader::new(stdout).lines() {
                let Ok(line) = line else { break };
                if send.send(line).is_err() {
                    break;
                }
            }
        });
        Node {
            child,
            commands,
            answers: receive,
        }
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

/// Executes one command; returns what the extension did.
fn run(command: Value) -> Res<Vec<Value>> {
    Ok(run_all(command)?["did"].as_array().cloned().unwrap_or_default())
}

fn run_all(command: Value) -> Res<Value> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(Node::start);
        if writeln!(node.commands, "{command}").is_err() {
            *n = None;
            fail!("the extension stopped its process");
        }
        let mut waited = Duration::ZERO;
        loop {
            match node.answers.recv_timeout(Duration::from_millis(200)) {
                Ok(line) => {
                    let v: Value = serde_json::from_str(&line)
                        .map_err(|e| Violation::new(format!("{e}: {line}")))?;
                    return Ok(v);
                }
                Err(_) => {
                    waited += Duration::from_millis(200);
                    let gone = !matches!(node.child.try_wait(), Ok(None));
                    if gone || waited > PATIENCE {
                        *n = None;
                        fail!("the extension {} on {command}", if gone { "stopped" } else { "hangs" });
                    }
                }
            }
        }
    })
}

fn project() -> PathBuf {
    let dir = scratch_root().join("project");
    let _ = std::fs::create_dir_all(dir.join(".ethersync"));
    dir
}

// ------------------------------------------------------------------ meaning

type Utf16 = (usize, usize);

fn utf16_position(content: &str, offset: usize) -> Utf16 {
    let mut p = (0, 0);
    for c in content.chars().take(offset) {
        if c == '\n' {
            p = (p.0 + 1, 0);
        } else {
            p.1 += c.len_utf16();
        }
    }
    p
}

fn utf16_offset(content: &str, p: Utf16) -> Option<usize> {
    (0..=text::len(content)).find(|o| utf16_position(content, *o) == p)
}

/// A change in a document: characters s..t are replaced.
#[derive(Clone, Debug, PartialEq)]
struct Change {
    s: usize,
    t: usize,
    text: String,
}

fn change(s: usize, t: usize, text: &str) -> Change {
    Change {
        s,
        t,
        text: text.into(),
    }
}

/// Applies changes that refer to the same text and do not overlap.
fn apply(content: &str, changes: &[Change]) -> String {
    let mut sorted: Vec<&Change> = changes.iter().collect();
    sorted.sort_by_key(|c| (c.s, c.t));
    let mut out = content.to_string();
    for c in sorted.iter().rev() {
        out = text::splice(&out, c.s, c.t - c.s, &c.text);
    }
    out
}

fn changes_json(content: &str, changes: &[Change]) -> Value {
    Value::Array(
        changes
            .iter()
            .map(|c| {
                let (s, t) = (utf16_position(content, c.s), utf16_position(content, c.t));
                json!({"range": [[s.0, s.1], [t.0, t.1]], "text": c.text})
            })
            .collect(),
    )
}

/// The changes as VS Code announces them: from the end of the document to its start, without those
/// that change nothing.
fn announced(changes: &[Change]) -> Vec<Change> {
    let mut list: Vec<Change> = changes.iter().filter(|c| c.t > c.s || !c.text.is_empty()).cloned().collect();
    list.sort_by(|a, b| (b.s, b.t).cmp(&(a.s, a.t)));
    list
}

/// Leaves out what a replacement has in common with what it replaces.
fn minimal(content: &str, c: &Change) -> Change {
    let chars: Vec<char> = content.chars().collect();
    let new: Vec<char> = c.text.chars().collect();
    let (mut s, mut t, mut a, mut b) = (c.s, c.t, 0, new.len());
    while s < t && a < b && chars[s] == new[a] {
        s += 1;
        a += 1;
    }
    while s < t && a < b && chars[t - 1] == new[b - 1] {
        t -= 1;
        b -= 1;
    }
    Change {
        s,
        t,
        text: new[a..b].iter().collect(),
    }
}

fn edits_of(delta: &Value) -> Res<Vec<Edit>> {
    let position = |p: &Value| -> Option<(usize, usize)> {
        Some((p["line"].as_u64()? as usize, p["character"].as_u64()? as usize))
    };
    let Some(list) = delta.as_array() else {
        fail!("not a delta: {delta}");
    };
    list.iter()
        .map(|op| {
            (|| {
                Some(Edit {
                    start: position(&op["range"]["start"])?,
                    end: position(&op["range"]["end"])?,
                    text: op["replacement"].as_str()?.to_string(),
                })
            })()
            .ok_or_else(|| Violation::new(format!("not an operation: {op}")))
        })
        .collect()
}

fn delta_of(edits: &[Edit]) -> Value {
    Value::Array(
        edits
            .iter()
            .map(|e| {
                json!({
                    "range": {
                        "start": {"line": e.start.0, "character": e.start.1},
                        "end": {"line": e.end.0, "character": e.end.1},
                    },
                    "replacement": e.text,
                })
            })
            .collect(),
    )
}

fn ed_delta(edits: &[Edit]) -> EditorTextDelta {
    let position = |p: (usize, usize)| Position {
        line: p.0,
        character: p.1,
    };
    EditorTextDelta(
        edits
            .iter()
            .map(|e| EditorTextOp {
                range: Range {
                    start: position(e.start),
                    end: position(e.end),
                },
                replacement: e.text.clone(),
            })
            .collect(),
    )
}

// ------------------------------------------------------------------ VS Code

#[derive(Clone, Debug)]
enum Announcement {
    Changed { changes: Value, text: String },
    Applied { id: u64, worked: bool },
}

struct Request {
    id: u64,
    version: Option<u64>,
    changes: Result<Vec<Change>, String>,
}

/// The main process, with one document, and what is under way between it, the extension and the
/// daemon.
struct Code {
    path: String,
    text: String,
    version: u64,
    to_extension: VecDeque<Announcement>,
    requests: VecDeque<Request>,
    to_daemon: VecDeque<(String, Value)>,
    opens: Vec<(u64, String)>,
    errors: Vec<String>,
    /// Whether replacements are reduced before they are applied, as in the active editor.
    minimize: bool,
}

impl Code {
    fn new(path: PathBuf, content: &str) -> Code {
        Code {
            path: path.to_str().unwrap().to_string(),
            text: content.to_string(),
            version: 1,
            to_extension: VecDeque::new(),
            requests: VecDeque::new(),
            to_daemon: VecDeque::new(),
            opens: vec![],
            errors: vec![],
            minimize: false,
        }
    }

    fn uri(&self) -> String {
        format!("file://{}", self.path)
    }

    /// Takes note of what the extension did.
    fn did(&mut self, list: Vec<Value>) -> Res {
        for v in list {
            match v["what"].as_str().unwrap_or("") {
                "request" => {
                    let method = v["method"].as_str().unwrap_or("").to_string();
                    if method == "open" {
                        let uri = v["params"]["uri"].as_str().unwrap_or("").to_string();
                        self.opens.push((v["id"].as_u64().unwrap_or(0), uri));
                    } else {
                        self.to_daemon.push_back((method, v["params"].clone()));
                    }
                }
                "notification" => {
                    let method = v["method"].as_str().unwrap_or("").to_string();
                    self.to_daemon.push_back((method, v["params"].clone()));
                }
                "apply" => {
                    let entries = v["entries"].as_array().cloned().unwrap_or_default();
                    // Changes that fit the version the extension knows. They are looked at when
                    // the main process gets to it.
                    let id = v["id"].as_u64().unwrap_or(0);
                    let version = entries.first().and_then(|e| e["version"].as_u64());
                    let other = entries.iter().find(|e| e["path"] != json!(self.path));
                    let changes = match other {
                        Some(e) => Err(format!("a change of another document was requested: {e}")),
                        None => Ok(()),
                    };
                    let raw: Vec<Value> = entries
                        .iter()
                        .flat_map(|e| e["edits"].as_array().cloned().unwrap_or_default())
                        .collect();
                    self.requests.push_back(Request {
                        id,
                        version,
                        changes: changes.and_then(|_| {
                            raw.iter()
                                .map(|e| {
                                    let p = |i: usize| -> Option<Utf16> {
                                        Some((e["range"][i][0].as_u64()? as usize, e["range"][i][1].as_u64()? as usize))
                                    };
                                    // Offsets into the version the request is about; see `process`.
                                    let (Some(a), Some(b)) = (p(0), p(1)) else {
                                        return Err(format!("not a change: {e}"));
                                    };
                                    Ok(Change {
                                        s: a.0 << 32 | a.1,
                                        t: b.0 << 32 | b.1,
                                        text: e["text"].as_str().unwrap_or("").to_string(),
                                    })
                                })
                                .collect()
                        }),
                    });
                }
                "error" => self.errors.push(v["message"].as_str().unwrap_or("").to_string()),
                _ => (),
            }
        }
        Ok(())
    }

    fn start(&mut self) -> Res {
        let did = run(json!({"what": "start", "documents": [{"path": self.path, "text": self.text}]}))?;
        self.did(did)
    }

    fn opened(path: PathBuf, content: &str) -> Res<Code> {
        let mut code = Code::new(path, content);
        code.start()?;
        code.answer_open(true)?;
        Ok(code)
    }

    fn answer_open(&mut self, accept: bool) -> Res {
        ensure!(
            self.opens.len() == 1 && self.opens[0].1 == self.uri(),
            "opening {:?} was reported as {:?}",
            self.path,
            self.opens
        );
        let (id, _) = self.opens.remove(0);
        let did = run(json!({"what": "answer", "id": id, "value": "success", "error": !accept}))?;
        self.did(did)
    }

    /// The document changes, and that will be announced.
    fn change(&mut self, changes: &[Change]) {
        let list = announced(changes);
        if list.is_empty() {
            return;
        }
        let changes = changes_json(&self.text, &list);
        self.text = apply(&self.text, &list);
        self.version += 1;
        self.to_extension.push_back(Announcement::Changed {
            changes,
            text: self.text.clone(),
        });
    }

    /// The main process looks at the next requested change. The answer is sent separately.
    fn process(&mut self, refuse: bool) -> Res<(u64, bool)> {
        let r = self.requests.pop_front().unwrap();
        let raw = r.changes.map_err(Violation::new)?;
        let worked = !refuse && r.version == Some(self.version);
        if worked {
            let mut changes = vec![];
            for c in raw {
                let p = |x: usize| (x >> 32, x & 0xffff_ffff);
                let (Some(s), Some(t)) = (utf16_offset(&self.text, p(c.s)), utf16_offset(&self.text, p(c.t))) else {
                    fail!("the extension wants to change {:?} to {:?}, which does not exist in {:?}", p(c.s), p(c.t), self.text);
                };
                let c = Change { s, t, text: c.text };
                changes.push(if self.minimize { minimal(&self.text, &c) } else { c });
            }
            self.change(&changes);
        }
        Ok((r.id, worked))
    }

    /// The extension receives the next message of the main process.
    fn deliver(&mut self) -> Res {
        match self.to_extension.pop_front().unwrap() {
            Announcement::Changed { changes, text } => {
                let did = run(json!({"what": "change", "path": self.path, "changes": changes, "text": text}))?;
                self.did(did)
            }
            Announcement::Applied { id, worked } => {
                let did = run(json!({"what": "answer", "id": id, "value": worked}))?;
                self.did(did)
            }
        }
    }

    /// Everything between the main process and the extension settles.
    fn settle(&mut self) -> Res {
        loop {
            if !self.to_extension.is_empty() {
                self.deliver()?;
            } else if !self.requests.is_empty() {
                let (id, worked) = self.process(false)?;
                self.to_extension.push_back(Announcement::Applied { id, worked });
            } else {
                return Ok(());
            }
        }
    }

    fn from_daemon(&mut self, edits: &[Edit], revision: u64) -> Res {
        let params = json!({"uri": self.uri(), "revision": revision, "delta": delta_of(edits)});
        let did = run(json!({"what": "daemon", "method": "edit", "params": params}))?;
        self.did(did)
    }

    /// The edits sent to the daemon since the last time.
    fn sent(&mut self) -> Res<Vec<(u64, Vec<Edit>)>> {
        let uri = self.uri();
        let list: Vec<_> = self.to_daemon.drain(..).collect();
        list.into_iter()
            .filter(|(method, _)| method == "edit")
            .map(|(_, m)| {
                ensure!(m["uri"] == json!(uri), "an edit of {uri:?} was reported as {m}");
                Ok((m["revision"].as_u64().unwrap_or(u64::MAX), edits_of(&m["delta"])?))
            })
            .collect()
    }

    /// What was sent must turn `before` into the present text.
    fn explained(&mut self, ctx: &mut Ctx, what: &str, before: &str, revision: u64) -> Res<u64> {
        let sent = self.sent()?;
        note!(ctx, "{what} on {before:?} gives {:?}; sent {sent:?} {:?}", self.text, self.errors);
        let mut content = before.to_string();
        for (r, edits) in &sent {
            ensure!(
                *r == revision,
                "{what} on {before:?} was sent for revision {r}, but {revision} edits of the daemon were applied"
            );
            content = match text::apply(&content, edits) {
                Ok(c) => c,
                Err(e) => fail!("{what} on {before:?} gave {:?}, but the extension reported {sent:?}: {e}", self.text),
            };
        }
        ensure!(
            content == self.text,
            "{what} on {before:?} gave {:?}, but the extension reported {sent:?}, which gives {content:?}; errors: {:?}",
            self.text,
            self.errors
        );
        ctx.step();
        Ok(sent.len() as u64)
    }
}

// ------------------------------------------------------------------ scenarios

const ALPHABET: &[char] = &['a', '🥕', '\n', 'ä'];

fn pick_text(ctx: &mut Ctx, alphabet: &[char], max: usize) -> String {
    let mut s = String::new();
    while s.chars().count() < max {
        let i = ctx.choose(alphabet.len() + 1);
        if i == 0 {
            break;
        }
        s.push(alphabet[i - 1]);
    }
    s
}

fn pick_range(ctx: &mut Ctx, content: &str, from: usize) -> (usize, usize) {
    let n = text::len(content);
    let s = from + ctx.choose(n - from + 1);
    let t = s + ctx.choose(n - s + 1);
    (s, t)
}

/// The user changes one or two places of a document at once.
fn user_changes(ctx: &mut Ctx, max: usize, places: usize, texts: &[&str]) -> Res {
    let content = pick_text(ctx, ALPHABET, max);
    let mut changes: Vec<Change> = vec![];
    let mut from = 0;
    for i in 0..places {
        let (s, t) = pick_range(ctx, &content, from);
        if i > 0 && s == from && s == t {
            // Cursors in the same place are merged.
            return Ok(());
        }
        changes.push(change(s, t, ctx.pick(texts)));
        from = t;
    }
    if announced(&changes).is_empty() {
        return Ok(());
    }
    let mut code = Code::opened(project().join("f"), &content)?;
    let before = code.text.clone();
    code.change(&changes);
    code.settle()?;
    code.explained(ctx, &format!("{changes:?}"), &before, 0)?;
    // Later changes are reported relative to the new text.
    let before = code.text.clone();
    let n = text::len(&before);
    code.change(&[change(n, n, "w")]);
    code.settle()?;
    code.explained(ctx, "typing w at the end", &before, 0)?;
    ctx.state(&code.text);
    Ok(())
}

/// The daemon changes one or two places.
fn daemon_changes(ctx: &mut Ctx, max: usize, places: usize, texts: &[&str]) -> Res {
    let content = pick_text(ctx, ALPHABET, max);
    let mut edits = vec![];
    let mut changes: Vec<Change> = vec![];
    let mut from = 0;
    for i in 0..places {
        let (s, t) = pick_range(ctx, &content, from);
        let new = ctx.pick(texts);
        if (s == t && new.is_empty() && places > 1) || (i > 0 && s == from && s == t && changes[0].s == s) {
            return Ok(());
        }
        edits.push(text::edit_at(&content, s, t - s, new));
        changes.push(change(s, t, new));
        from = t;
    }
    let current = !ctx.flip();
    let minimize = current && ctx.flip();
    let mut code = Code::opened(project().join("f"), &content)?;
    code.minimize = minimize;
    note!(ctx, "edit {edits:?} on {content:?}, for {} revision, {}", if current { "the current" } else { "another" }, if minimize { "reduced" } else { "as it is" });
    code.from_daemon(&edits, if current { 0 } else { 1 })?;
    code.settle()?;
    let expected = if current { apply(&content, &changes) } else { content.clone() };
    ensure!(
        code.text == expected,
        "edit {edits:?} for {} revision turned {content:?} into {:?} instead of {expected:?}; errors: {:?}",
        if current { "the current" } else { "another" },
        code.text,
        code.errors
    );
    let sent = code.sent()?;
    ensure!(sent.is_empty(), "edit {edits:?} on {content:?} was sent back: {sent:?}");
    ctx.step();
    // A change by the user is then reported relative to the new text, even if it is the same.
    let revision = if current { 1 } else { 0 };
    let before = code.text.clone();
    let fits = changes.iter().all(|c| c.t <= text::len(&before));
    let typed = if fits && !announced(&changes[..1]).is_empty() {
        changes[..1].to_vec()
    } else {
        vec![change(0, 0, "w")]
    };
    code.change(&typed);
    code.settle()?;
    code.explained(ctx, &format!("{typed:?}"), &before, revision)?;
    ctx.state(&code.text);
    ctx.outcome(if current { "applied" } else { "refused" });
    Ok(())
}

fn apply_text_delta(content: &str, delta: &TextDelta) -> Result<String, String> {
    let chars: Vec<char> = content.chars().collect();
    let mut at = 0;
    let mut out = String::new();
    for op in &delta.0 {
        match op {
            TextOp::Retain(n) => {
                out.extend(chars.get(at..at + n).ok_or("retains beyond the end")?);
                at += n;
            }
            TextOp::Insert(s) => out.push_str(s),
            TextOp::Delete(n) => at += n,
        }
    }
    out.extend(chars.get(at..).ok_or("deletes beyond the end")?);
    Ok(out)
}

fn small_changes(content: &str, token: &str) -> Vec<Vec<Change>> {
    let n = text::len(content);
    let mut list = vec![vec![change(0, 0, token)]];
    if n > 0 {
        list.push(vec![change(n, n, token)]);
        list.push(vec![change(0, 1, "")]);
        list.push(vec![change(0, n, "")]);
    }
    if n > 1 {
        list.push(vec![change(0, 1, ""), change(n, n, token)]);
    }
    list
}

#[derive(Clone, Copy)]
struct Plan {
    initial: &'static str,
    typed: usize,
    foreign: usize,
    refusals: usize,
    /// How many kinds of changes each side makes.
    kinds: usize,
    tokens: (&'static str, &'static str),
}

/// Changes of the user and of others, with every order in which the messages between the main
/// process, the extension and the daemon arrive.
fn schedules(ctx: &mut Ctx, p: Plan) -> Res {
    let mut code = Code::opened(project().join("f"), p.initial)?;
    let mut server = OTServer::new(p.initial.to_string());
    let mut document = p.initial.to_string();
    let mut to_editor: VecDeque<RevisionedEditorTextDelta> = VecDeque::new();
    let (mut typed, mut foreign, mut refusals) = (0, 0, 0);
    let mut answer: Option<(u64, bool)> = None;
    let mut asleep = vec![];
    let mut refused = 0;
    let mut steps = 0;
    loop {
        let mut enabled = vec![];
        if !code.to_extension.is_empty() {
            enabled.push('v');
        }
        if !to_editor.is_empty() {
            enabled.push('y');
        }
        if !code.to_daemon.is_empty() {
            enabled.push('x');
        }
        if !code.requests.is_empty() && answer.is_none() {
            enabled.push('m');
            if refusals < p.refusals {
                enabled.push('n');
            }
        }
        if answer.is_some() {
            enabled.push('r');
        }
        if typed < p.typed {
            enabled.push('e');
        }
        if foreign < p.foreign {
            enabled.push('d');
        }
        if enabled.is_empty() {
            break;
        }
        // The main process (e, m, n, r), the extension (v, y) and the daemon (d, x) only meet in
        // queues.
        let side = |a: &char| match a {
            'e' | 'm' | 'n' | 'r' => 0,
            'v' | 'y' => 1,
            _ => 2,
        };
        let Some(action) = ctx.choose_action(&enabled, &mut asleep, |a, b| side(a) != side(b)) else {
            ctx.outcome("redundant interleaving cut off");
            return Ok(());
        };
        ctx.step();
        match action {
            'e' => {
                typed += 1;
                let mut list = small_changes(&code.text, p.tokens.0);
                list.truncate(p.kinds);
                let changes = ctx.pick(&list);
                note!(ctx, "user makes {changes:?} in {:?}", code.text);
                code.change(&changes);
            }
            'm' | 'n' => {
                if action == 'n' {
                    refusals += 1;
                }
                let (id, worked) = code.process(action == 'n')?;
                note!(ctx, "VS Code {} the change, text is now {:?}", if worked { "makes" } else { "refuses" }, code.text);
                if !worked {
                    refused += 1;
                }
                answer = Some((id, worked));
            }
            'r' => {
                let (id, worked) = answer.take().unwrap();
                code.to_extension.push_back(Announcement::Applied { id, worked });
            }
            'v' => {
                note!(ctx, "extension learns {:?}", code.to_extension[0]);
                code.deliver()?;
            }
            'd' => {
                foreign += 1;
                let mut list = small_changes(&document, p.tokens.1);
                list.truncate(p.kinds);
                let changes = ctx.pick(&list);
                let mut delta = TextDelta::default();
                let mut at = 0;
                for c in &changes {
                    delta.retain(c.s - at);
                    delta.delete(c.t - c.s);
                    delta.insert(&c.text);
                    at = c.t;
                }
                note!(ctx, "foreign change {changes:?} of {document:?}");
                document = apply(&document, &changes);
                to_editor.push_back(server.apply_crdt_change(&delta));
            }
            'x' => {
                let (method, m) = code.to_daemon.pop_front().unwrap();
                if method != "edit" {
                    continue;
                }
                note!(ctx, "daemon receives {m}");
                let (delta, again) = server.apply_editor_operation(RevisionedEditorTextDelta {
                    revision: m["revision"].as_u64().unwrap_or(0) as usize,
                    delta: ed_delta(&edits_of(&m["delta"])?),
                });
                document = apply_text_delta(&document, &delta)
                    .map_err(|e| Violation::new(format!("{delta:?} on {document:?} {e}")))?;
                to_editor.extend(again);
            }
            _ => {
                let m = to_editor.pop_front().unwrap();
                let edits: Vec<Edit> = m
                    .delta
                    .0
                    .iter()
                    .map(|o| Edit {
                        start: (o.range.start.line, o.range.start.character),
                        end: (o.range.end.line, o.range.end.character),
                        text: o.replacement.clone(),
                    })
                    .collect();
                note!(ctx, "extension receives {edits:?} for revision {}", m.revision);
                code.from_daemon(&edits, m.revision as u64)?;
            }
        }
        ctx.state(&(&code.text, &document, code.to_daemon.len(), to_editor.len(), code.to_extension.len()));
        steps += 1;
        ensure!(steps < 60, "editor and daemon do not come to rest: {:?} and {document:?}", code.text);
    }
    ensure!(
        code.text == document,
        "the editor shows {:?}, but the document is {document:?}; errors: {:?}",
        code.text,
        code.errors
    );
    ctx.outcome(if refused > 0 { "some change refused by VS Code" } else { "no change refused" });
    Ok(())
}

/// Changes around the daemon's answer to opening a document.
fn opening(ctx: &mut Ctx, depth: usize) -> Res {
    let content = ctx.pick(&["", "a\n🥕"]);
    let accept = !ctx.flip();
    let mut code = Code::new(project().join("f"), content);
    if ctx.flip() {
        code.start()?;
    } else {
        let did = run(json!({"what": "start"}))?;
        code.did(did)?;
        let did = run(json!({"what": "open", "path": code.path, "text": code.text}))?;
        code.did(did)?;
    }
    let answered = ctx.choose(depth + 1);
    for i in 0..=depth {
        if i == answered {
            note!(ctx, "the daemon {} opening", if accept { "accepts" } else { "refuses" });
            code.answer_open(accept)?;
            if !accept {
                code.sent()?;
            }
            continue;
        }
        match ctx.choose(3) {
            0 => {
                code.change(&[change(0, 0, "x")]);
                code.settle()?;
                if !accept && i > answered {
                    let sent = code.sent()?;
                    ensure!(sent.is_empty(), "edits of a file that is not shared were sent: {sent:?}");
                }
            }
            1 => {
                let n = text::len(&code.text);
                if n > 0 {
                    code.change(&[change(n - 1, n, "")]);
                    code.settle()?;
                }
            }
            _ => {
                note!(ctx, "closed");
                let did = run(json!({"what": "close", "path": code.path}))?;
                code.did(did)?;
                let closed = code.to_daemon.iter().filter(|m| m.0 == "close").count();
                if accept || i < answered {
                    ensure!(closed == 1, "closing was reported {closed} times");
                }
                return Ok(());
            }
        }
    }
    if accept {
        let sent = code.text.clone();
        code.explained(ctx, "everything since opening", content, 0)?;
        ctx.state(&sent);
    }
    Ok(())
}

/// Documents with unusual names.
fn names(ctx: &mut Ctx) -> Res {
    let name = ctx.pick(&[
        "a b", "ä🥕", "a%20b", "a#b", "[x]", "a?b", "a+b", "%", "a&b=c", "a:b", "a@b", "a,b;c", "$x", "a'b", "(x)", "{x}", "sub/f", "100%25",
    ]);
    let mut code = Code::opened(project().join(name), "a\nb\n")?;
    for round in 0..2 {
        let before = code.text.clone();
        code.change(&[change(0, 0, "x")]);
        code.settle()?;
        code.explained(ctx, "typing", &before, round)?;
        let edit = text::edit_at(&code.text, 1, 1, "F\n");
        let expected = text::splice(&code.text, 1, 1, "F\n");
        code.from_daemon(&[edit], round + 1)?;
        code.settle()?;
        ensure!(
            code.text == expected,
            "an edit of the daemon for {name:?} gave {:?} instead of {expected:?}; errors: {:?}",
            code.text,
            code.errors
        );
        let sent = code.sent()?;
        ensure!(sent.is_empty(), "an edit of the daemon was sent back: {sent:?}");
    }
    let did = run(json!({"what": "close", "path": code.path}))?;
    code.did(did)?;
    let uri = code.uri();
    ensure!(
        code.to_daemon.iter().any(|(m, p)| m == "close" && p["uri"] == json!(uri)),
        "closing {name:?} sent {:?}",
        code.to_daemon
    );
    Ok(())
}

/// Selections are reported in characters.
fn selections(ctx: &mut Ctx, max: usize) -> Res {
    let content = pick_text(ctx, ALPHABET, max);
    let n = text::len(&content);
    let (a, b) = (ctx.choose(n + 1), ctx.choose(n + 1));
    let mut code = Code::opened(project().join("f"), &content)?;
    let p = |o: usize| {
        let p = utf16_position(&content, o);
        json!([p.0, p.1])
    };
    let did = run(json!({"what": "select", "path": code.path, "selections": [[p(a), p(b)]]}))?;
    code.did(did)?;
    let q = |o: usize| {
        let p = text::offset_to_pos(&content, o);
        json!({"line": p.0, "character": p.1})
    };
    let all: Vec<Value> = code.to_daemon.iter().filter(|m| m.0 == "cursor").map(|m| m.1.clone()).collect();
    ensure!(all.len() == 1, "a selection was reported as {all:?}");
    let r = &all[0]["ranges"][0];
    ensure!(
        (r["start"] == q(a) && r["end"] == q(b)) || (r["start"] == q(b) && r["end"] == q(a)),
        "selecting from {} to {} in {content:?} was reported as {r}",
        p(a),
        p(b)
    );
    ctx.step();
    Ok(())
}

fn c23(t: Tier) -> Vec<Scenario> {
    let plan = |initial, typed, foreign, refusals, kinds| Plan {
        initial,
        typed,
        foreign,
        refusals,
        kinds,
        tokens: ("z", "🥕"),
    };
    let mut list = vec![
        scenario(
            "one-change",
            format!("every text of up to {} characters out of {ALPHABET:?}, every range, 5 replacements", t.pick(3, 4)),
            move |ctx| user_changes(ctx, t.pick(3, 4), 1, &["", "x", "\n", "🥕", "\nx"]),
        ),
        scenario(
            "two-changes",
            format!("every text of up to {} characters, every pair of ranges, 3 replacements", t.pick(2, 3)),
            move |ctx| user_changes(ctx, t.pick(2, 3), 2, &["", "x\n", "🥕"]),
        ),
        scenario(
            "one-remote-edit",
            format!("every text of up to {} characters, every range, 5 replacements, current or outdated, reduced or not", t.pick(3, 4)),
            move |ctx| daemon_changes(ctx, t.pick(3, 4), 1, &["", "x", "\n", "🥕", "\nx"]),
        ),
        scenario(
            "two-operations",
            format!("every text of up to {} characters, every pair of ranges, 3 replacements, current or outdated, reduced or not", t.pick(2, 3)),
            move |ctx| daemon_changes(ctx, t.pick(2, 3), 2, &["", "x\n", "🥕"]),
        ),
        scenario("names", "18 file names", names),
        scenario("selections", "every selection in every text of up to 3 characters", |ctx| selections(ctx, 3)),
        scenario(
            "opening",
            format!("{} steps around the daemon's answer to opening", t.pick(3, 4)),
            move |ctx| opening(ctx, t.pick(3, 4)),
        ),
        scenario(
            "schedules-1-1",
            "1 change by the user, 1 foreign, 1 unexpected refusal, every order of messages",
            move |ctx| schedules(ctx, plan("a\n🥕b", 1, 1, 1, 5)),
        ),
        scenario(
            "schedules-1-2",
            "1 change by the user, 2 foreign",
            move |ctx| schedules(ctx, plan("🥕b", 1, 2, 0, 3)),
        ),
        scenario(
            "schedules-2-1",
            "2 changes by the user, 1 foreign",
            move |ctx| schedules(ctx, plan("🥕b", 2, 1, t.pick(0, 1), 3)),
        ),
    ];
    if t == Tier::Thorough {
        list.push(scenario(
            "schedules-2-2",
            "2 changes by the user, 2 foreign",
            move |ctx| schedules(ctx, plan("🥕b", 2, 2, 0, 2)),
        ));
    }
    list
}

// ------------------------------------------------------------------ C26

/// Selections are reported from where they began to where the cursor is.
fn report_selections(ctx: &mut Ctx, max: usize, count: usize) -> Res {
    let content = pick_text(ctx, ALPHABET, max);
    let n = text::len(&content);
    let mut wanted = vec![];
    let mut given = vec![];
    for _ in 0..1 + ctx.choose(count) {
        let (a, b) = (ctx.choose(n + 1), ctx.choose(n + 1));
        let p = |o: usize| {
            let p = utf16_position(&content, o);
            json!([p.0, p.1])
        };
        let q = |o: usize| {
            let p = text::offset_to_pos(&content, o);
            json!({"line": p.0, "character": p.1})
        };
        given.push(json!([p(a), p(b)]));
        wanted.push(json!({"start": q(a), "end": q(b)}));
    }
    let name = ctx.pick(&["f", "a b#ä"]);
    let mut code = Code::opened(project().join(name), &content)?;
    note!(ctx, "{given:?} is selected in {content:?}");
    let did = run(json!({"what": "select", "path": code.path, "selections": given}))?;
    code.did(did)?;
    let all: Vec<Value> = code.to_daemon.iter().filter(|m| m.0 == "cursor").map(|m| m.1.clone()).collect();
    let expected = json!({"uri": code.uri(), "ranges": wanted});
    ensure!(all.len() == 1 && all[0] == expected, "selecting {given:?} in {content:?} was reported as {all:?}");
    ctx.step();
    Ok(())
}

type Span = (Utf16, Utf16);

fn highlighted(v: &Value) -> Vec<Vec<Span>> {
    let number = |v: &Value| v.as_u64().unwrap_or(u64::MAX) as usize;
    let place = |v: &Value| (number(&v[0]), number(&v[1]));
    let mut all = vec![];
    for editor in v["highlighted"].as_array().into_iter().flatten() {
        let mut list: Vec<Span> = editor.as_array().into_iter().flatten().map(|r| (place(&r[0]), place(&r[1]))).collect();
        list.sort();
        all.push(list);
    }
    all
}

fn range_of(content: &str, (a, b): (usize, usize)) -> Value {
    let q = |o: usize| {
        let p = text::offset_to_pos(content, o);
        json!({"line": p.0, "character": p.1})
    };
    json!({"start": q(a), "end": q(b)})
}

fn span_of(content: &str, (a, b): (usize, usize)) -> Span {
    (utf16_position(content, a.min(b)), utf16_position(content, a.max(b)))
}

fn errors(v: &Value) -> Vec<String> {
    v["did"]
        .as_array()
        .into_iter()
        .flatten()
        .filter(|d| d["what"] == "error")
        .map(|d| d["message"].to_string())
        .collect()
}

/// Someone's cursor is shown at its characters in all parts of the window.
fn show_ranges(ctx: &mut Ctx, max: usize, count: usize) -> Res {
    let content = pick_text(ctx, ALPHABET, max);
    let n = text::len(&content);
    let mut ranges = vec![];
    for _ in 0..1 + ctx.choose(count) {
        ranges.push((ctx.choose(n + 1), ctx.choose(n + 1)));
    }
    let name = ctx.pick(&["f", "a b#ä%20"]);
    let parts = 1 + ctx.choose(2);
    let code = Code::opened(project().join(name), &content)?;
    run(json!({"what": "show", "paths": vec![&code.path; parts]}))?;
    let list: Vec<Value> = ranges.iter().map(|r| range_of(&content, *r)).collect();
    note!(ctx, "someone is at {list:?} of {content:?}, shown {parts} times");
    let message = json!({"userid": "u", "name": "N", "uri": code.uri(), "ranges": list});
    let v = run_all(json!({"what": "daemon", "method": "cursor", "params": message}))?;
    ensure!(errors(&v).is_empty(), "a cursor gave the errors {:?}", errors(&v));
    let mut wanted: Vec<Span> = ranges.iter().map(|r| span_of(&content, *r)).collect();
    wanted.sort();
    let shown = highlighted(&v);
    ensure!(
        shown.len() == parts && shown.iter().all(|s| *s == wanted),
        "a cursor at {wanted:?} of {content:?} is shown at {shown:?}"
    );
    ctx.step();
    ctx.state(&(content, wanted));
    Ok(())
}

#[derive(Clone, Debug)]
enum Happening {
    /// The person, the file, and how many ranges.
    Cursor(usize, usize, usize),
    Show(&'static [usize]),
    Close(usize),
    Open(usize),
}

/// Several people move about in several files, which are shown or not.
fn show_several(ctx: &mut Ctx, depth: usize) -> Res {
    const CONTENT: &str = "abcdefghijkl\n🥕🥕🥕🥕🥕🥕🥕🥕🥕🥕🥕🥕\n";
    const FILES: [&str; 3] = ["f", "g#", "unopened"];
    const NAMES: [Option<&str>; 2] = [Some("Alice"), Some("Bob")];
    let dir = project();
    let path = |f: usize| dir.join(FILES[f]).to_str().unwrap().to_string();
    let mut acts = vec![];
    for person in 0..2 {
        for file in 0..3 {
            acts.push(Happening::Cursor(person, file, 1));
        }
        acts.push(Happening::Cursor(person, 0, 0));
        acts.push(Happening::Cursor(person, 0, 2));
    }
    for shown in [&[0][..], &[1], &[0, 1], &[0, 0], &[]] {
        acts.push(Happening::Show(shown));
    }
    acts.push(Happening::Close(1));
    acts.push(Happening::Open(1));
    let start = json!([{"path": path(0), "text": CONTENT}, {"path": path(1), "text": CONTENT}]);
    run(json!({"what": "start", "documents": start}))?;
    run(json!({"what": "show", "paths": [path(0), path(1)]}))?;
    let mut open = [true, true, false];
    // What is visible, and since when.
    let mut visible: Vec<(usize, usize)> = vec![(0, 0), (1, 0)];
    // Each person's latest place, and when they went there.
    let mut latest: [Option<(usize, Vec<(usize, usize)>, usize)>; 2] = [None, None];
    for step in 1..=depth {
        let act = ctx.pick(&acts);
        note!(ctx, "{act:?}");
        let v = match act {
            Happening::Cursor(person, file, count) => {
                let line = (step % 2) * 13;
                let ranges: Vec<(usize, usize)> = (0..count)
                    .map(|i| {
                        let (a, b) = (line + step + 4 * i, line + step + 4 * i + 1 + person);
                        if step == 2 { (b, a) } else { (a, b) }
                    })
                    .collect();
                let list: Vec<Value> = ranges.iter().map(|r| range_of(CONTENT, *r)).collect();
                latest[person] = Some((file, ranges, if open[file] { step } else { usize::MAX }));
                let params = json!({"userid": format!("u{person}"), "name": NAMES[person], "uri": format!("file://{}", path(file)), "ranges": list});
                run_all(json!({"what": "daemon", "method": "cursor", "params": params}))?
            }
            Happening::Show(files) => {
                if files.iter().any(|f| !open[*f]) {
                    continue;
                }
                visible = files
                    .iter()
                    .enumerate()
                    .map(|(i, f)| match visible.get(i) {
                        Some((g, since)) if f == g => (*f, *since),
                        _ => (*f, step),
                    })
                    .collect();
                run_all(json!({"what": "show", "paths": files.iter().map(|f| path(*f)).collect::<Vec<_>>()}))?
            }
            Happening::Close(f) => {
                if !open[f] {
                    continue;
                }
                open[f] = false;
                visible.retain(|v| v.0 != f);
                run_all(json!({"what": "close", "path": path(f)}))?
            }
            Happening::Open(f) => {
                if open[f] {
                    continue;
                }
                open[f] = true;
                run_all(json!({"what": "open", "path": path(f), "text": CONTENT}))?
            }
        };
        ctx.step();
        ensure!(errors(&v).is_empty(), "this gave the errors {:?}", errors(&v));
        let shown = highlighted(&v);
        ensure!(shown.len() == visible.len(), "harness: {} parts of the window instead of {}", shown.len(), visible.len());
        for (i, (file, since)) in visible.iter().enumerate() {
            let mut rest = shown[i].clone();
            let mut optional = vec![];
            for (_, ranges, at) in latest.iter().flatten().filter(|l| l.0 == *file) {
                let spans = ranges.iter().map(|r| span_of(CONTENT, *r));
                if *at == usize::MAX || at < since {
                    // Said when it could not be shown here.
                    optional.extend(spans);
                    continue;
                }
                for span in spans {
                    let Some(k) = rest.iter().position(|s| *s == span) else {
                        fail!("{span:?} is not highlighted in part {i} of the window, {}: {:?}", FILES[*file], shown[i]);
                    };
                    rest.remove(k);
                }
            }
            for span in rest {
                let Some(k) = optional.iter().position(|s| *s == span) else {
                    fail!("nobody is at {span:?}, which is highlighted in part {i} of the window, {}", FILES[*file]);
                };
                optional.remove(k);
            }
        }
        // The list of people.
        let did = run(json!({"what": "command", "name": "ethersync.showCursors"}))?;
        let list = did.iter().find(|d| d["what"] == "message").and_then(|d| d["message"].as_str()).unwrap_or("").to_string();
        for (person, place) in latest.iter().enumerate() {
            let name = NAMES[person].unwrap();
            let lines: Vec<&str> = list.lines().filter(|l| l.contains(name)).collect();
            match place {
                None => ensure!(lines.is_empty(), "{name} was never anywhere, but is listed: {list:?}"),
                Some((_, _, usize::MAX)) => {}
                Some((file, ranges, _)) => {
                    let line = ranges.first().map(|r| text::offset_to_pos(CONTENT, r.0).0 + 1);
                    let letter = &FILES[*file][..1];
                    ensure!(
                        lines.len() == ranges.len()
                            && lines.iter().all(|l| l.ends_with(&format!(":{}", line.unwrap())) && l.contains(&format!("/{letter}"))),
                        "{name} is at {} places in line {line:?} of {}, but the list is {list:?}",
                        ranges.len(),
                        FILES[*file]
                    );
                }
            }
        }
        ctx.state(&(format!("{latest:?} {open:?}"), visible.clone()));
    }
    Ok(())
}

fn c26(t: Tier) -> Vec<Scenario> {
    vec![
        scenario(
            "report-one",
            format!("every selection in every text of up to {} characters out of {ALPHABET:?}", t.pick(3, 4)),
            move |ctx| report_selections(ctx, t.pick(3, 4), 1),
        ),
        scenario("report-several", "every 1 or 2 selections in every text of up to 2 characters", |ctx| report_selections(ctx, 2, 2)),
        scenario(
            "show-one",
            format!("every range in every text of up to {} characters, forward and backward, in 1 or 2 parts of the window", t.pick(3, 4)),
            move |ctx| show_ranges(ctx, t.pick(3, 4), 1),
        ),
        scenario("show-two", "every 1 or 2 ranges in every text of up to 2 characters", |ctx| show_ranges(ctx, 2, 2)),
        scenario(
            "several",
            format!("every sequence of {} of 17 happenings with 2 people and 3 files", t.pick(3, 4)),
            move |ctx| show_several(ctx, t.pick(3, 4)),
        ),
    ]
}
