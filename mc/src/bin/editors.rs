//! Properties of the daemon's side of the editor protocol:
//! C07 file ownership, C09 requests and responses, C12 cursors, C18 robustness against editors,
//! C20 several editors.

#[path = "../world.rs"]
mod world;

use mc::process::{patiently, wait_until, PATIENCE};
use mc::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use world::*;

fn main() {
    let o = parse_args();
    let scenarios = match o.property.as_str() {
        "C07" => c07(o.tier),
        "C09" => c09(o.tier),
        "C12" => c12(o.tier),
        "C18" => c18(o.tier),
        "C20" => c20(o.tier),
        p => engine_error(&format!("unknown property {p}")),
    };
    run_check(
        &o,
        "model_checking",
        &[
            "the daemon handles one message at a time, as its single task does",
            "an editor loads a file and the daemon handles its open request as one step",
            "editors read what the daemon sends them",
        ],
        scenarios,
    );
}

// ---------------------------------------------------------------------------------------------
// C09 and C18: an alphabet of requests

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Expect {
    Success,
    Error,
    /// Either is fine, but there has to be one response.
    Any,
}

/// What an editor connection should know.
#[derive(Clone, Default)]
struct Model {
    /// open file -> (content, revision of the daemon, still-unconfirmed edits)
    open: BTreeMap<String, String>,
}

#[derive(Clone, Debug)]
enum Req {
    Open(&'static str),
    Close(&'static str),
    Cursor(&'static str, Value),
    /// file, revision, delta
    Edit(&'static str, Value, Value),
    /// A line as it is, the method it resembles
    Raw(&'static str),
}

fn pos(l: u64, c: u64) -> Value {
    json!({"line": l, "character": c})
}

fn op(a: (u64, u64), b: (u64, u64), t: &str) -> Value {
    json!({"range": {"start": pos(a.0, a.1), "end": pos(b.0, b.1)}, "replacement": t})
}

/// The project used for the request alphabets.
fn request_world(ctx: &mut Ctx) -> Res<World> {
    let mut w = World::default();
    let mut node = Node::new(ctx, 'A', 1);
    node.write("f", "ab\ncd");
    node.write("g", "g");
    node.write("sub/h", "h");
    node.write("back~", "backup");
    node.write(".git/config", "git");
    node.write(".gitignore", "ign\n");
    node.write("ign", "ignored");
    std::fs::write(node.dir.join("binary"), [0xff, 0xfe]).unwrap();
    std::fs::write(node.dir.parent().unwrap().join("outside"), "secret").unwrap();
    std::os::unix::fs::symlink("../outside", node.dir.join("link-out")).unwrap();
    std::os::unix::fs::symlink("f", node.dir.join("link-in")).unwrap();
    std::os::unix::fs::symlink("../nowhere", node.dir.join("dangling")).unwrap();
    node.start(ctx, false, true)?;
    w.nodes.push(node);
    Ok(w)
}

fn uris(w: &World, name: &str) -> String {
    let dir = w.nodes[0].dir.display();
    let parent = w.nodes[0].dir.parent().unwrap().display().to_string();
    match name {
        "<root>" => format!("file://{dir}"),
        "<root/>" => format!("file://{dir}/"),
        "<outside>" => format!("file://{parent}/outside"),
        "<dotdot-out>" => format!("file://{dir}/../outside"),
        "<sub-dotdot-out>" => format!("file://{dir}/sub/../../outside"),
        "<deep-dotdot-out>" => format!("file://{dir}/nope/../../outside"),
        "<no-scheme>" => format!("{dir}/f"),
        "<http>" => "http://example.org/f".into(),
        "<file://>" => "file://".into(),
        "<file:///>" => "file:///".into(),
        "<relative>" => "file://f".into(),
        "<empty>" => String::new(),
        "<nul>" => format!("file://{dir}/a\u{0}b"),
        "<long>" => format!("file://{dir}/{}", "x".repeat(300)),
        "<longpath>" => format!("file://{dir}/{}", "x/".repeat(3000)),
        "<astral>" => format!("file://{dir}/🥕"),
        "<sibling>" => format!("file://{dir}2/f"),
        "<host>" => format!("file://localhost{dir}/f"),
        _ => format!("file://{dir}/{name}"),
    }
}

fn good_file(name: &str) -> Option<&'static str> {
    Some(match name {
        "f" | "./f" | "sub/../f" | "sub/./../f" | ".//f" => "f",
        "g" => "g",
        "sub/h" | "sub//h" | "sub/../sub/h" => "sub/h",
        "new" => "new",
        "sub/new" => "sub/new",
        "<astral>" => "🥕",
        _ => return None,
    })
}

fn bad_file(name: &str) -> bool {
    matches!(
        name,
        "<root>" | "<root/>" | "<outside>" | "<dotdot-out>" | "<sub-dotdot-out>" | "<deep-dotdot-out>"
            | "<no-scheme>" | "<http>" | "<file://>" | "<file:///>" | "<relative>" | "<empty>" | "<nul>" | "<long>"
            | "<longpath>" | "<sibling>" | "sub" | "back~" | ".git/config" | ".ethersync/doc" | "ign" | "binary" | "link-out"
            | "dangling" | "f/x"
    )
}

/// Is the edit one the protocol allows, and what does it do?
fn edit_result(content: &str, delta: &Value) -> Result<String, ()> {
    let Ok(edits) = parse_delta(delta) else {
        return Err(());
    };
    if edits.len() > 1 {
        return Err(());
    }
    mc::text::apply(content, &edits).map_err(|_| ())
}

impl Model {
    fn expect(&self, r: &Req) -> Expect {
        match r {
            Req::Open(f) => {
                if good_file(f).is_some() {
                    Expect::Success
                } else if bad_file(f) {
                    Expect::Error
                } else {
                    Expect::Any
                }
            }
            Req::Close(f) => match good_file(f) {
                Some(f) if self.open.contains_key(f) => Expect::Success,
                _ => Expect::Any,
            },
            Req::Cursor(f, _) => match good_file(f) {
                Some(f) if self.open.contains_key(f) => Expect::Success,
                _ => Expect::Any,
            },
            Req::Edit(f, rev, delta) => match good_file(f).and_then(|f| self.open.get(f)) {
                None => Expect::Error,
                Some(content) => {
                    if *rev == json!(0) && edit_result(content, delta).is_ok() {
                        Expect::Success
                    } else if parse_delta(delta).is_ok_and(|d| d.len() > 1) {
                        // Several operations in one edit are not supported (yet).
                        Expect::Any
                    } else if behind_line_break(content, delta) {
                        // Not a position of the text, but what it means is clear enough.
                        Expect::Any
                    } else {
                        Expect::Error
                    }
                }
            },
            Req::Raw(_) => Expect::Error,
        }
    }

    /// After something whose effect is not specified.
    fn adopt(&mut self, f: &str, shared: &Files) {
        if let Some(content) = good_file(f).and_then(|f| self.open.get_mut(f)) {
            let f = good_file(f).unwrap();
            *content = shared.get(f).cloned().unwrap_or_default();
        }
    }

    fn apply(&mut self, disk: &Files, shared: &Files, r: &Req) {
        match r {
            Req::Open(f) => {
                if let Some(f) = good_file(f) {
                    // The shared content is what everybody sees, also if the disk is behind.
                    let content = shared.get(f).or(disk.get(f)).cloned().unwrap_or_default();
                    self.open.insert(f.to_string(), content);
                }
            }
            Req::Close(f) => {
                if let Some(f) = good_file(f) {
                    self.open.remove(f);
                }
            }
            Req::Edit(f, _, delta) => {
                if let Some(content) = good_file(f).and_then(|f| self.open.get_mut(f)) {
                    if let Ok(new) = edit_result(content, delta) {
                        *content = new;
                    }
                }
            }
            _ => {}
        }
    }
}

/// Whether a position of the edit is one character behind the end of a line.
fn behind_line_break(content: &str, delta: &Value) -> bool {
    let lines: Vec<usize> = content.split('\n').map(text::len).collect();
    parse_delta(delta).is_ok_and(|d| {
        d.iter()
            .flat_map(|e| [e.start, e.end])
            .any(|(l, c)| lines.get(l).is_some_and(|n| c == n + 1) && l < lines.len() - 1)
    })
}

fn line_of(w: &World, r: &Req, id: Option<u64>) -> String {
    let (method, params) = match r {
        Req::Raw(s) => return s.to_string(),
        Req::Open(f) => ("open", json!({"uri": uris(w, f)})),
        Req::Close(f) => ("close", json!({"uri": uris(w, f)})),
        Req::Cursor(f, ranges) => ("cursor", json!({"uri": uris(w, f), "ranges": ranges})),
        Req::Edit(f, rev, delta) => (
            "edit",
            json!({"uri": uris(w, f), "revision": rev, "delta": delta}),
        ),
    };
    let mut v = json!({"jsonrpc": "2.0", "method": method, "params": params});
    if let Some(id) = id {
        v["id"] = json!(id);
    }
    v.to_string()
}

fn strange_lines() -> Vec<Req> {
    [
        "",
        " ",
        "x",
        "{}",
        "[]",
        "null",
        "0",
        "\"open\"",
        "{\"jsonrpc\":\"2.0\"}",
        "{\"jsonrpc\":\"2.0\",\"id\":1}",
        "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"open\"}",
        "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"open\",\"params\":{}}",
        "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"open\",\"params\":{\"uri\":1}}",
        "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"frobnicate\",\"params\":{}}",
        "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"edit\",\"params\":{\"uri\":\"file:///f\",\"revision\":-1,\"delta\":[]}}",
        "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"edit\",\"params\":{\"uri\":\"file:///f\",\"revision\":0,\"delta\":{}}}",
        "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"success\"}",
        "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"open\",\"params\":{\"uri\":\"\\ud800\"}}",
    ]
    .into_iter()
    .map(Req::Raw)
    .collect()
}

fn opens() -> Vec<Req> {
    [
        "f", "./f", "sub/../f", "sub//h", "new", "sub/new", "<astral>", "<root>", "<root/>", "<outside>", "<dotdot-out>",
        "<sub-dotdot-out>", "<deep-dotdot-out>", "<no-scheme>", "<http>", "<file://>", "<file:///>", "<relative>", "<empty>",
        "<nul>", "<long>", "<longpath>", "<sibling>", "<host>", "sub", "sub/", "back~", ".git/config", ".ethersync/doc", ".ethersync/new",
        "ign", "binary", "link-out", "link-in", "dangling", "f/x", "nope/new", "f/../g", "nope/../f",
    ]
    .into_iter()
    .map(Req::Open)
    .collect()
}

fn closes() -> Vec<Req> {
    [
        "f", "g", "sub", "<root>", "<outside>", "<dotdot-out>", "<no-scheme>", "<file:///>", "<nul>", "<longpath>", "sub/../f", "nope", "link-out",
        ".git/config",
    ]
    .into_iter()
    .map(Req::Close)
    .collect()
}

fn cursors() -> Vec<Req> {
    let r = |a, b| json!([{"start": a, "end": b}]);
    let mut list: Vec<Req> = [
        "f", "g", "<root>", "<outside>", "<dotdot-out>", "<no-scheme>", "<file:///>", "<nul>", "<longpath>", "sub", "nope", ".git/config",
    ]
    .into_iter()
    .map(|f| Req::Cursor(f, r(pos(0, 0), pos(0, 0))))
    .collect();
    list.push(Req::Cursor("f", json!([])));
    list.push(Req::Cursor("f", r(pos(7, 7), pos(0, 9))));
    list.push(Req::Cursor("f", r(pos(u64::MAX, u64::MAX), pos(u64::MAX, 0))));
    list
}

const MAX: u64 = u64::MAX;

fn edits(file: &'static str) -> Vec<Req> {
    let mut list = vec![];
    for delta in [
        json!([]),
        json!([op((0, 0), (0, 0), "x")]),
        json!([op((1, 2), (1, 2), "x")]),
        json!([op((0, 2), (0, 2), "\n")]),
        json!([op((0, 0), (1, 2), "")]),
        json!([op((0, 1), (0, 1), "")]),
        json!([op((1, 1), (0, 1), "y")]),
        json!([op((0, 3), (0, 3), "x")]),
        json!([op((0, 9), (0, 9), "x")]),
        json!([op((1, 3), (1, 3), "x")]),
        json!([op((2, 0), (2, 0), "x")]),
        json!([op((3, 0), (3, 0), "x")]),
        json!([op((0, 0), (2, 0), "")]),
        json!([op((0, 0), (9, 9), "")]),
        json!([op((0, 0), (0, 3), "")]),
        json!([op((9, 9), (9, 9), "")]),
        json!([op((MAX, 0), (MAX, 0), "x")]),
        json!([op((0, MAX), (0, MAX), "x")]),
        json!([op((0, 0), (MAX, MAX), "x")]),
        json!([op((0, 0), (0, 0), "x"), op((0, 0), (0, 0), "y")]),
        json!([op((0, 0), (0, 1), ""), op((5, 5), (5, 5), "y")]),
    ] {
        list.push(Req::Edit(file, json!(0), delta));
    }
    for rev in [1, 2, MAX] {
        list.push(Req::Edit(file, json!(rev), json!([op((0, 0), (0, 0), "x")])));
    }
    list
}

fn odd_edits() -> Vec<Req> {
    [
        "nope", "<root>", "<outside>", "<no-scheme>", "<file:///>", "<nul>", "g", "sub/../f",
    ]
    .into_iter()
    .map(|f| Req::Edit(f, json!(0), json!([op((0, 0), (0, 0), "x")])))
    .collect()
}

fn all_requests() -> Vec<Req> {
    let mut list = strange_lines();
    list.extend(opens());
    list.extend(closes());
    list.extend(cursors());
    list.extend(edits("f"));
    list.extend(odd_edits());
    list
}

/// The most telling ones, for deeper sequences.
fn core_requests() -> Vec<Req> {
    vec![
        Req::Raw("x"),
        Req::Open("f"),
        Req::Open("new"),
        Req::Open("sub/../f"),
        Req::Open("<outside>"),
        Req::Open("ign"),
        Req::Close("f"),
        Req::Edit("f", json!(0), json!([op((0, 1), (0, 1), "x")])),
        Req::Edit("f", json!(0), json!([op((0, 0), (1, 1), "")])),
        Req::Edit("f", json!(0), json!([op((2, 0), (2, 0), "x")])),
        Req::Edit("f", json!(1), json!([op((0, 0), (0, 0), "x")])),
        Req::Edit("new", json!(0), json!([op((0, 0), (0, 0), "\n")])),
        Req::Cursor("f", json!([{"start": pos(0, 0), "end": pos(0, 0)}])),
    ]
}

/// Sends a request and checks the response, its effect on the document and what others get.
fn checked_request(
    ctx: &mut Ctx,
    w: &mut World,
    e: usize,
    witness: usize,
    model: &mut Model,
    r: &Req,
    as_notification: bool,
    serial: u64,
) -> Res {
    let before = w.nodes[0].observe(ctx)?;
    let disk = w.nodes[0].disk();
    w.pump()?;
    w.editors[witness].inbox.clear();
    let id = if as_notification { None } else { Some(serial) };
    let line = line_of(w, r, id);
    note!(ctx, "editor {} sends {}", w.editors[e].name, short(&json!(line)));
    let expect = model.expect(r);
    w.send_line(ctx, e, line)?;
    let messages: Vec<Value> = w.editors[e].inbox.drain(..).collect();
    let responses: Vec<&Value> = messages.iter().filter(|m| m.get("method").is_none()).collect();
    let to_witness = w.editors[witness].inbox.len();
    let after = w.nodes[0].observe(ctx)?;
    for m in &messages {
        note!(ctx, "  gets {}", short(m));
        ensure!(m["jsonrpc"] == "2.0", "a message without version: {m}");
    }
    let failed = match r {
        Req::Raw(line) => {
            ensure!(
                responses.len() == 1,
                "the line {line:?} got {} responses",
                responses.len()
            );
            let r = responses[0];
            ensure!(
                r.get("id") == Some(&Value::Null) && r.get("error").is_some() && r.get("result").is_none(),
                "the line {line:?} got the response {r}"
            );
            true
        }
        _ if as_notification => {
            ensure!(responses.is_empty(), "a notification got the response {responses:?}");
            // Whether it failed can be seen from what happened.
            if expect == Expect::Any {
                if let Req::Edit(f, ..) = r {
                    model.adopt(f, &after);
                }
                return Ok(());
            }
            expect == Expect::Error
        }
        _ => {
            ensure!(responses.len() == 1, "{r:?} got {} responses", responses.len());
            let resp = responses[0];
            ensure!(resp["id"] == json!(id), "{r:?} with id {id:?} got the response {resp}");
            let (error, result) = (resp.get("error").is_some(), resp.get("result").is_some());
            ensure!(error != result, "{r:?} got the response {resp}");
            match expect {
                Expect::Success => ensure!(!error, "{r:?} should succeed but got {resp}"),
                Expect::Error => ensure!(error, "{r:?} should fail but got {resp}"),
                Expect::Any => {}
            }
            error
        }
    };
    if failed {
        ensure!(
            before == after,
            "{r:?} failed but changed the document from {before:?} to {after:?}"
        );
        ensure!(to_witness == 0, "{r:?} failed but another editor got {:?}", w.editors[witness].inbox);
        ctx.outcome("refused");
    } else {
        model.apply(&disk, &before, r);
        ctx.outcome("accepted");
    }
    if let (Expect::Any, Req::Edit(f, ..)) = (expect, r) {
        model.adopt(f, &after);
    }
    for (file, content) in &model.open {
        ensure!(
            after.get(file) == Some(content),
            "after {r:?}, {file} should be {content:?} but is {:?}",
            after.get(file)
        );
    }
    ctx.state(&(after, model.open.clone()));
    Ok(())
}

/// Everything still works for somebody else.
fn healthy(ctx: &mut Ctx, w: &mut World) -> Res {
    let e = w.connect_editor(ctx, '9', 0)?;
    w.open(ctx, e, "g")?;
    w.settle_editor(ctx, e)?;
    w.type_text(ctx, e, "g", 0, 0, "!");
    w.settle_editor(ctx, e)?;
    ensure!(w.editors[e].errors.is_empty(), "another editor got {:?}", w.editors[e].errors);
    ensure!(w.editors[e].unanswered.is_empty(), "another editor got no response");
    let files = w.nodes[0].observe(ctx)?;
    let content = files.get("g").cloned().unwrap_or_default();
    ensure!(content.starts_with('!'), "an edit of another editor did not arrive: {content:?}");
    ensure!(
        w.editors[e].buffers["g"].content == content,
        "another editor shows {:?} instead of {content:?}",
        w.editors[e].buffers["g"].content
    );
    w.nodes[0].persist(ctx)?;
    Ok(())
}

/// Files that are not open after all this belong to the daemon.
fn unopened(ctx: &mut Ctx, w: &mut World, model: &Model) -> Res {
    for file in ["g", "sub/h", "binary"] {
        if model.open.contains_key(file) {
            continue;
        }
        w.nodes[0].write(file, "by another program");
        w.nodes[0].changed(ctx, file)?;
        let shared = w.nodes[0].observe(ctx)?;
        ensure!(
            shared.get(file).map(|s| s.as_str()) == Some("by another program"),
            "{file} was never opened, but changes on disk are not taken up: {:?}",
            shared.get(file)
        );
    }
    Ok(())
}

fn requests(ctx: &mut Ctx, first: &[Req], then: &[Req], depth: usize) -> Res {
    let mut w = request_world(ctx)?;
    let e = w.connect_editor(ctx, '1', 0)?;
    let witness = w.connect_editor(ctx, '2', 0)?;
    w.open(ctx, witness, "f")?;
    w.settle_editor(ctx, witness)?;
    let mut model = Model::default();
    let mut serial = 100;
    let mut sure = true;
    for r in first {
        serial += 1;
        checked_request(ctx, &mut w, e, witness, &mut model, r, false, serial)?;
    }
    for _ in 0..depth {
        let r = ctx.pick(then);
        let notification = !matches!(r, Req::Raw(_)) && ctx.flip();
        serial += 1;
        sure &= !matches!(r, Req::Open(_)) || model.expect(&r) != Expect::Any;
        checked_request(ctx, &mut w, e, witness, &mut model, &r, notification, serial)?;
    }
    if sure {
        unopened(ctx, &mut w, &model)?;
    }
    healthy(ctx, &mut w)?;
    w.shutdown(ctx);
    Ok(())
}

/// Requests with unusual identifiers.
fn identifiers(ctx: &mut Ctx) -> Res {
    let mut w = request_world(ctx)?;
    let e = w.connect_editor(ctx, '1', 0)?;
    let witness = w.connect_editor(ctx, '2', 0)?;
    w.open(ctx, witness, "f")?;
    w.settle_editor(ctx, witness)?;
    let mut model = Model::default();
    let mut ids = vec![];
    for _ in 0..2 {
        let id = ctx.pick(&[0, 1, 255, 65_536, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 53) + 1, 1 << 63, u64::MAX]);
        if ids.contains(&id) {
            return Ok(());
        }
        ids.push(id);
        let r = ctx.pick(&core_requests());
        checked_request(ctx, &mut w, e, witness, &mut model, &r, false, id)?;
    }
    w.shutdown(ctx);
    Ok(())
}

fn c09(tier: Tier) -> Vec<Scenario> {
    let mut list = vec![
        scenario(
            "single",
            "each of the requests of the alphabet, first thing or with the file open, as request and as notification",
            |ctx| {
                let first: &[Req] = &[Req::Open("f")];
                let n = ctx.choose(2);
                requests(ctx, &first[..n], &all_requests(), 1)
            },
        ),
        scenario("sequences", "all sequences of 3 of the 13 most telling requests", |ctx| {
            requests(ctx, &[], &core_requests(), 3)
        }),
        scenario("identifiers", "all pairs of these requests with 10 identifiers from 0 to 2^64-1", identifiers),
    ];
    if tier == Tier::Thorough {
        list.push(scenario("pairs", "all pairs of the whole alphabet with the file open", |ctx| {
            requests(ctx, &[Req::Open("f")], &all_requests(), 2)
        }));
    }
    list
}

// ---------------------------------------------------------------------------------------------
// C18

/// Anything an editor can do to the daemon.
#[derive(Clone, Debug)]
enum Abuse {
    Send(Req),
    /// The connection ends.
    HangUp,
    /// The other side of the socket disappears, but more messages were already on their way.
    Vanish,
    /// Another editor types.
    OtherTypes,
    /// A change from a peer, or its removal of the file.
    PeerTypes,
    PeerRemoves,
}

fn abuse(ctx: &mut Ctx, list: &[Abuse], depth: usize, open_first: bool) -> Res {
    let mut w = request_world(ctx)?;
    let mut peer = Node::new(ctx, 'B', 2);
    peer.start(ctx, false, false)?;
    w.nodes.push(peer);
    w.link(ctx, 0, 1);
    w.settle_sync(ctx)?;
    let e = w.connect_editor(ctx, '1', 0)?;
    let other = w.connect_editor(ctx, '2', 0)?;
    w.open(ctx, other, "f")?;
    w.settle_editor(ctx, other)?;
    if open_first {
        let line = line_of(&w, &Req::Open("f"), Some(1));
        w.send_line(ctx, e, line)?;
    }
    let mut closed = false;
    for i in 0..depth {
        let a = ctx.pick(list);
        note!(ctx, "{}", short(&json!(format!("{a:?}"))));
        match a {
            Abuse::Send(r) => {
                if closed {
                    // Nothing can arrive after the end of the connection.
                    continue;
                }
                let line = line_of(&w, &r, Some(10 + i as u64));
                w.send_line(ctx, e, line)?;
            }
            Abuse::HangUp => {
                if !closed {
                    closed = true;
                    w.disconnect_editor(ctx, e)?;
                }
            }
            Abuse::Vanish => w.editors[e].vanish(),
            Abuse::OtherTypes => {
                w.settle_editor(ctx, other)?;
                if w.editors[other].buffers.contains_key("f") {
                    w.type_text(ctx, other, "f", 0, 0, "o");
                    w.settle_editor(ctx, other)?;
                }
            }
            Abuse::PeerTypes => {
                let content = w.nodes[1].read("f").unwrap_or_default();
                w.nodes[1].write("f", &format!("{content}p"));
                w.nodes[1].changed(ctx, "f")?;
                w.settle_sync(ctx)?;
            }
            Abuse::PeerRemoves => {
                if w.nodes[1].read("f").is_some() {
                    w.nodes[1].remove("f");
                    w.nodes[1].removed(ctx, "f")?;
                    w.settle_sync(ctx)?;
                }
            }
        }
        let f = w.fingerprint();
        ctx.state(&f);
    }
    healthy(ctx, &mut w)?;
    w.settle_sync(ctx)?;
    ensure!(
        w.nodes[1].read("g").is_some_and(|s| s.starts_with('!')),
        "a change does not reach the peer any more: {:?}",
        w.nodes[1].read("g")
    );
    w.shutdown(ctx);
    Ok(())
}

/// Bytes on the socket of a real daemon.
#[derive(Clone, Debug)]
enum Bytes {
    /// The usual messages, in two pieces.
    Cut(usize),
    /// The connection ends in the middle.
    End(usize),
    /// Something else in the middle.
    Insert(usize, &'static [u8]),
    /// One of the bytes is missing.
    Omit(usize),
    /// A very long line, with or without an end.
    Long(usize, bool),
}

fn usual_messages(base: &str) -> Vec<u8> {
    let uri = format!("{base}f");
    let at = json!({"line": 0, "character": 1});
    let range = json!({"start": at, "end": at});
    [
        json!({"jsonrpc": "2.0", "id": 1, "method": "open", "params": {"uri": uri}}),
        json!({"jsonrpc": "2.0", "method": "cursor", "params": {"uri": uri, "ranges": [range]}}),
        json!({"jsonrpc": "2.0", "id": 2, "method": "edit", "params": {"uri": uri, "revision": 0, "delta": [{"range": range, "replacement": "ü"}]}}),
    ]
    .iter()
    .flat_map(|v| format!("{v}\n").into_bytes())
    .collect()
}

fn socket_bytes(ctx: &mut Ctx, kind: usize) -> Res {
    // The name of the scratch directory counts as one place.
    let length = usual_messages("@").len();
    let places = |ctx: &mut Ctx| ctx.choose(length);
    let bytes = match kind {
        0 => Bytes::Cut(places(ctx)),
        1 => Bytes::End(places(ctx)),
        2 => {
            let what = ctx.pick(&[&b"\xff"[..], b"\n", b"\0", b"\r", b"\"", b"}"]);
            Bytes::Insert(places(ctx), what)
        }
        3 => Bytes::Omit(places(ctx)),
        _ => Bytes::Long(ctx.pick(&[100, 8_191, 8_192, 8_193, 65_536, 1_000_000]), ctx.flip()),
    };
    note!(ctx, "{bytes:?}");
    patiently(ctx, |ctx| {
        let mut w = live::Live::new(ctx, 1, &[("f", "ab"), ("g", "xy")])?;
        let mut early = w.nodes[0].connect()?;
        early.open("g")?;
        early.open("f")?;
        let mut e = w.nodes[0].connect()?;
        let dir = e.uri("").into_bytes();
        let all = usual_messages(&e.uri(""));
        let positions: Vec<usize> = {
            let mut list = vec![];
            let mut i = 0;
            while i < all.len() {
                list.push(i);
                i += if all[i..].starts_with(&dir) { dir.len() } else { 1 };
            }
            list
        };
        let at = |i: usize| positions[i];
        ctx.step();
        match &bytes {
            Bytes::Cut(i) => {
                e.send(&all[..at(*i)]);
                std::thread::sleep(std::time::Duration::from_millis(5));
                e.send(&all[at(*i)..]);
                let done = wait_until(PATIENCE, || match e.pump() {
                    Err(v) => Some(Err(v)),
                    Ok(()) => (e.answers.len() == 2).then_some(Ok(())),
                });
                match done {
                    None => fail!("requests that arrive in two pieces are not answered"),
                    Some(r) => r?,
                }
                ensure!(e.answers.values().all(|a| a.is_ok()), "requests that arrive in two pieces are refused");
                let shown = wait_until(PATIENCE, || match early.pump() {
                    Err(v) => Some(Err(v)),
                    Ok(()) => (early.open["f"].content == "aüb" && early.cursors.len() == 1).then_some(Ok(())),
                });
                match shown {
                    None => fail!("another editor shows {:?} and {} cursors", early.open["f"].content, early.cursors.len()),
                    Some(r) => r?,
                }
            }
            Bytes::End(i) => {
                let sent = &all[..at(*i)];
                e.send(sent);
                let _ = e.stream.shutdown(std::net::Shutdown::Write);
                // Nothing is left of the editor.
                let moved = sent.iter().filter(|b| **b == b'\n').count() >= 2;
                let gone = wait_until(PATIENCE, || match early.pump() {
                    Err(v) => Some(Err(v)),
                    Ok(()) => (early.cursors.is_empty() && (early.cursor_messages > 0 || !moved)).then_some(Ok(())),
                });
                match gone {
                    None => fail!("after {} messages, the cursor of an editor that left is shown: {:?}", early.cursor_messages, early.cursors),
                    Some(r) => r?,
                }
                drop(e);
            }
            Bytes::Insert(i, what) => {
                e.send(&[&all[..at(*i)], what, &all[at(*i)..]].concat());
            }
            Bytes::Omit(i) => {
                let mut b = all.clone();
                b.remove(at(*i));
                e.send(&b);
            }
            Bytes::Long(n, end) => {
                let mut b = vec![b'x'; *n];
                if *end {
                    b.push(b'\n');
                }
                e.send(&b);
            }
        }
        // Everyone else is served: who was there before, and who comes now.
        let mut late = w.nodes[0].connect()?;
        late.open("g")?;
        early.type_text("g", 0, 0, "1")?;
        late.pump()?;
        let shown = wait_until(PATIENCE, || match late.pump() {
            Err(v) => Some(Err(v)),
            Ok(()) => (late.open["g"].content == "1xy").then_some(Ok(())),
        });
        match shown {
            None => fail!("afterwards, another editor's edits do not arrive: {:?}", late.open["g"].content),
            Some(r) => r?,
        }
        w.nodes[0].alive()
    })
}

/// Editors come and go on a real daemon; whoever is there is served.
fn socket_visitors(ctx: &mut Ctx, depth: usize) -> Res {
    // Leaving is by the number in the order of arrival.
    let mut here: Vec<usize> = vec![];
    let mut steps = vec![];
    let mut next = 0;
    for _ in 0..depth {
        let k = ctx.choose(1 + here.len());
        if k == 0 {
            here.push(next);
            next += 1;
            steps.push(None);
        } else {
            steps.push(Some(here.remove(k - 1)));
        }
    }
    patiently(ctx, |ctx| {
        let mut w = live::Live::new(ctx, 1, &[("f", "ab")])?;
        let mut all: Vec<Option<live::LiveEditor>> = vec![];
        for (i, s) in steps.iter().enumerate() {
            note!(ctx, "{s:?}");
            ctx.step();
            match s {
                None => all.push(Some(w.nodes[0].connect()?)),
                Some(n) => all[*n] = None,
            }
            // Whoever came last opens the file.
            if s.is_none() {
                // Others' edits have to be on disk, which is only so if nobody has it open.
                for e in all.iter_mut().flatten() {
                    if e.open.contains_key("f") {
                        e.close("f")?;
                    }
                }
                w.settle(ctx)?;
                for e in all.iter_mut().flatten() {
                    e.open("f")?;
                }
            }
            if let Some(e) = all.iter_mut().flatten().next() {
                let token = char::from(b'0' + i as u8).to_string();
                e.type_text("f", 0, 0, &token)?;
                let content = e.open["f"].content.clone();
                w.expected.insert("f".into(), content.clone());
                for e in all.iter_mut().flatten() {
                    let shown = wait_until(PATIENCE, || match e.pump() {
                        Err(v) => Some(Err(v)),
                        Ok(()) => (e.open["f"].content == content).then_some(Ok(())),
                    });
                    match shown {
                        None => fail!("an editor shows {:?} instead of {content:?}", e.open["f"].content),
                        Some(r) => r?,
                    }
                }
            } else {
                w.settle(ctx)?;
            }
        }
        w.nodes[0].alive()
    })
}

fn c18(tier: Tier) -> Vec<Scenario> {
    let all: Vec<Abuse> = all_requests()
        .into_iter()
        .map(Abuse::Send)
        .chain([Abuse::HangUp, Abuse::Vanish])
        .collect();
    let core: Vec<Abuse> = vec![
        Abuse::Send(Req::Open("f")),
        Abuse::Send(Req::Open("new")),
        Abuse::Send(Req::Close("f")),
        Abuse::Send(Req::Edit("f", json!(0), json!([op((0, 1), (0, 1), "x")]))),
        Abuse::Send(Req::Edit("f", json!(0), json!([op((0, 0), (1, 1), "")]))),
        Abuse::Send(Req::Edit("f", json!(0), json!([op((4, 0), (4, 0), "x")]))),
        Abuse::Send(Req::Edit("f", json!(1), json!([op((1, 0), (1, 0), "x")]))),
        Abuse::Send(Req::Cursor("f", json!([]))),
        Abuse::HangUp,
        Abuse::Vanish,
        Abuse::OtherTypes,
        Abuse::PeerTypes,
        Abuse::PeerRemoves,
    ];
    let pairs = all.clone();
    let mut list = vec![
        scenario("single", "each of the requests of the alphabet, before and after opening a file", move |ctx| {
            let open_first = ctx.flip();
            abuse(ctx, &all, 1, open_first)
        }),
        scenario("sequences", "all sequences of 3 of 13 requests and events around them (other editors, peers, vanishing sockets)", {
            let core = core.clone();
            move |ctx| {
                let open_first = ctx.flip();
                abuse(ctx, &core, 3, open_first)
            }
        }),
    ];
    for (kind, name, bounds) in [
        (0, "socket-cut", "messages on the socket of a real daemon, in two pieces, cut everywhere"),
        (1, "socket-end", "the connection ends everywhere in the messages"),
        (2, "socket-insert", "one of 6 bytes in between, everywhere"),
        (3, "socket-omit", "one byte is missing, everywhere"),
        (4, "socket-long", "long lines"),
    ] {
        list.push(scenario(name, bounds, move |ctx| socket_bytes(ctx, kind)).waiting(24));
    }
    let n = tier.pick(5, 7);
    list.push(
        scenario("socket-visitors", format!("all sequences of {n} editors coming and going"), move |ctx| {
            socket_visitors(ctx, n)
        })
        .waiting(24),
    );
    if tier == Tier::Thorough {
        list.push(scenario("pairs", "all pairs of the whole alphabet with the file open", move |ctx| {
            abuse(ctx, &pairs, 2, true)
        }));
        list.push(scenario("long-sequences", "all sequences of 4", move |ctx| abuse(ctx, &core, 4, true)));
    }
    list
}


// ---------------------------------------------------------------------------------------------
// C07

/// Something that happens around a file.
#[derive(Clone, Debug, PartialEq)]
enum Happening {
    Open(usize),
    Close(usize),
    Disconnect(usize),
    Type(usize),
    Erase(usize),
    /// Another program changes the file; the watcher's notification comes at once or later.
    Write { noticed: bool },
    Remove,
    Notify,
    /// The same at a peer.
    PeerWrites,
}

fn ownership(ctx: &mut Ctx, list: &[Happening], depth: usize) -> Res {
    let mut w = World::default();
    let mut a = Node::new(ctx, 'A', 1);
    a.write("f", "ab");
    a.start(ctx, false, true)?;
    let mut b = Node::new(ctx, 'B', 2);
    b.start(ctx, false, false)?;
    w.nodes.push(a);
    w.nodes.push(b);
    w.link(ctx, 0, 1);
    w.settle(ctx)?;
    for name in ['1', '2'] {
        w.connect_editor(ctx, name, 0)?;
    }
    w.settle(ctx)?;
    // What has to be on disk while the file is open.
    let mut disk = w.nodes[0].read("f");
    // A change by another program that the watcher has not reported yet.
    let mut pending = false;
    for step in 0..depth {
        let open = |w: &World, e: usize| w.editors[e].buffers.contains_key("f");
        let possible: Vec<Happening> = list
            .iter()
            .filter(|h| match h {
                Happening::Open(e) => w.editors[*e].connected() && !open(&w, *e),
                Happening::Close(e) | Happening::Type(e) | Happening::Erase(e) => open(&w, *e),
                Happening::Disconnect(e) => w.editors[*e].connected(),
                Happening::Write { .. } => true,
                Happening::Remove => w.nodes[0].read("f").is_some(),
                Happening::Notify => pending,
                Happening::PeerWrites => true,
            })
            .cloned()
            .collect();
        let h = ctx.pick(&possible);
        note!(ctx, "{h:?}");
        let before = w.nodes[0].observe(ctx)?;
        let was_open = w.is_open(0, "f");
        let token = format!("{step}");
        match &h {
            Happening::Open(e) => {
                w.open(ctx, *e, "f")?;
                if was_open && disk.is_none() {
                    disk = w.nodes[0].read("f");
                }
                pending &= was_open;
            }
            Happening::Close(e) => w.close(ctx, *e, "f"),
            Happening::Disconnect(e) => w.disconnect_editor(ctx, *e)?,
            Happening::Type(e) => w.type_text(ctx, *e, "f", 0, 0, &token),
            Happening::Erase(e) => {
                let n = text::len(&w.editors[*e].buffers["f"].content);
                w.type_text(ctx, *e, "f", 0, n, "");
            }
            Happening::Write { noticed } => {
                let content = format!("{}w{token}", w.nodes[0].read("f").unwrap_or_default());
                disk = Some(content.clone());
                w.nodes[0].write("f", &content);
                if *noticed {
                    w.nodes[0].changed(ctx, "f")?;
                    pending = false;
                } else {
                    pending = true;
                }
            }
            Happening::Remove => {
                disk = None;
                w.nodes[0].remove("f");
                w.nodes[0].removed(ctx, "f")?;
                pending = false;
            }
            Happening::Notify => {
                pending = false;
                if w.nodes[0].read("f").is_some() {
                    w.nodes[0].changed(ctx, "f")?;
                }
            }
            Happening::PeerWrites => {
                let content = format!("{}p{token}", w.nodes[1].read("f").unwrap_or_default());
                let existed = w.nodes[1].read("f").is_some();
                w.nodes[1].write("f", &content);
                if existed {
                    w.nodes[1].changed(ctx, "f")?;
                } else {
                    w.nodes[1].created(ctx, "f")?;
                }
            }
        }
        w.settle(ctx)?;
        let now_open = w.is_open(0, "f");
        let after = w.nodes[0].observe(ctx)?;
        if was_open && now_open {
            ensure!(
                w.nodes[0].read("f") == disk,
                "after {h:?}, the open file on disk became {:?} instead of {disk:?}",
                w.nodes[0].read("f")
            );
            if matches!(h, Happening::Write { .. } | Happening::Remove | Happening::Notify) {
                ensure!(
                    before == after,
                    "{h:?} changed the document from {before:?} to {after:?} although the file is open"
                );
            }
        }
        if was_open && !now_open {
            pending = false;
            ctx.outcome("given back");
        }
        if !now_open && !pending {
            ensure!(
                w.nodes[0].read("f") == after.get("f").cloned(),
                "after {h:?}, the file on disk is {:?} but {:?} is shared",
                w.nodes[0].read("f"),
                after.get("f")
            );
        }
        if !now_open || (!was_open && now_open) {
            disk = w.nodes[0].read("f");
        }
        for e in &w.editors {
            ensure!(e.errors.is_empty(), "editor {} got {:?}", e.name, e.errors);
            if let Some(b) = e.buffers.get("f") {
                ensure!(
                    Some(&b.content) == after.get("f"),
                    "editor {} shows {:?} but {:?} is shared",
                    e.name,
                    b.content,
                    after.get("f")
                );
            }
        }
        ctx.state(&(after, &disk, now_open, pending));
    }
    if !pending {
        w.check_converged(ctx)?;
    }
    w.shutdown(ctx);
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
enum WithFile {
    Open(usize, usize),
    Close(usize, usize),
    Type(usize, usize),
    Disconnect(usize),
    /// Another program changes a file here.
    Write(usize),
    /// Another program replaces a file here.
    Recreate(usize),
    PeerWrites(usize),
    PeerWritesAll,
}

/// Several files, each open in any of two editors: they have nothing to do with each other.
fn several_files(ctx: &mut Ctx, files: &[&str], depth: usize) -> Res {
    let mut w = World::default();
    let mut a = Node::new(ctx, 'A', 1);
    for f in files {
        a.write(f, "ab\n");
    }
    a.start(ctx, false, true)?;
    let mut b = Node::new(ctx, 'B', 2);
    b.start(ctx, false, false)?;
    w.nodes.push(a);
    w.nodes.push(b);
    w.link(ctx, 0, 1);
    w.settle(ctx)?;
    for name in ['1', '2'] {
        w.connect_editor(ctx, name, 0)?;
    }
    // The first editor has any of the files open and has typed in them, the second one all or none.
    for f in files {
        if ctx.flip() {
            note!(ctx, "editor 1 opens {f} and types");
            w.open(ctx, 0, f)?;
            w.settle(ctx)?;
            w.type_text(ctx, 0, f, 1, 0, "e");
        }
    }
    if ctx.flip() {
        for f in files {
            w.open(ctx, 1, f)?;
        }
    }
    w.settle(ctx)?;
    for step in 0..depth {
        let open = |w: &World, e: usize, i: usize| w.editors[e].buffers.contains_key(files[i]);
        let mut list = vec![];
        for e in 0..2 {
            for i in 0..files.len() {
                if open(&w, e, i) {
                    list.push(WithFile::Close(e, i));
                    list.push(WithFile::Type(e, i));
                } else if w.editors[e].connected() && e == 0 {
                    list.push(WithFile::Open(e, i));
                }
            }
            if w.editors[e].connected() && !w.editors[e].buffers.is_empty() {
                list.push(WithFile::Disconnect(e));
            }
        }
        for i in 0..files.len() {
            list.extend([WithFile::Write(i), WithFile::Recreate(i), WithFile::PeerWrites(i)]);
        }
        list.push(WithFile::PeerWritesAll);
        let act = ctx.pick(&list);
        note!(ctx, "{act:?}");
        let was_open: Vec<bool> = files.iter().map(|f| w.is_open(0, f)).collect();
        let mut disk = w.nodes[0].disk();
        let before = w.nodes[0].observe(ctx)?;
        let token = format!("{step}");
        match &act {
            WithFile::Open(e, i) => w.open(ctx, *e, files[*i])?,
            WithFile::Close(e, i) => w.close(ctx, *e, files[*i]),
            WithFile::Type(e, i) => w.type_text(ctx, *e, files[*i], 0, 0, &token),
            WithFile::Disconnect(e) => w.disconnect_editor(ctx, *e)?,
            WithFile::Write(i) | WithFile::Recreate(i) => {
                let f = files[*i];
                let content = format!("{}w{token}\n", w.nodes[0].read(f).unwrap_or_default());
                w.nodes[0].write(f, &content);
                disk.insert(f.to_string(), content);
                if matches!(act, WithFile::Write(_)) {
                    w.nodes[0].changed(ctx, f)?;
                } else {
                    w.nodes[0].removed(ctx, f)?;
                    w.nodes[0].created(ctx, f)?;
                }
            }
            WithFile::PeerWrites(_) | WithFile::PeerWritesAll => {
                for (i, f) in files.iter().enumerate() {
                    if act == WithFile::PeerWritesAll || act == WithFile::PeerWrites(i) {
                        let content = format!("{}p{token}\n", w.nodes[1].read(f).unwrap_or_default());
                        w.nodes[1].write(f, &content);
                        w.nodes[1].changed(ctx, f)?;
                    }
                }
            }
        }
        w.settle(ctx)?;
        let after = w.nodes[0].observe(ctx)?;
        for (i, f) in files.iter().enumerate() {
            let now = w.nodes[0].read(f);
            if w.is_open(0, f) {
                if was_open[i] {
                    ensure!(
                        now.as_ref() == disk.get(*f),
                        "after {act:?}, the open file {f} on disk became {now:?} instead of {:?}",
                        disk.get(*f)
                    );
                    if matches!(act, WithFile::Write(_) | WithFile::Recreate(_)) {
                        ensure!(
                            before.get(*f) == after.get(*f),
                            "{act:?} changed {f} from {:?} to {:?} although it is open",
                            before.get(*f),
                            after.get(*f)
                        );
                    }
                }
            } else {
                ensure!(
                    now.as_ref() == after.get(*f),
                    "after {act:?}, {f} is {now:?} on disk but {:?} is shared",
                    after.get(*f)
                );
            }
        }
        w.check_converged(ctx)?;
        for e in &w.editors {
            ensure!(e.errors.is_empty(), "editor {} got {:?}", e.name, e.errors);
        }
        ctx.state(&(after, w.nodes[0].disk(), was_open));
    }
    w.shutdown(ctx);
    Ok(())
}

fn c07(tier: Tier) -> Vec<Scenario> {
    use Happening::*;
    let one = vec![
        Open(0),
        Close(0),
        Disconnect(0),
        Type(0),
        Erase(0),
        Write { noticed: true },
        Write { noticed: false },
        Notify,
        Remove,
        PeerWrites,
    ];
    let two = vec![
        Open(0),
        Open(1),
        Close(0),
        Close(1),
        Disconnect(1),
        Type(0),
        Type(1),
        Write { noticed: true },
        PeerWrites,
    ];
    let (n1, n2, n3) = (tier.pick(5, 6), tier.pick(6, 7), tier.pick(2, 3));
    vec![
        scenario(
            "one-editor",
            format!("all sequences of {n1} of 10 happenings (editor, other programs with late notifications, a peer)"),
            move |ctx| ownership(ctx, &one, n1),
        ),
        scenario(
            "two-editors",
            format!("all sequences of {n2} of 9 happenings with two editors"),
            move |ctx| ownership(ctx, &two, n2),
        ),
        scenario(
            "several-files",
            format!("4 files, any of them open in one editor and none or all in another, all sequences of {n3} happenings with them"),
            move |ctx| several_files(ctx, &["f", "d/f", "d/g", "f.x/f"], n3),
        ),
    ]
}

// ---------------------------------------------------------------------------------------------
// C12

fn cursor_ranges(k: usize) -> Value {
    match k % 3 {
        0 => json!([{"start": pos(0, 0), "end": pos(0, 1)}]),
        1 => json!([{"start": pos(0, 1), "end": pos(0, 0)}, {"start": pos(0, 2), "end": pos(0, 2)}]),
        _ => json!([{"start": pos(0, 2), "end": pos(0, 2)}]),
    }
}

#[derive(Clone, Debug, PartialEq)]
enum CursorAct {
    Move(usize, &'static str),
    Leave(usize),
    /// The connection breaks, the daemon finds out by failing to send.
    Vanish(usize),
    /// The daemon finds out by reading.
    End(usize),
    Sync(SyncAction),
    Cut,
    Reconnect,
}

/// `sites`: the daemons the editors belong to. With `eager`, everything is delivered after each
/// step, otherwise in every possible order.
fn cursors_everywhere(ctx: &mut Ctx, sites: &[usize], files: &[&'static str], depth: usize, eager: bool, cuts: usize, vanish: bool, opening: bool) -> Res {
    std::env::set_var("USER", "user name");
    named_cursors(ctx, sites, files, depth, eager, cuts, vanish, opening)
}

fn named_cursors(ctx: &mut Ctx, sites: &[usize], files: &[&'static str], depth: usize, eager: bool, cuts: usize, vanish: bool, opening: bool) -> Res {
    let mut w = World::default();
    for (i, name) in ['A', 'B', 'C'].into_iter().enumerate() {
        if i > *sites.iter().max().unwrap() {
            break;
        }
        let mut n = Node::new(ctx, name, i as u8 + 1);
        if i == 0 {
            for f in files {
                n.write(f, "abc");
            }
        }
        n.start(ctx, false, i == 0)?;
        w.nodes.push(n);
        if i > 0 {
            w.link(ctx, i - 1, i);
        }
    }
    w.settle(ctx)?;
    for (i, site) in sites.iter().enumerate() {
        w.connect_editor(ctx, char::from(b'1' + i as u8), *site)?;
    }
    w.settle(ctx)?;
    // What they have open makes no difference.
    if opening {
        for e in 0..sites.len() {
            match ctx.choose(files.len() + 1) {
                0 => {}
                i => {
                    note!(ctx, "editor {} opens {}", w.editors[e].name, files[i - 1]);
                    w.open(ctx, e, files[i - 1])?;
                    w.settle(ctx)?;
                }
            }
        }
    }
    // The latest position of each editor; None when it is gone.
    let mut latest: Vec<Option<(&'static str, Value)>> = vec![None; sites.len()];
    let mut moved = vec![false; sites.len()];
    let (mut left, mut cuts) = (depth, cuts);
    let mut k = 0;
    let mut asleep: Vec<CursorAct> = vec![];
    // Editors whose end the daemon has not read yet.
    let mut vanished: Vec<usize> = vec![];
    while left > 0 {
        let mut acts: Vec<CursorAct> = vanished.iter().map(|e| CursorAct::End(*e)).collect();
        for e in 0..sites.len() {
            if w.editors[e].connected() {
                acts.extend(files.iter().map(|f| CursorAct::Move(e, f)));
                acts.push(CursorAct::Leave(e));
                if vanish {
                    acts.push(CursorAct::Vanish(e));
                }
            }
        }
        if !eager {
            acts.extend(w.sync_actions().into_iter().map(CursorAct::Sync));
            if cuts > 0 && w.links.iter().all(|l| l.up) {
                acts.push(CursorAct::Cut);
            }
            if w.links.iter().any(|l| !l.up) {
                acts.push(CursorAct::Reconnect);
            }
        }
        if acts.is_empty() {
            break;
        }
        let site = |a: &CursorAct| match a {
            CursorAct::Move(e, _) | CursorAct::Leave(e) | CursorAct::Vanish(e) | CursorAct::End(e) => Some(sites[*e]),
            CursorAct::Sync(s) => Some(w.node_of(s)),
            _ => None,
        };
        let Some(act) = ctx.choose_action(&acts, &mut asleep, |a, b| match (site(a), site(b)) {
            (Some(a), Some(b)) => !eager && a != b,
            _ => false,
        }) else {
            ctx.outcome("redundant interleaving cut off");
            w.shutdown(ctx);
            return Ok(());
        };
        match &act {
            CursorAct::Move(e, file) => {
                left -= 1;
                k += 1;
                let own = w.editors[*e].cursor_log.len();
                let ranges = cursor_ranges(k);
                note!(ctx, "editor {} moves to {ranges} in {file}", w.editors[*e].name);
                let uri = w.nodes[sites[*e]].uri(file);
                // Plugins send notifications or requests.
                if k % 2 == 0 {
                    w.request(*e, "cursor", json!({"uri": uri, "ranges": ranges}));
                } else {
                    w.editors[*e].outbox.push_back(
                        json!({"jsonrpc": "2.0", "method": "cursor", "params": {"uri": uri, "ranges": ranges}}),
                    );
                }
                while !w.editors[*e].outbox.is_empty() {
                    w.deliver_to_daemon(ctx, *e)?;
                }
                while !w.editors[*e].inbox.is_empty() {
                    w.deliver_to_editor(ctx, *e)?;
                }
                latest[*e] = Some((file, ranges));
                moved[*e] = true;
                if eager {
                    w.settle(ctx)?;
                    ensure!(
                        w.editors[*e].cursor_log.len() == own,
                        "editor {} got its own cursor back: {:?}",
                        w.editors[*e].name,
                        w.editors[*e].cursor_log.last()
                    );
                }
            }
            CursorAct::Leave(e) => {
                left -= 1;
                w.disconnect_editor(ctx, *e)?;
                latest[*e] = None;
            }
            CursorAct::Vanish(e) => {
                left -= 1;
                note!(ctx, "the connection of editor {} breaks", w.editors[*e].name);
                w.editors[*e].hang_up();
                latest[*e] = None;
                vanished.push(*e);
            }
            CursorAct::End(e) => {
                w.disconnect_editor(ctx, *e)?;
                vanished.retain(|v| v != e);
            }
            CursorAct::Sync(s) => w.sync(ctx, s)?,
            CursorAct::Cut => {
                cuts -= 1;
                w.cut(ctx, 0);
            }
            CursorAct::Reconnect => {
                for l in 0..w.links.len() {
                    if !w.links[l].up {
                        w.reconnect(ctx, l);
                    }
                }
            }
        }
        if eager {
            w.settle(ctx)?;
            if vanished.is_empty() {
                check_cursors(&w, sites, &latest, &moved)?;
            }
        }
        let f = w.fingerprint();
        ctx.state(&(f, format!("{latest:?}")));
    }
    for e in vanished {
        w.disconnect_editor(ctx, e)?;
    }
    for l in 0..w.links.len() {
        if !w.links[l].up {
            w.reconnect(ctx, l);
        }
    }
    w.settle(ctx)?;
    check_cursors(&w, sites, &latest, &moved)?;
    ctx.outcome("checked");
    w.shutdown(ctx);
    Ok(())
}

/// What everybody shows is what everybody else last said.
fn check_cursors(w: &World, sites: &[usize], latest: &[Option<(&'static str, Value)>], moved: &[bool]) -> Res {
    let name = json!(std::env::var("USER").ok());
    let mut id_of: Vec<Option<String>> = vec![None; sites.len()];
    for (v, viewer) in w.editors.iter().enumerate() {
        if !viewer.connected() {
            continue;
        }
        ensure!(viewer.errors.is_empty(), "editor {} got {:?}", viewer.name, viewer.errors);
        // Which cursors the viewer should show.
        let wanted: Vec<usize> = (0..sites.len()).filter(|e| *e != v && latest[*e].is_some()).collect();
        let shown: Vec<(&String, &Value)> = viewer
            .cursors
            .iter()
            .filter(|(_, c)| c["ranges"] != json!([]))
            .collect();
        ensure!(
            shown.len() == wanted.len(),
            "editor {} shows {} cursors instead of {}: {shown:?}",
            viewer.name,
            shown.len(),
            wanted.len()
        );
        for e in wanted {
            let (file, ranges) = latest[e].clone().unwrap();
            let uri = w.nodes[viewer.node].uri(file);
            let matches: Vec<&(&String, &Value)> = shown
                .iter()
                .filter(|(_, c)| c["uri"] == json!(uri) && c["ranges"] == ranges && c["name"] == name)
                .collect();
            // Equal positions of several editors are told apart by their identifiers below.
            ensure!(
                !matches.is_empty(),
                "editor {} does not show the cursor of editor {} ({file}, {ranges}): {shown:?}",
                viewer.name,
                w.editors[e].name
            );
            if let [(id, _)] = matches.as_slice() {
                if let Some(known) = &id_of[e] {
                    ensure!(known == *id, "editor {} has the identifiers {known} and {id}", w.editors[e].name);
                }
                id_of[e] = Some(id.to_string());
            }
        }
        // Never more identifiers than editors that ever had a cursor (or left).
        let others = (0..sites.len())
            .filter(|e| *e != v && (moved[*e] || !w.editors[*e].connected()))
            .count();
        ensure!(
            viewer.cursors.len() <= others,
            "editor {} knows {} cursors of {others} editors: {:?}",
            viewer.name,
            viewer.cursors.len(),
            viewer.cursors
        );
    }
    let ids: Vec<&String> = id_of.iter().flatten().collect();
    let distinct: BTreeSet<&String> = ids.iter().copied().collect();
    ensure!(ids.len() == distinct.len(), "editors share identifiers: {id_of:?}");
    Ok(())
}

/// The file a cursor is in disappears, then the editor does.
fn cursor_without_files(ctx: &mut Ctx) -> Res {
    std::env::set_var("USER", "user name");
    let mut w = World::default();
    let mut a = Node::new(ctx, 'A', 1);
    a.write("f", "abc");
    a.start(ctx, false, true)?;
    let mut b = Node::new(ctx, 'B', 2);
    b.start(ctx, false, false)?;
    w.nodes.push(a);
    w.nodes.push(b);
    w.link(ctx, 0, 1);
    w.settle(ctx)?;
    let (leaver, viewer) = ctx.pick(&[(0, 1), (1, 0)]);
    let e = w.connect_editor(ctx, '1', leaver)?;
    let v = w.connect_editor(ctx, '2', viewer)?;
    let v2 = w.connect_editor(ctx, '3', leaver)?;
    let uri = w.nodes[leaver].uri("f");
    w.request(e, "cursor", json!({"uri": uri, "ranges": cursor_ranges(0)}));
    w.settle(ctx)?;
    for v in [v, v2] {
        ensure!(w.editors[v].cursors.len() == 1, "the cursor is not shown: {:?}", w.editors[v].cursors);
    }
    let remover = ctx.choose(2);
    w.nodes[remover].remove("f");
    w.nodes[remover].removed(ctx, "f")?;
    w.settle(ctx)?;
    w.disconnect_editor(ctx, e)?;
    w.settle(ctx)?;
    for v in [v, v2] {
        for c in w.editors[v].cursors.values() {
            ensure!(c["ranges"] == json!([]), "the cursor of a gone editor is still shown: {c}");
        }
    }
    w.shutdown(ctx);
    Ok(())
}

fn c12(tier: Tier) -> Vec<Scenario> {
    let (n1, n2, n3, n4) = (tier.pick(5, 6), tier.pick(3, 4), tier.pick(4, 5), tier.pick(2, 3));
    // A name is that of the whole process, so each has a scenario of its own.
    let mut list: Vec<Scenario> = [("no-name", None), ("empty-name", Some("")), ("strange-name", Some("ä \"\\{\n💚"))]
        .into_iter()
        .map(|(scenario_name, name)| {
            scenario(
                scenario_name,
                format!("the user's name is {name:?}, all sequences of {n4} cursor movements and disconnections of 3 editors on 2 peers"),
                move |ctx| {
                    match name {
                        Some(name) => std::env::set_var("USER", name),
                        None => std::env::remove_var("USER"),
                    }
                    named_cursors(ctx, &[0, 0, 1], &["f"], n4, true, 0, false, false)
                },
            )
        })
        .collect();
    list.extend([
        scenario(
            "eager",
            format!("all sequences of {n1} cursor movements and disconnections of 3 editors on 2 peers, 2 files"),
            move |ctx| cursors_everywhere(ctx, &[0, 0, 1], &["f", "d/g"], n1, true, 0, false, false),
        ),
        scenario(
            "three-peers",
            format!("all sequences of {n2} cursor movements and disconnections of 3 editors on 3 peers in a chain"),
            move |ctx| cursors_everywhere(ctx, &[0, 1, 2], &["f"], n2, true, 0, false, false),
        ),
        scenario(
            "delayed",
            format!("{n2} cursor movements and disconnections of 2 editors on 2 peers, messages between the peers in every order, the connection breaks once"),
            move |ctx| cursors_everywhere(ctx, &[0, 1], &["f"], n2, false, 1, false, false),
        ),
        scenario(
            "vanishing",
            format!("all sequences of {n3} cursor movements, disconnections and connections that break before the daemon reads their end"),
            move |ctx| cursors_everywhere(ctx, &[0, 0, 1], &["f"], n3, true, 0, true, false),
        ),
        scenario(
            "open-files",
            format!("3 editors on 2 peers, each with none or one of 2 files open, all sequences of {n4} cursor movements and disconnections"),
            move |ctx| cursors_everywhere(ctx, &[0, 0, 1], &["f", "d/g"], n4, true, 0, false, true),
        ),
        scenario(
            "many-editors",
            format!("all sequences of {n2} cursor movements and disconnections of 5 editors on one of 2 peers, and one on the other"),
            move |ctx| cursors_everywhere(ctx, &[0, 0, 0, 0, 0, 1], &["f"], n2, true, 0, false, false),
        ),
        scenario("without-files", "an editor leaves when the project has no files any more", cursor_without_files),
        scenario(
            "processes",
            format!("all sequences of {n4} cursor movements and disconnections of 4 editors on 3 real daemons"),
            move |ctx| cursors_between_processes(ctx, n4),
        )
        .waiting(24),
    ]);
    list
}

fn cursors_between_processes(ctx: &mut Ctx, depth: usize) -> Res {
    let steps: Vec<(usize, bool)> = (0..depth).map(|_| (ctx.choose(4), ctx.flip())).collect();
    patiently(ctx, |ctx| {
        let mut w = live::Live::new(ctx, 3, &[("f", "ab\ncd")])?;
        for i in [0, 0, 1, 2] {
            let mut e = w.nodes[i].connect()?;
            // When this is answered, the daemon knows the editor.
            e.open("f")?;
            w.editors.push((i, e));
        }
        let mut cursors: Vec<Option<Option<(u64, u64)>>> = vec![Some(None); 4];
        // Everyone has been somewhere, so that there is something to take back.
        for e in 0..4 {
            let at = (0, e as u64 % 3);
            w.editors[e].1.cursor("f", at)?;
            cursors[e] = Some(Some(at));
        }
        cursors_shown(ctx, &mut w, &cursors)?;
        for (i, (e, leave)) in steps.iter().enumerate() {
            if cursors[*e].is_none() {
                continue;
            }
            if *leave {
                note!(ctx, "editor {e} leaves");
                let _ = w.editors[*e].1.stream.shutdown(std::net::Shutdown::Both);
                cursors[*e] = None;
            } else {
                note!(ctx, "editor {e} moves");
                let at = (1, i as u64);
                w.editors[*e].1.cursor("f", at)?;
                cursors[*e] = Some(Some(at));
            }
            cursors_shown(ctx, &mut w, &cursors)?;
        }
        Ok(())
    })
}

/// Every connected editor shows where all the others are.
fn cursors_shown(ctx: &mut Ctx, w: &mut live::Live, cursors: &[Option<Option<(u64, u64)>>]) -> Res {
    ctx.step();
    ctx.state(&cursors);
    for i in 0..cursors.len() {
        if cursors[i].is_none() {
            continue;
        }
        let mut wanted: Vec<(String, Value)> = cursors
            .iter()
            .enumerate()
            .filter(|(j, _)| *j != i)
            .filter_map(|(_, c)| c.flatten())
            .map(|at| {
                let p = json!({"line": at.0, "character": at.1});
                ("f".to_string(), json!([{"start": p, "end": p}]))
            })
            .collect();
        wanted.sort_by_key(|x| x.1.to_string());
        let mut last = vec![];
        let shown = wait_until(PATIENCE, || {
            if let Err(v) = w.editors[i].1.pump() {
                return Some(Err(v));
            }
            last = w.editors[i].1.cursors.values().map(|c| (c.1.clone(), c.2.clone())).collect();
            last.sort_by_key(|x| x.1.to_string());
            (last == wanted).then_some(Ok(()))
        });
        match shown {
            None => fail!("editor {i} shows the cursors {last:?} instead of {wanted:?}"),
            Some(r) => r?,
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C20

#[derive(Clone, Debug, PartialEq)]
enum Doing {
    Open(usize, &'static str),
    Close(usize, &'static str),
    Type(usize, &'static str),
    Replace(usize, &'static str),
    Leave(usize),
    Come(usize),
}

#[derive(Clone, Copy, PartialEq)]
enum Extra {
    Nothing,
    /// Replacing most of the text.
    Replacing,
    /// Opening a file that is open already.
    Reopening,
}

fn several_editors(ctx: &mut Ctx, editors: usize, files: &[&'static str], depth: usize, extra: Extra) -> Res {
    let mut w = World::default();
    let mut a = Node::new(ctx, 'A', 1);
    for f in files {
        a.write(f, "a\nb");
    }
    a.start(ctx, false, true)?;
    w.nodes.push(a);
    // Position of each editor's current connection in the world.
    let mut at = vec![];
    for i in 0..editors {
        at.push(w.connect_editor(ctx, char::from(b'1' + i as u8), 0)?);
    }
    w.settle(ctx)?;
    for step in 0..depth {
        let mut list = vec![];
        for e in 0..editors {
            if !w.editors[at[e]].connected() {
                list.push(Doing::Come(e));
                continue;
            }
            for f in files {
                if w.editors[at[e]].buffers.contains_key(*f) {
                    list.push(Doing::Type(e, f));
                    match extra {
                        Extra::Nothing => {}
                        Extra::Replacing => list.push(Doing::Replace(e, f)),
                        Extra::Reopening => list.push(Doing::Open(e, f)),
                    }
                    list.push(Doing::Close(e, f));
                } else {
                    list.push(Doing::Open(e, f));
                }
            }
            list.push(Doing::Leave(e));
        }
        let d = ctx.pick(&list);
        note!(ctx, "{d:?}");
        let before: Vec<usize> = w.editors.iter().map(|e| e.edits_received.len()).collect();
        let refused: usize = w.editors.iter().map(|e| e.refused).sum();
        let mut typed: Option<(usize, &str)> = None;
        let mut opened: Option<usize> = None;
        match &d {
            Doing::Open(e, f) => {
                w.open(ctx, at[*e], f)?;
                opened = Some(at[*e]);
            }
            Doing::Close(e, f) => w.close(ctx, at[*e], f),
            Doing::Type(e, f) => {
                let n = text::len(&w.editors[at[*e]].buffers[*f].content);
                w.type_text(ctx, at[*e], f, n, 0, &format!("{step}"));
                typed = Some((at[*e], f));
            }
            Doing::Replace(e, f) => {
                let n = text::len(&w.editors[at[*e]].buffers[*f].content);
                w.type_text(ctx, at[*e], f, n.min(1), n - n.min(1), &format!("{step}\n"));
                typed = Some((at[*e], f));
            }
            Doing::Leave(e) => w.disconnect_editor(ctx, at[*e])?,
            Doing::Come(e) => {
                at[*e] = w.connect_editor(ctx, char::from(b'1' + *e as u8), 0)?;
            }
        }
        w.settle(ctx)?;
        for (i, e) in w.editors.iter().enumerate() {
            ensure!(e.errors.is_empty(), "editor {} got {:?}", e.name, e.errors);
            ensure!(e.unanswered.is_empty(), "editor {} got no answer", e.name);
            let new = &e.edits_received[before.get(i).copied().unwrap_or(0)..];
            let allowed = match typed {
                Some((author, f)) => i != author && e.buffers.contains_key(f),
                // Somebody who opens a file may be told about unsaved changes in it.
                None => opened == Some(i),
            };
            if !allowed {
                ensure!(new.is_empty(), "after {d:?}, editor {} got {new:?}", e.name);
            } else if let Some((_, f)) = typed {
                ensure!(!new.is_empty(), "after {d:?}, editor {} got nothing", e.name);
                let uri = w.nodes[0].uri(f);
                ensure!(
                    new.iter().all(|n| n["uri"] == json!(uri)),
                    "after {d:?}, editor {} got {new:?}",
                    e.name
                );
            }
        }
        let now: usize = w.editors.iter().map(|e| e.refused).sum();
        ensure!(
            now == refused,
            "after {d:?}, an edit had a revision that does not fit an up-to-date buffer"
        );
        let files = w.nodes[0].observe(ctx)?;
        w.pump()?;
        w.check_node(0, &files)?;
        let f = w.fingerprint();
        ctx.state(&f);
    }
    w.shutdown(ctx);
    Ok(())
}

fn c20(tier: Tier) -> Vec<Scenario> {
    let (n1, n2, n3) = (tier.pick(6, 7), tier.pick(6, 7), tier.pick(5, 6));
    vec![
        scenario(
            "three-editors",
            format!("all sequences of {n1} of opening, closing, typing, leaving and coming back of 3 editors with one file"),
            move |ctx| several_editors(ctx, 3, &["f"], n1, Extra::Nothing),
        ),
        scenario(
            "two-files",
            format!("all sequences of {n2} with 2 editors and 2 files"),
            move |ctx| several_editors(ctx, 2, &["f", "g"], n2, Extra::Nothing),
        ),
        scenario("replacing", "all sequences of 5 with 2 editors and one file, also replacing most of the text", move |ctx| {
            several_editors(ctx, 2, &["f"], 5, Extra::Replacing)
        }),
        scenario(
            "same-name",
            format!("all sequences of {n3} with 2 editors and 2 files of the same name in different directories"),
            move |ctx| several_editors(ctx, 2, &["f", "d/f"], n3, Extra::Nothing),
        ),
        scenario(
            "opened-again",
            format!("all sequences of {n3} with 2 editors and one file, also opening it again without closing it"),
            move |ctx| several_editors(ctx, 2, &["f"], n3, Extra::Reopening),
        ),
    ]
}
