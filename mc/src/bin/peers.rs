//! C01: peers converge. C03: concurrent typing is neither lost nor duplicated.

#[path = "../world.rs"]
mod world;

use mc::*;
use world::*;

fn main() {
    let o = parse_args();
    let scenarios = match o.property.as_str() {
        "C01" => c01(o.tier),
        "C03" => c03(o.tier),
        p => engine_error(&format!("unknown property {p}")),
    };
    run_check(
        &o,
        "model_checking",
        &[
            "messages between two peers are neither lost nor reordered while a connection lasts (C13)",
            "a change on disk and its notification are handled as one step here (C11 separates them)",
            "an editor loads a file and the daemon handles its open request as one step",
        ],
        scenarios,
    );
}

/// A change made by another program at one peer, reported by the watcher.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    Prepend(&'static str),
    Append(&'static str),
    Replace(&'static str),
    Delete(&'static str),
    /// Content that does not depend on who writes it.
    Same(&'static str),
    Empty(&'static str),
}

fn apply(ctx: &mut Ctx, w: &mut World, n: usize, op: &Op, serial: usize) -> Res {
    let node = &mut w.nodes[n];
    note!(ctx, "{}: {op:?}", node.name);
    // What this change contributes is unique.
    let token = format!("{}{serial}", node.name);
    let (file, content) = match op {
        Op::Delete(file) => {
            node.remove(file);
            node.removed(ctx, file)?;
            return w.pump();
        }
        Op::Prepend(f) => (f, token + &node.read(f).unwrap_or_default()),
        Op::Append(f) => (f, node.read(f).unwrap_or_default() + &token),
        Op::Replace(f) => (f, token),
        Op::Same(f) => (f, "same".to_string()),
        Op::Empty(f) => (f, String::new()),
    };
    let existed = node.read(file).is_some();
    node.write(file, &content);
    if existed {
        node.changed(ctx, file)?;
    } else {
        node.created(ctx, file)?;
    }
    w.pump()
}

fn possible(w: &World, n: usize, op: &Op) -> bool {
    match op {
        Op::Delete(f) => w.nodes[n].read(f).is_some(),
        _ => true,
    }
}

/// `n` synchronized daemons with some files; links as given.
fn connected(ctx: &mut Ctx, n: usize, links: &[(usize, usize)], reverse_ids: bool) -> Res<World> {
    let mut w = World::default();
    for i in 0..n {
        let id = if reverse_ids { 9 - i } else { 1 + i };
        let mut node = Node::new(ctx, ['A', 'B', 'C'][i], id as u8);
        if i == 0 {
            node.write("f", "xy");
        }
        node.start(ctx, false, i == 0)?;
        w.nodes.push(node);
    }
    for (a, b) in links {
        w.link(ctx, *a, *b);
    }
    w.settle(ctx)?;
    let files = w.check_converged(ctx)?;
    ensure!(files.get("f").map(|s| s.as_str()) == Some("xy"), "initial content is {files:?}");
    w.settle(ctx)?;
    Ok(w)
}

const OPS: &[Op] = &[
    Op::Prepend("f"),
    Op::Append("f"),
    Op::Replace("f"),
    Op::Delete("f"),
    Op::Append("d/g"),
    Op::Same("d/g"),
    Op::Empty("d/g"),
    Op::Delete("d/g"),
];

#[derive(Clone, Debug, PartialEq)]
enum Act {
    Op(usize),
    Sync(SyncAction),
    Cut(usize),
}

/// Changes at two connected peers, interleaved in every way with the exchange of messages.
fn online(ctx: &mut Ctx, ops: &[Op], per_node: [usize; 2], cuts: usize) -> Res {
    let reverse = ctx.flip();
    let mut w = connected(ctx, 2, &[(0, 1)], reverse)?;
    let mut left = per_node;
    let mut cuts = cuts;
    let mut serial = 0;
    let mut asleep: Vec<Act> = vec![];
    while left != [0, 0] {
        let mut acts: Vec<Act> = (0..2).filter(|n| left[*n] > 0).map(Act::Op).collect();
        acts.extend(w.sync_actions().into_iter().map(Act::Sync));
        if cuts > 0 {
            acts.push(Act::Cut(0));
        }
        let node_of = |a: &Act| match a {
            Act::Op(n) => Some(*n),
            Act::Sync(s) => Some(w.node_of(s)),
            Act::Cut(_) => None,
        };
        let chosen = ctx.choose_action(&acts, &mut asleep, |a, b| match (node_of(a), node_of(b)) {
            (Some(a), Some(b)) => a != b,
            _ => false,
        });
        let Some(act) = chosen else {
            ctx.outcome("redundant interleaving cut off");
            w.shutdown(ctx);
            return Ok(());
        };
        match &act {
            Act::Op(n) => {
                let list: Vec<Op> = ops.iter().filter(|o| possible(&w, *n, o)).cloned().collect();
                let op = ctx.pick(&list);
                serial += 1;
                left[*n] -= 1;
                apply(ctx, &mut w, *n, &op, serial)?;
            }
            Act::Sync(s) => w.sync(ctx, s)?,
            Act::Cut(l) => {
                cuts -= 1;
                w.cut(ctx, *l);
                w.reconnect(ctx, *l);
            }
        }
        let f = w.fingerprint();
        ctx.state(&f);
    }
    finish(ctx, &mut w)
}

fn finish(ctx: &mut Ctx, w: &mut World) -> Res {
    w.settle(ctx)?;
    let files = w.check_converged(ctx)?;
    ctx.state(&files);
    ctx.outcome(&format!("{} files", files.len()));
    w.shutdown(ctx);
    Ok(())
}

/// Changes at disconnected peers, then a reconnection.
fn offline(ctx: &mut Ctx, ops: &[Op], max: [usize; 2]) -> Res {
    let reverse = ctx.flip();
    let mut w = connected(ctx, 2, &[(0, 1)], reverse)?;
    w.cut(ctx, 0);
    let mut serial = 0;
    for n in 0..2 {
        for _ in 0..max[n] {
            let mut list: Vec<Option<Op>> = vec![None];
            list.extend(ops.iter().filter(|o| possible(&w, n, o)).cloned().map(Some));
            let Some(op) = ctx.pick(&list) else { break };
            serial += 1;
            apply(ctx, &mut w, n, &op, serial)?;
        }
        let f = w.fingerprint();
        ctx.state(&f);
    }
    w.reconnect(ctx, 0);
    finish(ctx, &mut w)
}

/// Three peers: two of them only know each other through the first.
fn three(ctx: &mut Ctx, ops: &[Op]) -> Res {
    let reverse = ctx.flip();
    let mut w = connected(ctx, 3, &[(0, 1), (0, 2)], reverse)?;
    let mut left = [1, 1, 1];
    let mut serial = 0;
    let up = ctx.choose(3);
    // 0: both connected, 1: the first link is down, 2: both are down
    for l in 0..up {
        w.cut(ctx, l);
    }
    for _ in 0..3 {
        let nodes: Vec<usize> = (0..3).filter(|n| left[*n] > 0).collect();
        let n = ctx.pick(&nodes);
        let list: Vec<Op> = ops.iter().filter(|o| possible(&w, n, o)).cloned().collect();
        let op = ctx.pick(&list);
        serial += 1;
        left[n] -= 1;
        apply(ctx, &mut w, n, &op, serial)?;
        if ctx.flip() {
            w.settle(ctx)?;
        }
        let f = w.fingerprint();
        ctx.state(&f);
    }
    // The links come back one after the other, or together.
    let order = if up == 2 { ctx.choose(3) } else { 0 };
    match (up, order) {
        (1, _) => w.reconnect(ctx, 0),
        (2, 0) => {
            w.reconnect(ctx, 0);
            w.settle(ctx)?;
            w.reconnect(ctx, 1);
        }
        (2, 1) => {
            w.reconnect(ctx, 1);
            w.settle(ctx)?;
            w.reconnect(ctx, 0);
        }
        (2, _) => {
            w.reconnect(ctx, 0);
            w.reconnect(ctx, 1);
        }
        _ => {}
    }
    finish(ctx, &mut w)
}

/// Directories full of files, made at both peers before they meet again.
fn trees(ctx: &mut Ctx, files: &[&str]) -> Res {
    let reverse = ctx.flip();
    let mut w = connected(ctx, 2, &[(0, 1)], reverse)?;
    w.cut(ctx, 0);
    for n in 0..2 {
        for (i, file) in files.iter().enumerate() {
            let content = match ctx.choose(3) {
                0 => continue,
                1 => String::new(),
                _ => format!("{}{i}\n", w.nodes[n].name),
            };
            note!(ctx, "{}: {file} becomes {content:?}", w.nodes[n].name);
            w.nodes[n].write(file, &content);
            w.nodes[n].created(ctx, file)?;
        }
    }
    w.pump()?;
    w.reconnect(ctx, 0);
    w.settle(ctx)?;
    let shared = w.check_converged(ctx)?;
    ctx.state(&shared);
    // Then everything goes away again at once.
    let n = ctx.choose(2);
    w.cut(ctx, 0);
    for file in shared.keys() {
        w.nodes[n].remove(file);
        w.nodes[n].removed(ctx, file)?;
    }
    w.pump()?;
    w.reconnect(ctx, 0);
    w.settle(ctx)?;
    let shared = w.check_converged(ctx)?;
    ensure!(shared.is_empty(), "everything was deleted, but {shared:?} is still shared");
    w.shutdown(ctx);
    Ok(())
}

/// An editor at one peer has the file open while the other changes it, and leaves in the end.
fn open_files(ctx: &mut Ctx, depth: usize) -> Res {
    let reverse = ctx.flip();
    let mut w = connected(ctx, 2, &[(0, 1)], reverse)?;
    let e = w.connect_editor(ctx, '1', 1)?;
    w.settle(ctx)?;
    w.open(ctx, e, "f")?;
    w.settle(ctx)?;
    let ops = [Op::Append("f"), Op::Replace("f"), Op::Delete("f"), Op::Empty("f"), Op::Append("g")];
    for serial in 1..=depth {
        let mut list: Vec<Option<Op>> =
            ops.iter().filter(|o| possible(&w, 0, o)).cloned().map(Some).collect();
        list.push(None);
        match ctx.pick(&list) {
            Some(op) => apply(ctx, &mut w, 0, &op, serial)?,
            None => w.type_text(ctx, e, "f", 0, 0, &format!("{serial}")),
        }
        if ctx.flip() {
            w.settle(ctx)?;
        }
    }
    if ctx.flip() {
        w.close(ctx, e, "f");
    } else {
        w.disconnect_editor(ctx, e)?;
    }
    w.settle(ctx)?;
    w.editors[e].buffers.clear();
    finish(ctx, &mut w)
}

fn c01(tier: Tier) -> Vec<Scenario> {
    let mut list = vec![
        scenario(
            "offline",
            "2 peers, both ID orders, up to 2 changes at each while disconnected from 8 kinds",
            move |ctx| offline(ctx, OPS, [2, 2]),
        ),
        scenario(
            "online-1-1",
            "2 connected peers, both ID orders, 1 change at each from 8 kinds, all interleavings with the message exchange, 1 broken connection",
            move |ctx| online(ctx, OPS, [1, 1], 1),
        ),
    ];
    list.push(scenario(
        "three",
        "3 peers in a chain, 1 change each from 3 kinds, all orders, with and without intermediate exchange, links up or down",
        move |ctx| three(ctx, &[Op::Append("f"), Op::Delete("f"), Op::Append("g")]),
    ));
    list.push(scenario(
        "trees",
        "2 peers, both ID orders, each of 4 files (nested up to 4 deep) absent, empty or with own content at each, then all deleted at one of them",
        move |ctx| trees(ctx, &["a", "b/c/d/e", "b/c/f", "b.c"]),
    ));
    let depth = tier.pick(3, 4);
    list.push(scenario(
        "open-files",
        format!("2 peers, both ID orders, an editor has a file open at one; all sequences of {depth} of 5 changes elsewhere and typing, exchanged at once or later; the editor closes or disconnects"),
        move |ctx| open_files(ctx, depth),
    ));
    if tier == Tier::Thorough {
        list.push(scenario(
            "online-2-1",
            "2 connected peers, 2+1 changes",
            move |ctx| online(ctx, OPS, [2, 1], 1),
        ));
    }
    list
}


// ---------------------------------------------------------------------------------------------
// C03

#[derive(Clone, Debug, PartialEq)]
enum Move {
    Type(usize),
    ToDaemon(usize),
    ToEditor(usize),
    Sync(SyncAction),
}

/// The process a step happens in: editors first, then daemons.
fn site(w: &World, m: &Move) -> usize {
    match m {
        Move::Type(e) | Move::ToEditor(e) => *e,
        Move::ToDaemon(e) => 10 + w.editors[*e].node,
        Move::Sync(s) => 10 + w.node_of(s),
    }
}

/// What users did, and what they saw.
#[derive(Default)]
struct History {
    alive: Vec<char>,
    deleted: Vec<char>,
    seen: Vec<String>,
    next: u8,
}

impl History {
    fn saw(&mut self, text: &str) {
        if !self.seen.iter().any(|s| s == text) {
            self.seen.push(text.to_string());
        }
    }

    fn check(&self, text: &str) -> Res {
        for c in &self.alive {
            let n = text.chars().filter(|x| x == c).count();
            let wanted = usize::from(!self.deleted.contains(c));
            ensure!(
                n == wanted,
                "{c:?} should be in the text {wanted} times but is there {n} times: {text:?}"
            );
        }
        let foreign: Vec<char> = text.chars().filter(|c| !self.alive.contains(c)).collect();
        ensure!(foreign.is_empty(), "nobody typed {foreign:?} in {text:?}");
        for seen in &self.seen {
            let order: Vec<usize> = seen.chars().filter_map(|c| text.chars().position(|x| x == c)).collect();
            ensure!(
                order.windows(2).all(|p| p[0] < p[1]),
                "a buffer showed {seen:?} but the text became {text:?}"
            );
        }
        Ok(())
    }
}

#[derive(Clone, Debug)]
struct Typing {
    start: usize,
    len: usize,
    inserted: usize,
}

fn typings(content: &str, rich: bool) -> Vec<Typing> {
    let n = content.chars().count();
    let mut list = vec![];
    for start in 0..=n {
        list.push(Typing { start, len: 0, inserted: 1 });
        if rich {
            list.push(Typing { start, len: 0, inserted: 2 });
        }
        if start < n {
            list.push(Typing { start, len: 1, inserted: 0 });
            if rich {
                list.push(Typing { start, len: 1, inserted: 1 });
            }
        }
        if rich && start + 1 < n {
            list.push(Typing { start, len: 2, inserted: 0 });
        }
    }
    list
}

struct TypingSetup {
    /// The node of each editor.
    editors: &'static [usize],
    nodes: usize,
    keys: &'static [usize],
    rich: bool,
    /// Synchronization messages are generated as soon as something changed.
    eager: bool,
    initial: &'static str,
}

fn generate_all(ctx: &mut Ctx, w: &mut World) -> Res {
    loop {
        let next = w.sync_actions().into_iter().find(|a| matches!(a, SyncAction::Generate(..)));
        match next {
            Some(a) => w.sync(ctx, &a)?,
            None => return Ok(()),
        }
    }
}

/// Responses change nothing in the editor; take them as soon as they are next.
fn drain_responses(ctx: &mut Ctx, w: &mut World) -> Res {
    for e in 0..w.editors.len() {
        while w.editors[e].inbox.front().is_some_and(|m| m.get("method").is_none()) {
            w.deliver_to_editor(ctx, e)?;
        }
    }
    Ok(())
}

fn typing(ctx: &mut Ctx, s: &TypingSetup) -> Res {
    let reverse = ctx.flip();
    let mut w = World::default();
    for i in 0..s.nodes {
        let id = if reverse { 9 - i } else { 1 + i };
        let mut node = Node::new(ctx, ['A', 'B', 'C'][i], id as u8);
        if i == 0 {
            node.write("f", s.initial);
        }
        node.start(ctx, false, i == 0)?;
        w.nodes.push(node);
    }
    for i in 1..s.nodes {
        w.link(ctx, 0, i);
    }
    w.settle(ctx)?;
    let mut h = History {
        alive: s.initial.chars().collect(),
        next: b'A',
        ..History::default()
    };
    for (e, n) in s.editors.iter().enumerate() {
        w.connect_editor(ctx, ['1', '2', '3'][e], *n)?;
        w.open(ctx, e, "f")?;
        h.saw(&w.editors[e].buffers["f"].content);
    }
    w.settle(ctx)?;
    let mut left: Vec<usize> = s.keys.to_vec();
    let mut asleep: Vec<Move> = vec![];
    loop {
        drain_responses(ctx, &mut w)?;
        let mut moves = vec![];
        for e in 0..w.editors.len() {
            if left[e] > 0 {
                moves.push(Move::Type(e));
            }
            if !w.editors[e].outbox.is_empty() {
                moves.push(Move::ToDaemon(e));
            }
            if !w.editors[e].inbox.is_empty() {
                moves.push(Move::ToEditor(e));
            }
        }
        moves.extend(w.sync_actions().into_iter().map(Move::Sync));
        if moves.is_empty() {
            break;
        }
        let chosen = ctx.choose_action(&moves, &mut asleep, |a, b| site(&w, a) != site(&w, b));
        let Some(chosen) = chosen else {
            ctx.outcome("redundant interleaving cut off");
            w.shutdown(ctx);
            return Ok(());
        };
        match &chosen {
            Move::Type(e) => {
                let content = w.editors[*e].buffers["f"].content.clone();
                let t = ctx.pick(&typings(&content, s.rich));
                let inserted: String = (0..t.inserted)
                    .map(|_| {
                        h.next += 1;
                        (h.next - 1) as char
                    })
                    .collect();
                h.deleted.extend(content.chars().skip(t.start).take(t.len));
                h.alive.extend(inserted.chars());
                w.type_text(ctx, *e, "f", t.start, t.len, &inserted);
                left[*e] -= 1;
                let now = w.editors[*e].buffers["f"].content.clone();
                h.saw(&now);
            }
            Move::ToDaemon(e) => w.deliver_to_daemon(ctx, *e)?,
            Move::ToEditor(e) => {
                w.deliver_to_editor(ctx, *e)?;
                let now = w.editors[*e].buffers["f"].content.clone();
                h.saw(&now);
            }
            Move::Sync(a) => w.sync(ctx, a)?,
        }
        if s.eager {
            generate_all(ctx, &mut w)?;
        }
        let f = w.fingerprint();
        ctx.state(&f);
    }
    w.settle(ctx)?;
    for e in &w.editors {
        ensure!(e.errors.is_empty(), "editor {} got an error: {:?}", e.name, e.errors);
        ensure!(e.unanswered.is_empty(), "editor {} got no response", e.name);
    }
    let files = w.check_converged(ctx)?;
    let refused: usize = w.editors.iter().map(|e| e.refused).sum();
    ctx.outcome(if refused > 0 { "some edit refused" } else { "no edit refused" });
    h.check(&files["f"])?;
    w.shutdown(ctx);
    Ok(())
}

fn c03(tier: Tier) -> Vec<Scenario> {
    let mut list = vec![
        scenario(
            "two-peers-1-1",
            "editors on 2 peers, 1 change each (any insertion of 1-2 characters, deletion or replacement), all interleavings",
            |ctx| {
                typing(ctx, &TypingSetup { editors: &[0, 1], nodes: 2, keys: &[1, 1], rich: true, eager: true, initial: "ab" })
            },
        ),
        scenario(
            "two-peers-lazy-1-1",
            "as before with message generation as separate steps",
            |ctx| {
                typing(ctx, &TypingSetup { editors: &[0, 1], nodes: 2, keys: &[1, 1], rich: false, eager: false, initial: "a" })
            },
        ),
        scenario(
            "same-daemon-2-1",
            "2 editors on one daemon, 2+1 changes, all interleavings",
            |ctx| {
                typing(ctx, &TypingSetup { editors: &[0, 0], nodes: 1, keys: &[2, 1], rich: false, eager: true, initial: "a" })
            },
        ),
    ];
    if tier == Tier::Thorough {
        list.push(scenario("two-peers-2-1", "2+1 changes", |ctx| {
            typing(ctx, &TypingSetup { editors: &[0, 1], nodes: 2, keys: &[2, 1], rich: false, eager: true, initial: "a" })
        }));
    }
    list
}
