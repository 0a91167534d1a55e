//! C02: an editor's buffer and the shared document converge, at the level of the transformation
//! engine (one editor, one `OTServer`, all interleavings) and with whole daemons.
//! C10: positions and deltas.

#[path = "../world.rs"]
mod world;

use ethersync::ot::OTServer;
use ethersync::types::{
    EditorTextDelta, EditorTextOp, Position, Range, RevisionedEditorTextDelta, TextDelta, TextOp,
};
use mc::text::{self, Edit};
use mc::*;
use std::collections::VecDeque;

/// start, length, replacement
type Op = (usize, usize, String);

pub fn ed_delta(edits: &[Edit]) -> EditorTextDelta {
    EditorTextDelta(
        edits
            .iter()
            .map(|e| EditorTextOp {
                range: Range {
                    start: Position {
                        line: e.start.0,
                        character: e.start.1,
                    },
                    end: Position {
                        line: e.end.0,
                        character: e.end.1,
                    },
                },
                replacement: e.text.clone(),
            })
            .collect(),
    )
}

pub fn from_ed_delta(delta: &EditorTextDelta) -> Vec<Edit> {
    delta
        .0
        .iter()
        .map(|o| Edit {
            start: (o.range.start.line, o.range.start.character),
            end: (o.range.end.line, o.range.end.character),
            text: o.replacement.clone(),
        })
        .collect()
}

fn apply_text_delta(content: &str, delta: &TextDelta) -> Result<String, String> {
    let chars: Vec<char> = content.chars().collect();
    let mut at = 0;
    let mut out = String::new();
    for op in &delta.0 {
        match op {
            TextOp::Retain(n) => {
                if at + n > chars.len() {
                    return Err(format!("{delta:?} retains beyond the end of {content:?}"));
                }
                out.extend(&chars[at..at + n]);
                at += n;
            }
            TextOp::Insert(s) => out.push_str(s),
            TextOp::Delete(n) => {
                at += n;
                if at > chars.len() {
                    return Err(format!("{delta:?} deletes beyond the end of {content:?}"));
                }
            }
        }
    }
    out.extend(&chars[at..]);
    Ok(out)
}

struct Editor {
    content: String,
    daemon_revision: usize,
    editor_revision: usize,
}

#[derive(Clone)]
struct Params {
    initial: &'static str,
    editor_edits: usize,
    foreign_edits: usize,
    editor_tokens: &'static [&'static str],
    foreign_tokens: &'static [&'static str],
    max_delete: usize,
    /// Also try replacements of `max_delete` characters and several operations in one delta.
    rich: bool,
}

fn ops(content: &str, token: &str, p: &Params) -> Vec<Op> {
    let n = text::len(content);
    let mut ops = vec![];
    // Only at the ends.
    if p.max_delete == 0 {
        ops.push((0, 0, token.to_string()));
        if n > 0 {
            ops.push((n, 0, token.to_string()));
            ops.push((0, 1, String::new()));
        }
        return ops;
    }
    for at in 0..=n {
        ops.push((at, 0, token.to_string()));
    }
    for at in 0..n {
        for len in 1..=p.max_delete.min(n - at) {
            ops.push((at, len, String::new()));
            if p.rich {
                ops.push((at, len, token.to_string()));
            }
        }
    }
    ops
}

fn text_delta(content: &str, list: &[Op]) -> TextDelta {
    // The operations are sorted and do not overlap.
    let _ = content;
    let mut delta = TextDelta::default();
    let mut at = 0;
    for (s, len, t) in list {
        delta.retain(s - at);
        delta.delete(*len);
        delta.insert(t);
        at = s + len;
    }
    delta
}

fn interleavings(ctx: &mut Ctx, p: &Params) -> Res {
    let mut server = OTServer::new(p.initial.to_string());
    let mut crdt = p.initial.to_string();
    let mut editor = Editor {
        content: p.initial.to_string(),
        daemon_revision: 0,
        editor_revision: 0,
    };
    let mut to_daemon: VecDeque<RevisionedEditorTextDelta> = VecDeque::new();
    let mut to_editor: VecDeque<RevisionedEditorTextDelta> = VecDeque::new();
    let mut typed = 0;
    let mut foreign = 0;
    let mut refused = 0;
    let mut asleep = vec![];

    loop {
        let mut enabled = vec![];
        if !to_editor.is_empty() {
            enabled.push('y');
        }
        if !to_daemon.is_empty() {
            enabled.push('x');
        }
        if typed < p.editor_edits {
            enabled.push('e');
        }
        if foreign < p.foreign_edits {
            enabled.push('d');
        }
        if enabled.is_empty() {
            break;
        }
        // Steps of the editor (e, y) and of the daemon (d, x) only meet in the two queues, so they
        // are independent whenever both are enabled.
        let side = |a: &char| matches!(a, 'e' | 'y');
        let Some(action) =
            ctx.choose_action(&enabled, &mut asleep, |a, b| side(a) != side(b))
        else {
            ctx.outcome("redundant interleaving cut off");
            return Ok(());
        };
        ctx.step();
        match action {
            'e' => {
                let token = p.editor_tokens[typed % p.editor_tokens.len()];
                let list = ops(&editor.content, token, p);
                let (s, len, t) = ctx.pick(&list);
                let edit = text::edit_at(&editor.content, s, len, &t);
                note!(ctx, "editor types {edit:?} in {:?} (daemon revision {})", editor.content, editor.daemon_revision);
                editor.content = text::splice(&editor.content, s, len, &t);
                editor.editor_revision += 1;
                typed += 1;
                to_daemon.push_back(RevisionedEditorTextDelta {
                    revision: editor.daemon_revision,
                    delta: ed_delta(&[edit]),
                });
            }
            'd' => {
                let token = p.foreign_tokens[foreign % p.foreign_tokens.len()];
                let mut list: Vec<Vec<Op>> =
                    ops(&crdt, token, p).into_iter().map(|o| vec![o]).collect();
                if p.rich {
                    let n = text::len(&crdt);
                    list.push(vec![]);
                    if n >= 2 {
                        list.push(vec![(0, 1, String::new()), (n, 0, token.to_string())]);
                        list.push(vec![(0, 0, token.to_string()), (n - 1, 1, String::new())]);
                    }
                }
                let chosen = ctx.pick(&list);
                let delta = text_delta(&crdt, &chosen);
                note!(ctx, "foreign change {delta:?} on {crdt:?}");
                crdt = apply_text_delta(&crdt, &delta).expect("foreign change applies");
                foreign += 1;
                let out = server.apply_crdt_change(&delta);
                note!(ctx, "  daemon sends {out:?}");
                to_editor.push_back(out);
            }
            'x' => {
                let m = to_daemon.pop_front().unwrap();
                note!(ctx, "daemon receives {m:?}");
                let (delta, again) = server.apply_editor_operation(m);
                note!(ctx, "  applies {delta:?} to {crdt:?}, sends {again:?}");
                crdt = apply_text_delta(&crdt, &delta).map_err(Violation::new)?;
                to_editor.extend(again);
            }
            'y' => {
                let m = to_editor.pop_front().unwrap();
                if m.revision == editor.editor_revision {
                    note!(ctx, "editor applies {m:?} to {:?}", editor.content);
                    editor.content = text::apply(&editor.content, &from_ed_delta(&m.delta))
                        .map_err(|e| Violation::new(format!("edit for the editor does not fit: {e}")))?;
                    editor.daemon_revision += 1;
                } else {
                    note!(ctx, "editor refuses {m:?}");
                    refused += 1;
                }
            }
            _ => unreachable!(),
        }
        ctx.state(&(
            &editor.content,
            editor.daemon_revision,
            editor.editor_revision,
            &crdt,
            to_daemon.len(),
            to_editor.len(),
        ));
    }
    ensure!(
        editor.content == crdt,
        "editor has {:?} but the document is {crdt:?}",
        editor.content
    );
    let server_content = server.current_content();
    ensure!(
        server_content == crdt,
        "daemon believes {server_content:?} but the document is {crdt:?}"
    );
    ensure!(
        editor.daemon_revision == p.foreign_edits,
        "editor accepted {} of {} foreign changes",
        editor.daemon_revision,
        p.foreign_edits
    );
    ctx.outcome(match refused {
        0 => "no edit refused",
        1..=2 => "1-2 edits refused",
        _ => "3 or more edits refused",
    });
    Ok(())
}

/// The same with a whole daemon; changes from elsewhere come through a second daemon.
fn with_daemon(ctx: &mut Ctx, typed: usize, foreign: usize, initial: &str, tokens: &[&str]) -> Res {
    use world::*;
    let mut w = World::default();
    let mut a = Node::new(ctx, 'A', 1);
    a.write("f", initial);
    a.start(ctx, false, true)?;
    let mut b = Node::new(ctx, 'B', 2);
    b.start(ctx, false, false)?;
    w.nodes.push(a);
    w.nodes.push(b);
    w.link(ctx, 0, 1);
    w.settle(ctx)?;
    w.connect_editor(ctx, '1', 0)?;
    w.open(ctx, 0, "f")?;
    w.settle(ctx)?;
    let (mut typed, mut foreign, mut count) = (typed, foreign, 0);
    let mut asleep = vec![];
    loop {
        while w.editors[0].inbox.front().is_some_and(|m| m.get("method").is_none()) {
            w.deliver_to_editor(ctx, 0)?;
        }
        let mut enabled = vec![];
        if !w.editors[0].inbox.is_empty() {
            enabled.push('y');
        }
        if !w.editors[0].outbox.is_empty() {
            enabled.push('x');
        }
        if typed > 0 {
            enabled.push('e');
        }
        if foreign > 0 {
            enabled.push('d');
        }
        if enabled.is_empty() {
            break;
        }
        let side = |a: &char| matches!(a, 'e' | 'y');
        let Some(action) = ctx.choose_action(&enabled, &mut asleep, |a, b| side(a) != side(b)) else {
            ctx.outcome("redundant interleaving cut off");
            w.shutdown(ctx);
            return Ok(());
        };
        match action {
            'e' | 'd' => {
                count += 1;
                let content = if action == 'e' {
                    w.editors[0].buffers["f"].content.clone()
                } else {
                    // What the peer has can be changed by the edits that are still to come.
                    w.nodes[1].read("f").unwrap_or_default()
                };
                let n = text::len(&content);
                let mut list = vec![];
                for at in 0..=n {
                    for t in tokens {
                        list.push((at, 0, format!("{t}{count}")));
                    }
                    if at < n {
                        list.push((at, 1, String::new()));
                        list.push((at, n - at, String::new()));
                    }
                }
                let (at, len, t) = ctx.pick(&list);
                if action == 'e' {
                    typed -= 1;
                    w.type_text(ctx, 0, "f", at, len, &t);
                } else {
                    foreign -= 1;
                    let new = text::splice(&content, at, len, &t);
                    note!(ctx, "B: {content:?} becomes {new:?}");
                    w.nodes[1].write("f", &new);
                    w.nodes[1].changed(ctx, "f")?;
                    w.settle_sync(ctx)?;
                }
            }
            'x' => {
                w.deliver_to_daemon(ctx, 0)?;
                w.settle_sync(ctx)?;
            }
            _ => w.deliver_to_editor(ctx, 0)?,
        }
        let f = w.fingerprint();
        ctx.state(&f);
    }
    w.settle(ctx)?;
    let e = &w.editors[0];
    ensure!(e.errors.is_empty(), "the editor got an error: {:?}", e.errors);
    ctx.outcome(if e.refused > 0 { "some edit refused" } else { "no edit refused" });
    w.check_converged(ctx)?;
    w.shutdown(ctx);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C10

const SPECIAL: &[char] = &[
    'a', '\n', '\r', '\u{c}', '\u{b}', '\u{85}', '\u{2028}', '\u{2029}', 'é', '🥕', '\u{301}', '\0',
];

fn pick_text(ctx: &mut Ctx, alphabet: &[char], max: usize) -> String {
    let mut t = String::new();
    for _ in 0..max {
        let c = ctx.choose(alphabet.len() + 1);
        if c == 0 {
            break;
        }
        t.push(alphabet[c - 1]);
    }
    t
}

/// An edit of the editor changes exactly what its range names.
fn from_editor(ctx: &mut Ctx, alphabet: &[char], max: usize, replacements: &[&str]) -> Res {
    let content = pick_text(ctx, alphabet, max);
    let n = text::len(&content);
    let s = ctx.choose(n + 1);
    let len = ctx.choose(n + 1 - s);
    let t = ctx.pick(replacements);
    let mut edit = text::edit_at(&content, s, len, t);
    if len > 0 && ctx.flip() {
        std::mem::swap(&mut edit.start, &mut edit.end);
    }
    note!(ctx, "{edit:?} in {content:?}");
    ctx.step();
    let mut server = OTServer::new(content.clone());
    let (delta, again) = server.apply_editor_operation(RevisionedEditorTextDelta {
        revision: 0,
        delta: ed_delta(&[edit]),
    });
    let wanted = text::splice(&content, s, len, t);
    let got = apply_text_delta(&content, &delta).map_err(Violation::new)?;
    ensure!(got == wanted, "the document becomes {got:?} instead of {wanted:?}");
    ensure!(server.current_content() == wanted, "the daemon believes {:?}", server.current_content());
    ensure!(again.is_empty(), "the editor gets {again:?}");
    ctx.state(&(&content, s, len, t));
    Ok(())
}

/// An edit for the editor describes exactly the new content.
fn to_editor(ctx: &mut Ctx, alphabet: &[char], max: usize, replacements: &[&str]) -> Res {
    let content = pick_text(ctx, alphabet, max);
    let n = text::len(&content);
    let s = ctx.choose(n + 1);
    let len = ctx.choose(n + 1 - s);
    let t = ctx.pick(replacements);
    let mut list = vec![(s, len, t.to_string())];
    // Optionally a second change behind the first.
    if ctx.flip() {
        let s2 = s + len + ctx.choose(n + 1 - s - len);
        let len2 = ctx.choose(n + 1 - s2);
        list.push((s2, len2, "z".to_string()));
    }
    let delta = text_delta(&content, &list);
    note!(ctx, "{delta:?} on {content:?}");
    ctx.step();
    let mut server = OTServer::new(content.clone());
    let out = server.apply_crdt_change(&delta);
    let wanted = apply_text_delta(&content, &delta).expect("the change applies");
    let got = text::apply(&content, &from_ed_delta(&out.delta)).map_err(Violation::new)?;
    ensure!(got == wanted, "the editor gets {got:?} instead of {wanted:?} from {out:?}");
    ctx.state(&(&content, &wanted));
    Ok(())
}

/// Through whole daemons and the editor protocol.
fn through_daemons(ctx: &mut Ctx, alphabet: &[char], max: usize, replacements: &[&str]) -> Res {
    use world::*;
    let content = pick_text(ctx, alphabet, max);
    let n = text::len(&content);
    let s = ctx.choose(n + 1);
    let len = ctx.choose(n + 1 - s);
    let t = ctx.pick(replacements);
    let mut w = World::default();
    let mut a = Node::new(ctx, 'A', 1);
    a.write("f", &content);
    a.start(ctx, false, true)?;
    let mut b = Node::new(ctx, 'B', 2);
    b.start(ctx, false, false)?;
    w.nodes.push(a);
    w.nodes.push(b);
    w.link(ctx, 0, 1);
    w.settle(ctx)?;
    for n in 0..2 {
        let e = w.connect_editor(ctx, ['1', '2'][n], n)?;
        w.open(ctx, e, "f")?;
    }
    w.settle(ctx)?;
    w.type_text(ctx, 0, "f", s, len, t);
    w.settle(ctx)?;
    let wanted = text::splice(&content, s, len, t);
    for e in &w.editors {
        ensure!(e.errors.is_empty(), "editor {} got {:?}", e.name, e.errors);
        let got = &e.buffers["f"].content;
        ensure!(*got == wanted, "editor {} has {got:?} instead of {wanted:?}", e.name);
    }
    let files = w.check_converged(ctx)?;
    ensure!(files.get("f") == Some(&wanted), "the document is {:?} instead of {wanted:?}", files.get("f"));
    ctx.state(&files);
    w.shutdown(ctx);
    Ok(())
}

fn c10(t: Tier) -> Vec<Scenario> {
    const REPLACEMENTS: &[&str] = &["", "x", "\n", "\r\n", "🥕\u{2028}é"];
    let n = t.pick(3, 4);
    let m = t.pick(2, 3);
    let bounds = |n| format!("all texts of up to {n} of the characters {SPECIAL:?}, all ranges, replacements {REPLACEMENTS:?}");
    vec![
        scenario("from-editor", bounds(n), move |ctx| from_editor(ctx, SPECIAL, n, REPLACEMENTS)),
        scenario("from-editor-lines", "all texts of up to 6 of a, LF and CR, all ranges", move |ctx| {
            from_editor(ctx, &['a', '\n', '\r'], 6, &["", "x\n"])
        }),
        scenario("to-editor", format!("{}, optionally with a second change in the same delta", bounds(n)), move |ctx| {
            to_editor(ctx, SPECIAL, n, REPLACEMENTS)
        }),
        scenario("to-editor-lines", "all texts of up to 5 of a, LF and CR, all pairs of changes", move |ctx| {
            to_editor(ctx, &['a', '\n', '\r'], 5, &["", "x\n"])
        }),
        scenario("through-daemons", format!("{}, typed in an editor on one peer and shown in one on another", bounds(m)), move |ctx| {
            through_daemons(ctx, SPECIAL, m, REPLACEMENTS)
        }),
    ]
}

fn main() {
    let o = parse_args();
    let t = o.tier;
    if o.property == "C10" {
        run_check(
            &o,
            "model_checking",
            &["the text alphabet has one representative of each kind of character that line splitting or UTF encodings treat specially"],
            c10(t),
        );
    }
    let mut list = vec![];
    let mut add = |name: &str, p: Params| {
        let bounds = format!(
            "initial {:?}, {} editor edits (tokens {:?}), {} foreign edits (tokens {:?}), deletions up to {} characters, rich={}, all interleavings of edits and deliveries",
            p.initial, p.editor_edits, p.editor_tokens, p.foreign_edits, p.foreign_tokens, p.max_delete, p.rich
        );
        list.push(scenario(name, bounds, move |ctx| interleavings(ctx, &p)));
    };
    add(
        "e1d1-unicode",
        Params {
            initial: "ä\n🥕b",
            editor_edits: 1,
            foreign_edits: 1,
            editor_tokens: &["x\ny"],
            foreign_tokens: &["\n💚"],
            max_delete: 4,
            rich: true,
        },
    );
    add(
        "e2d1",
        Params {
            initial: "a\nb",
            editor_edits: 2,
            foreign_edits: 1,
            editor_tokens: &["x", "\n"],
            foreign_tokens: &["12"],
            max_delete: 3,
            rich: true,
        },
    );
    add(
        "e1d2",
        Params {
            initial: "a\nb",
            editor_edits: 1,
            foreign_edits: 2,
            editor_tokens: &["xy"],
            foreign_tokens: &["\n", "1"],
            max_delete: 3,
            rich: true,
        },
    );
    add(
        "e2d2",
        Params {
            initial: t.pick("ab", "a\nb"),
            editor_edits: 2,
            foreign_edits: 2,
            editor_tokens: &["x", "y"],
            foreign_tokens: &["1", "2"],
            max_delete: 2,
            rich: t.pick(false, true),
        },
    );
    add(
        "e3d2",
        Params {
            initial: "a",
            editor_edits: 3,
            foreign_edits: 2,
            editor_tokens: &["x", "\n", "z"],
            foreign_tokens: &["1", "2"],
            max_delete: 1,
            rich: false,
        },
    );
    add(
        "e2d3",
        Params {
            initial: "a",
            editor_edits: 2,
            foreign_edits: 3,
            editor_tokens: &["x", "y"],
            foreign_tokens: &["1", "\n", "3"],
            max_delete: 1,
            rich: false,
        },
    );
    for (e, d) in [(1, t.pick(5, 6)), (2, t.pick(4, 5)), (t.pick(4, 5), 1)] {
        add(
            &format!("bursts-e{e}d{d}"),
            Params {
                initial: "a",
                editor_edits: e,
                foreign_edits: d,
                editor_tokens: &["x", "y\n", "z", "w", "v"],
                foreign_tokens: &["1", "2\n", "3", "4", "5", "6"],
                max_delete: 0,
                rich: false,
            },
        );
    }
    if t == Tier::Thorough {
        add(
            "e3d3",
            Params {
                initial: "",
                editor_edits: 3,
                foreign_edits: 3,
                editor_tokens: &["x", "y", "z"],
                foreign_tokens: &["1", "2", "3"],
                max_delete: 1,
                rich: false,
            },
        );
    }
    list.push(scenario(
        "daemon-e1d1",
        "a whole daemon with one editor, 1 edit in the editor and 1 at a peer, all places, all interleavings",
        |ctx| with_daemon(ctx, 1, 1, "a\nb", &["x", "\n"]),
    ));
    list.push(scenario(
        "daemon-e2d1",
        "a whole daemon with one editor, 2 edits in the editor and 1 at a peer, all places, all interleavings",
        |ctx| with_daemon(ctx, 2, 1, "a", &["x"]),
    ));
    list.push(scenario(
        "daemon-e1d2",
        "a whole daemon with one editor, 1 edit in the editor and 2 at a peer, all places, all interleavings",
        |ctx| with_daemon(ctx, 1, 2, "a", &["x"]),
    ));
    if t == Tier::Thorough {
        list.push(scenario("daemon-e2d2", "2 edits in the editor and 2 at a peer", |ctx| {
            with_daemon(ctx, 2, 2, "a", &["x"])
        }));
    }
    run_check(&o, "model_checking", &[
        "the editor follows the documented protocol: it ignores edits whose revision differs from its own and otherwise applies them",
        "messages between one editor and its daemon are delivered in order",
    ], list);
}
