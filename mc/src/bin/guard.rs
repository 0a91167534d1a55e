//! C04 (file access stays inside the project) and C19 (documents of peers are harmless).
//!
//! Everything below runs with the effective user "nobody" on the exploring thread, in a scratch
//! directory of that user: what escapes from the project can only reach other scratch files.

#[path = "../world.rs"]
mod world;

use automerge::marks::{ExpandMark, Mark};
use automerge::transaction::Transactable;
use automerge::{ActorId, AutoCommit, ObjId, ObjType, ReadDoc, ScalarValue, ROOT};
use mc::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::os::unix::fs::{symlink, MetadataExt};
use std::path::{Component, Path, PathBuf};
use world::*;

fn main() {
    let o = parse_args();
    let (scenarios, assumptions): (_, &[&str]) = match o.property.as_str() {
        "C04" => (
            c04(o.tier),
            &["links in the project do not change while one request is handled"],
        ),
        "C19" => (
            c19(o.tier),
            &["the peer speaks the synchronization protocol; garbage on the wire belongs to C13"],
        ),
        p => engine_error(&format!("unknown property {p}")),
    };
    run_check(&o, "model_checking", assumptions, scenarios);
}

// ---------------------------------------------------------------------------------------------
// Containment

const NOBODY: libc::uid_t = 65534;

/// While this exists, the current thread acts as an unprivileged user.
struct AsNobody;

impl AsNobody {
    fn new(ctx: &mut Ctx) -> Self {
        let dir = ctx.fresh_dir();
        let parent = dir.parent().unwrap().to_path_buf();
        for d in [&dir, &parent] {
            std::os::unix::fs::chown(d, Some(NOBODY), None).expect("cannot give away the scratch directory");
        }
        // The raw system call only affects this thread.
        let r = unsafe { libc::syscall(libc::SYS_setresuid, -1, NOBODY, -1) };
        if r != 0 || unsafe { libc::geteuid() } != NOBODY {
            engine_error("cannot become an unprivileged user");
        }
        Self
    }
}

impl Drop for AsNobody {
    fn drop(&mut self) {
        let r = unsafe { libc::syscall(libc::SYS_setresuid, -1, 0, -1) };
        if r != 0 {
            engine_error("cannot become root again");
        }
    }
}

/// Everything below a directory: kind, mode and content or target.
type Tree = BTreeMap<String, String>;

fn tree(dir: &Path) -> Tree {
    fn go(base: &Path, dir: &Path, t: &mut Tree) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let p = e.path();
            let name = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            let m = p.symlink_metadata().unwrap();
            let mode = m.mode() & 0o7777;
            if m.is_symlink() {
                t.insert(name, format!("link {}", std::fs::read_link(&p).unwrap().display()));
            } else if m.is_dir() {
                t.insert(name, format!("dir {mode:o}"));
                go(base, &p, t);
            } else {
                let c = std::fs::read(&p).map(|b| String::from_utf8_lossy(&b).into_owned());
                t.insert(name, format!("file {mode:o} {c:?}"));
            }
        }
    }
    let mut t = Tree::new();
    go(dir, dir, &mut t);
    t
}

fn differences(a: &Tree, b: &Tree) -> String {
    let mut d = vec![];
    for (k, v) in a {
        match b.get(k) {
            None => d.push(format!("{k} is gone (was {v})")),
            Some(w) if w != v => d.push(format!("{k} was {v} and is {w}")),
            _ => {}
        }
    }
    for (k, v) in b {
        if !a.contains_key(k) {
            d.push(format!("{k} is new ({v})"));
        }
    }
    d.join(", ")
}

// ---------------------------------------------------------------------------------------------
// C04

const SECRET: &str = "SECRET";

/// A place with a project, things next to it, and links between them.
struct Place {
    root: PathBuf,
    project: PathBuf,
}

impl Place {
    fn new(root: PathBuf) -> Self {
        let project = root.join("project");
        let outside = root.join("outside");
        std::fs::create_dir_all(project.join("sub/deep")).unwrap();
        std::fs::create_dir_all(project.join("empty")).unwrap();
        std::fs::create_dir_all(project.join(".ethersync")).unwrap();
        std::fs::create_dir_all(outside.join("dir")).unwrap();
        // A sibling whose name starts like the project's.
        std::fs::create_dir_all(root.join("project2")).unwrap();
        std::fs::write(project.join("f"), "inside f").unwrap();
        std::fs::write(project.join("sub/g"), "inside g").unwrap();
        std::fs::write(project.join("sub/deep/h"), "inside h").unwrap();
        std::fs::write(outside.join("secret"), SECRET).unwrap();
        std::fs::write(outside.join("g"), SECRET).unwrap();
        std::fs::write(outside.join("dir/f"), SECRET).unwrap();
        std::fs::write(root.join("f"), SECRET).unwrap();
        std::fs::write(root.join("project2/f"), SECRET).unwrap();
        for (link, target) in [
            ("in", "sub"),
            ("inf", "f"),
            ("out", "../outside"),
            ("outf", "../outside/secret"),
            ("sib", "../project2"),
            ("dang", "../outside/none"),
            ("dangin", "none"),
            ("loop", "loop"),
            ("up", ".."),
            ("self", "."),
            ("chain", "out"),
            ("sub/up2", "../.."),
        ] {
            symlink(target, project.join(link)).unwrap();
        }
        symlink(&outside, project.join("abs")).unwrap();
        symlink(&project, root.join("entry")).unwrap();
        Self { root, project }
    }

    /// Everything that is not in the project.
    fn outside(&self) -> Tree {
        let mut t = tree(&self.root);
        t.retain(|k, _| !k.starts_with("project/"));
        t
    }

    fn inside(&self) -> Tree {
        let mut t = tree(&self.project);
        t.retain(|k, _| !k.starts_with(".ethersync"));
        t
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Goes {
    /// The final place, of which the last segments might not exist.
    To(PathBuf),
    Nowhere,
}

/// Where a path leads, resolved link by link. '..' goes back up either in the path as it is
/// written, or where the links lead.
fn resolve(path: &Path, physically: bool) -> Goes {
    let written: PathBuf = if physically {
        path.to_path_buf()
    } else {
        let mut p = PathBuf::from("/");
        for c in path.components() {
            match c {
                Component::Normal(n) => p.push(n),
                Component::ParentDir => {
                    p.pop();
                }
                _ => {}
            }
        }
        p
    };
    let mut todo: Vec<String> = written
        .components()
        .rev()
        .filter_map(|c| match c {
            Component::Normal(n) => Some(n.to_string_lossy().into_owned()),
            Component::ParentDir => Some("..".into()),
            _ => None,
        })
        .collect();
    let mut at = PathBuf::from("/");
    let mut links = 0;
    while let Some(segment) = todo.pop() {
        if segment == ".." {
            at.pop();
            continue;
        }
        let next = at.join(&segment);
        match std::fs::read_link(&next) {
            Ok(target) => {
                links += 1;
                if links > 40 {
                    return Goes::Nowhere;
                }
                if target.is_absolute() {
                    at = PathBuf::from("/");
                }
                let new: Vec<String> = target
                    .components()
                    .rev()
                    .filter_map(|c| match c {
                        Component::Normal(n) => Some(n.to_string_lossy().into_owned()),
                        Component::ParentDir => Some("..".into()),
                        _ => None,
                    })
                    .collect();
                todo.extend(new);
            }
            Err(_) => at = next,
        }
    }
    Goes::To(at)
}

/// Does a link on the way, or at the end, point to nothing?
fn through_dangling(project: &Path, segments: &[&str]) -> bool {
    // The way as it is written, and with ".." removed.
    let mut clean = vec![];
    for s in segments {
        match *s {
            ".." => {
                clean.pop();
            }
            "." | "" => {}
            s => clean.push(s),
        }
    }
    [segments, &clean].iter().any(|way| {
        let mut p = project.to_path_buf();
        way.iter().any(|s| {
            p.push(s);
            p.symlink_metadata().is_ok_and(|m| m.is_symlink()) && !p.exists()
        })
    })
}

const SEGMENTS: [&str; 19] = [
    "f", "sub", "g", "in", "inf", "out", "outf", "secret", "dang", "dangin", "loop", "up", "sib", "self", "chain",
    "abs", "up2", "..", "new",
];
const MORE_SEGMENTS: [&str; 24] = [
    "f", "sub", "g", "in", "inf", "out", "outf", "secret", "dang", "dangin", "loop", "up", "sib", "self", "chain",
    "abs", "up2", "..", "new", ".", "project", "project2", "outside", "deep",
];

const OPERATIONS: [&str; 9] = [
    "read", "write", "append", "remove", "create_dir", "create_dir_all", "exists", "ignored", "files_in_dir",
];

fn operate(op: &str, base: &Path, path: &Path) -> anyhow::Result<String> {
    use ethersync::sandbox;
    match op {
        "read" => sandbox::read_file(base, path).map(|b| String::from_utf8_lossy(&b).into_owned()),
        "write" => sandbox::write_file(base, path, b"written").map(|()| String::new()),
        "append" => sandbox::append_file(base, path, b"appended").map(|()| String::new()),
        "remove" => sandbox::remove_file(base, path).map(|()| String::new()),
        "create_dir" => sandbox::create_dir(base, path).map(|()| String::new()),
        "create_dir_all" => sandbox::create_dir_all(base, path).map(|()| String::new()),
        "exists" => sandbox::exists(base, path).map(|b| b.to_string()),
        "ignored" => sandbox::ignored(base, path).map(|b| b.to_string()),
        _ => unreachable!(),
    }
}

/// The same with plain file system calls on the resolved path.
fn plainly(op: &str, path: &Path) -> Result<String, std::io::Error> {
    use std::io::Write;
    match op {
        "read" => std::fs::read(path).map(|b| String::from_utf8_lossy(&b).into_owned()),
        "write" => std::fs::write(path, b"written").map(|()| String::new()),
        "append" => std::fs::OpenOptions::new()
            .append(true)
            .open(path)
            .and_then(|mut f| f.write_all(b"appended"))
            .map(|()| String::new()),
        "remove" => std::fs::remove_file(path).map(|()| String::new()),
        "create_dir" => std::fs::create_dir(path).map(|()| String::new()),
        "create_dir_all" => std::fs::create_dir_all(path).map(|()| String::new()),
        "exists" => Ok(path.exists().to_string()),
        _ => unreachable!(),
    }
}

fn choose_segments(ctx: &mut Ctx, alphabet: &[&'static str], max: usize) -> Vec<&'static str> {
    let n = 1 + ctx.choose(max);
    (0..n).map(|_| ctx.pick(alphabet)).collect()
}

/// One operation of the module all file access is supposed to go through.
fn operation(ctx: &mut Ctx, alphabet: &[&'static str], max: usize, op: &str) -> Res {
    let through_link = ctx.flip();
    let segments = choose_segments(ctx, alphabet, max);
    let _guard = AsNobody::new(ctx);
    let place = Place::new(ctx.fresh_dir());
    let base = if through_link { place.root.join("entry") } else { place.project.clone() };
    let path = base.join(segments.join("/"));
    note!(ctx, "{op} {}", segments.join("/"));
    judge(ctx, &place, &base, &path, &segments, op)
}

fn judge(ctx: &mut Ctx, place: &Place, base: &Path, path: &Path, segments: &[&str], op: &str) -> Res {
    let real = |g: Goes| g;
    let lexical = real(resolve(path, false));
    let physical = real(resolve(path, true));
    let is_inside = |g: &Goes| matches!(g, Goes::To(p) if p.starts_with(&place.project));
    let dangling = through_dangling(base, segments);
    let outside_before = place.outside();
    let before = place.inside();
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| operate_or_list(op, base, path)));
    ctx.step();
    let result = match result {
        Ok(r) => r,
        Err(_) => {
            take_panics();
            // Ending the daemon is no way to refuse something.
            fail!("{op} {} panics", segments.join("/"))
        }
    };
    let outside_after = place.outside();
    ensure!(
        outside_after == outside_before,
        "{op} {} changes something outside of the project: {}",
        path.display(),
        differences(&outside_before, &outside_after)
    );
    let after = place.inside();
    ctx.state(&(segments, &after, result.is_ok()));
    if let Ok(answer) = &result {
        ensure!(
            !answer.contains(SECRET),
            "{op} {} reveals a file outside of the project",
            path.display()
        );
    }
    if result.is_err() {
        ensure!(
            before == after,
            "{op} {} is refused but changes {}",
            path.display(),
            differences(&before, &after)
        );
    }
    if !is_inside(&lexical) && !is_inside(&physical) {
        let harmless = match (&result, op) {
            (Err(_), _) => true,
            (Ok(answer), "exists") => answer == "false",
            (Ok(answer), "ignored") => answer == "true",
            (Ok(answer), "files_in_dir") => answer.is_empty(),
            _ => false,
        };
        ensure!(
            harmless,
            "{op} {} leads outside but is answered with {result:?}",
            path.display()
        );
        ctx.outcome("refused");
        return Ok(());
    }
    if lexical != physical || dangling || op == "ignored" || op == "files_in_dir" {
        ctx.outcome("unclear");
        return Ok(());
    }
    // The path is inside however one looks at it: The same has to happen as without the module.
    let Goes::To(target) = lexical else { unreachable!() };
    let twin = Place::new(ctx.fresh_dir());
    let target = twin.project.join(target.strip_prefix(&place.project).unwrap());
    let expected = plainly(op, &target);
    match (&result, &expected) {
        (Ok(a), Ok(b)) => ensure!(a == b, "{op} {} returns {a:?} instead of {b:?}", path.display()),
        (Err(_), Err(_)) => {}
        (Ok(a), Err(e)) => fail!("{op} {} returns {a:?} but should fail with {e}", path.display()),
        (Err(e), Ok(_)) => fail!("{op} {} is inside of the project but refused: {e}", path.display()),
    }
    let should = twin.inside();
    let strip = |t: &Tree| -> Tree { t.iter().filter(|(k, _)| *k != "abs").map(|(a, b)| (a.clone(), b.clone())).collect() };
    ensure!(
        strip(&after) == strip(&should),
        "{op} {} has a wrong effect: {}",
        path.display(),
        differences(&strip(&should), &strip(&after))
    );
    ctx.outcome("worked");
    Ok(())
}

fn operate_or_list(op: &str, base: &Path, path: &Path) -> anyhow::Result<String> {
    if op == "files_in_dir" {
        let files = ethersync::sandbox::files_in_dir(base, path)?;
        let mut all = String::new();
        for f in files {
            all += &format!("{} ", f.display());
            all += &String::from_utf8_lossy(&std::fs::read(&f).unwrap_or_default());
        }
        return Ok(all);
    }
    operate(op, base, path)
}

/// Renaming has two paths.
fn renaming(ctx: &mut Ctx, alphabet: &[&'static str], max: usize) -> Res {
    let from = choose_segments(ctx, alphabet, max);
    let to = choose_segments(ctx, alphabet, max);
    let _guard = AsNobody::new(ctx);
    let place = Place::new(ctx.fresh_dir());
    let a = place.project.join(from.join("/"));
    let b = place.project.join(to.join("/"));
    note!(ctx, "rename {} to {}", from.join("/"), to.join("/"));
    let targets = [resolve(&a, false), resolve(&a, true), resolve(&b, false), resolve(&b, true)];
    let inside = |g: &Goes| matches!(g, Goes::To(p) if p.starts_with(&place.project));
    let clear = targets.iter().all(inside)
        && targets[0] == targets[1]
        && targets[2] == targets[3]
        && !through_dangling(&place.project, &from)
        && !through_dangling(&place.project, &to)
        && !a.is_symlink()
        && !b.is_symlink();
    let (outside_before, before) = (place.outside(), place.inside());
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        ethersync::sandbox::rename_file(&place.project, &a, &b)
    }));
    ctx.step();
    let Ok(result) = result else {
        take_panics();
        fail!("rename {} to {} panics", from.join("/"), to.join("/"))
    };
    let (outside_after, after) = (place.outside(), place.inside());
    ctx.state(&(&from, &to, &after));
    ensure!(
        outside_after == outside_before,
        "rename {} to {} changes something outside of the project: {}",
        from.join("/"),
        to.join("/"),
        differences(&outside_before, &outside_after)
    );
    if result.is_err() {
        ensure!(before == after, "a refused rename changes {}", differences(&before, &after));
    }
    for side in [&targets[0..2], &targets[2..4]] {
        if !side.iter().any(inside) {
            ensure!(
                result.is_err(),
                "rename {} to {} leads outside but is not refused",
                from.join("/"),
                to.join("/")
            );
        }
    }
    if clear {
        let twin = Place::new(ctx.fresh_dir());
        let place_of = |g: &Goes| {
            let Goes::To(p) = g else { unreachable!() };
            twin.project.join(p.strip_prefix(&place.project).unwrap())
        };
        let expected = std::fs::rename(place_of(&targets[0]), place_of(&targets[2]));
        ensure!(
            expected.is_ok() == result.is_ok(),
            "rename {} to {}: {result:?} instead of {expected:?}",
            from.join("/"),
            to.join("/")
        );
        let strip = |t: &Tree| -> Tree { t.iter().filter(|(k, _)| *k != "abs").map(|(a, b)| (a.clone(), b.clone())).collect() };
        ensure!(
            strip(&after) == strip(&twin.inside()),
            "rename {} to {} has a wrong effect: {}",
            from.join("/"),
            to.join("/"),
            differences(&strip(&twin.inside()), &strip(&after))
        );
        ctx.outcome("worked");
    }
    Ok(())
}

/// Paths that are not written as something below the project.
fn absolute(ctx: &mut Ctx) -> Res {
    let op = ctx.pick(&OPERATIONS);
    let which = ctx.choose(12);
    let _guard = AsNobody::new(ctx);
    let place = Place::new(ctx.fresh_dir());
    let root = place.root.clone();
    let path = match which {
        0 => root.join("outside/secret"),
        1 => root.join("f"),
        2 => root.join("project2/f"),
        3 => root.join("project2/new"),
        4 => root.join("project/../f"),
        5 => root.join("project/../project2/f"),
        6 => PathBuf::from("f"),
        7 => PathBuf::from("../outside/secret"),
        8 => PathBuf::from("/"),
        9 => root.clone(),
        10 => root.join("project/sub/../../outside/secret"),
        _ => PathBuf::from(""),
    };
    note!(ctx, "{op} {}", path.display());
    let before = place.outside();
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        operate_or_list(op, &place.project, &path)
    }));
    ctx.step();
    let Ok(result) = result else {
        take_panics();
        fail!("{op} {} panics", path.display())
    };
    let after = place.outside();
    ensure!(
        before == after,
        "{op} {} changes something outside of the project: {}",
        path.display(),
        differences(&before, &after)
    );
    let harmless = match (&result, op) {
        (Err(_), _) => true,
        (Ok(answer), "exists") => answer == "false",
        (Ok(answer), "ignored") => answer == "true",
        (Ok(answer), "files_in_dir") => !answer.contains(SECRET),
        _ => false,
    };
    ensure!(harmless, "{op} {} is answered with {result:?}", path.display());
    Ok(())
}

fn node_at(ctx: &mut Ctx, place: &Place) -> Node {
    let mut node = Node::new(ctx, 'A', 1);
    node.dir = place.project.clone();
    node
}

fn no_secrets(files: &Files, what: &str) -> Res {
    for (name, content) in files {
        ensure!(
            !content.contains(SECRET),
            "{what}: {name} with content from outside of the project is shared"
        );
    }
    Ok(())
}

/// An editor names any path; the whole daemon.
fn editor_paths(ctx: &mut Ctx, alphabet: &[&'static str], max: usize) -> Res {
    let segments = choose_segments(ctx, alphabet, max);
    let written = segments.join("/");
    let _guard = AsNobody::new(ctx);
    let place = Place::new(ctx.fresh_dir());
    let outside = place.outside();
    let path = place.project.join(&written);
    let (lexical, physical) = (resolve(&path, false), resolve(&path, true));
    let inside = |g: &Goes| matches!(g, Goes::To(p) if p.starts_with(&place.project));
    let dangling = through_dangling(&place.project, &segments);
    let clear = lexical == physical && inside(&lexical) && !dangling;
    let existed = path.is_file();

    let mut w = World::default();
    let mut a = node_at(ctx, &place);
    a.start(ctx, true, true)?;
    w.nodes.push(a);
    let files = w.nodes[0].observe(ctx)?;
    no_secrets(&files, "after the start")?;

    let e = w.connect_editor(ctx, 'e', 0)?;
    let uri = w.nodes[0].uri(&written);
    note!(ctx, "editor opens {written}");
    let answer = ask(ctx, &mut w, e, "open", json!({ "uri": uri }))?;
    let opened = answer.get("error").is_none();
    ensure!(place.outside() == outside, "opening {written} changes something outside of the project: {}", differences(&outside, &place.outside()));
    no_secrets(&w.nodes[0].observe(ctx)?, "after opening")?;
    if !inside(&lexical) && !inside(&physical) {
        ensure!(!opened, "{written} leads outside but can be opened");
    }
    if clear && existed {
        ensure!(opened, "{written} is a file in the project but cannot be opened: {answer}");
    }
    // Anything else about this file.
    ask(ctx, &mut w, e, "cursor", json!({"uri": uri, "ranges": [{"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}]}))?;
    let edit = json!({"uri": uri, "revision": 0, "delta": [{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": "typed "}]});
    let answer = ask(ctx, &mut w, e, "edit", edit)?;
    if opened {
        ensure!(answer.get("error").is_none(), "{written} is open but cannot be edited: {answer}");
    }
    ask(ctx, &mut w, e, "close", json!({ "uri": uri }))?;
    ensure!(place.outside() == outside, "editing {written} changes something outside of the project: {}", differences(&outside, &place.outside()));
    no_secrets(&w.nodes[0].observe(ctx)?, "after editing")?;
    ctx.state(&(&written, place.inside()));
    if opened && clear {
        let Goes::To(file) = &lexical else { unreachable!() };
        let content = std::fs::read_to_string(file).unwrap_or_default();
        ensure!(
            content.starts_with("typed "),
            "{written} was edited but has {content:?} on disk"
        );
        ctx.outcome("edited");
    }
    // The rest still works.
    let other = w.nodes[0].uri("sub/deep/h");
    ask(ctx, &mut w, e, "open", json!({ "uri": other }))?;
    w.disconnect_editor(ctx, e)?;
    ensure!(place.outside() == outside, "disconnecting changes something outside of the project");
    w.shutdown(ctx);
    Ok(())
}

fn ask(ctx: &mut Ctx, w: &mut World, e: usize, method: &str, params: serde_json::Value) -> Res<serde_json::Value> {
    w.send_line(
        ctx,
        e,
        json!({"jsonrpc": "2.0", "id": 77, "method": method, "params": params}).to_string(),
    )?;
    w.editors[e].collect()?;
    let mut answer = None;
    while let Some(m) = w.editors[e].inbox.pop_front() {
        if m["id"] == 77 {
            answer = Some(m);
        }
    }
    match answer {
        Some(a) => Ok(a),
        None => fail!("{method} is not answered"),
    }
}

/// A peer's document has any path, and the file watcher reports any path.
fn other_paths(ctx: &mut Ctx, alphabet: &[&'static str], max: usize) -> Res {
    let segments = choose_segments(ctx, alphabet, max);
    let written = segments.join("/");
    let absolutely = ctx.flip();
    let restart = ctx.flip();
    let _guard = AsNobody::new(ctx);
    let place = Place::new(ctx.fresh_dir());
    let outside = place.outside();
    let mut a = node_at(ctx, &place);
    a.start(ctx, true, true)?;
    let mut p = AutoCommit::new().with_actor(ActorId::from(vec![9u8]));
    a.sync_with(ctx, &mut p)?;
    let key = if absolutely { place.project.join(&written).display().to_string() } else { written.clone() };
    note!(ctx, "a peer shares {key}");
    let files = map_obj(&p, "files")?;
    put_text(&mut p, &files, &key, "from a peer");
    a.sync_with(ctx, &mut p)?;
    let check = |a: &mut Node, ctx: &mut Ctx, what: &str| -> Res {
        let now = place.outside();
        ctx.state(&(&written, what, place.inside()));
        ensure!(now == outside, "{what} {written} changes something outside of the project: {}", differences(&outside, &now));
        no_secrets(&a.observe(ctx)?, what)
    };
    check(&mut a, ctx, "a peer sharing")?;
    // Notifications have the path as it is on disk.
    let notify = !segments.contains(&"..") && !segments.contains(&".");
    if notify {
        a.created(ctx, &written)?;
        check(&mut a, ctx, "a notification about")?;
        a.changed(ctx, &written)?;
        check(&mut a, ctx, "a notification about")?;
    }
    if restart {
        a.persist(ctx)?;
        a.stop(ctx);
        a.start(ctx, false, true)?;
        check(&mut a, ctx, "a restart with")?;
    }
    a.sync_with(ctx, &mut p)?;
    if files_of(&p)?.contains_key(&key) {
        note!(ctx, "the peer deletes {key}");
        let files = map_obj(&p, "files")?;
        p.delete(&files, key.as_str()).unwrap();
        a.sync_with(ctx, &mut p)?;
        check(&mut a, ctx, "a peer deleting")?;
    }
    if notify {
        a.removed(ctx, &written)?;
        check(&mut a, ctx, "a notification about")?;
    }
    a.stop(ctx);
    Ok(())
}

fn c04(tier: Tier) -> Vec<Scenario> {
    let mut list = vec![];
    let max = 3;
    for op in OPERATIONS {
        list.push(scenario(
            format!("sandbox-{op}"),
            format!("all paths of up to {max} segments from {} names in a place with 13 links, project reached directly and through a link", tier.pick(SEGMENTS.len(), MORE_SEGMENTS.len())),
            move |ctx| match tier {
                Tier::Quick => operation(ctx, &SEGMENTS, max, op),
                Tier::Thorough => operation(ctx, &MORE_SEGMENTS, max, op),
            },
        ));
    }
    list.push(scenario("sandbox-rename", "all pairs of paths of up to two segments", move |ctx| {
        match tier {
            Tier::Quick => renaming(ctx, &SEGMENTS, 2),
            Tier::Thorough => renaming(ctx, &MORE_SEGMENTS, 2),
        }
    }));
    list.push(scenario("sandbox-other", "12 paths that are not below the project, or not absolute", absolute));
    list.push(scenario(
        "editor",
        "all paths of up to three segments opened, edited and closed by an editor",
        move |ctx| editor_paths(ctx, &MORE_SEGMENTS, 3),
    ));
    list.push(scenario(
        "peer",
        "all paths of up to three segments, relative and absolute, shared and deleted by a peer and reported by the watcher, with and without a restart",
        move |ctx| other_paths(ctx, &MORE_SEGMENTS, 3),
    ));
    list
}

// ---------------------------------------------------------------------------------------------
// C19

fn map_obj(doc: &AutoCommit, name: &str) -> Res<ObjId> {
    match doc.get(ROOT, name) {
        Ok(Some((automerge::Value::Object(ObjType::Map), id))) => Ok(id),
        _ => fail!("the shared document has no map {name} any more"),
    }
}

fn put_text(doc: &mut AutoCommit, map: &ObjId, key: &str, text: &str) {
    let id = doc.put_object(map, key, ObjType::Text).unwrap();
    doc.splice_text(&id, 0, 0, text).unwrap();
}

fn value(doc: &AutoCommit, map: &ObjId, key: &str) -> Option<(bool, ObjId)> {
    match doc.get(map, key) {
        Ok(Some((automerge::Value::Object(t), id))) => Some((t == ObjType::Text, id)),
        _ => None,
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Strange {
    /// A file with this name.
    Name(String),
    /// Something that is no text where a file is expected.
    Instead(&'static str, &'static str),
    /// Something that is no character in a file's text.
    Within(&'static str, &'static str),
    /// Something else than the map of files or cursors.
    Root(&'static str, &'static str),
    /// A cursor state.
    State(&'static str),
    /// A history that contradicts the one that was sent before.
    Forked,
    /// The name of the previous strange file vanishes, or its content changes.
    DeletePrevious,
    EditPrevious,
    /// The peer's document does not descend from ours.
    Unrelated(u8),
}

const OUTSIDE: &str = "<outside>";

fn names() -> Vec<String> {
    let mut n: Vec<String> = [
        "", ".", "..", "/", "../x", "../outside/secret", "../project", "a//b", "a/", "./n", "sub/../f", "sub/..",
        "sub/.", "x/../../outside/y", ".git", ".git/config", ".git/new", ".git/hooks/pre-commit", "sub/.git/config",
        "./.git/config", ".git/../.git/config", "sub/../.git/config", ".git//config", ".ethersync", ".ethersync/key",
        ".ethersync/config", ".ethersync/new", ".ethersync/doc", ".ethersync/../.ethersync/key", "sub/.ethersync/x",
        "f/x", "f/../f", "sub", "sub/g/h", "sub/new/deeper/file", "nul\0x", "new\nline", "a\\b", "~", "x~",
        "out/x", "out/secret", "gitlink/config", "files", "\u{feff}\u{1f955}", "readonly/x",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    n.push("l".repeat(300));
    n.push("d/".repeat(2500) + "x");
    n.push(format!("{OUTSIDE}/x"));
    n.push(format!("{OUTSIDE}/secret"));
    n
}

fn catalogue() -> Vec<Strange> {
    let mut list: Vec<Strange> = names().into_iter().map(Strange::Name).collect();
    for kind in ["string", "int", "null", "counter", "bytes", "map", "list", "map-with-text"] {
        list.push(Strange::Instead("s", kind));
    }
    for kind in ["string", "map", "list", "text", "map-with-text"] {
        list.push(Strange::Instead("f", kind));
    }
    for kind in ["int", "string", "map", "list", "text", "mark", "put"] {
        list.push(Strange::Within("f", kind));
    }
    for root in ["files", "states", "other"] {
        for kind in ["map", "text", "list", "string", "delete"] {
            if (root, kind) != ("other", "delete") {
                list.push(Strange::Root(root, kind));
            }
        }
    }
    for kind in [
        "no-json", "empty", "outside", "gone", "huge", "int", "map", "list", "insert-behind", "delete-part", "delete", "replace", "overwrite", "text-in-map",
    ] {
        list.push(Strange::State(kind));
    }
    list.push(Strange::Forked);
    list
}

fn put_kind(p: &mut AutoCommit, map: &ObjId, key: &str, kind: &str) {
    match kind {
        "string" => p.put(map, key, "a string").unwrap(),
        "int" => p.put(map, key, 5).unwrap(),
        "null" => p.put(map, key, ()).unwrap(),
        "counter" => {
            p.put(map, key, ScalarValue::counter(3)).unwrap();
            p.increment(map, key, 2).unwrap();
        }
        "bytes" => p.put(map, key, ScalarValue::Bytes(vec![0, 255])).unwrap(),
        "text" => put_text(p, map, key, "another text"),
        "map" => {
            let m = p.put_object(map, key, ObjType::Map).unwrap();
            p.put(&m, "x", 1).unwrap();
        }
        "map-with-text" => {
            let m = p.put_object(map, key, ObjType::Map).unwrap();
            put_text(p, &m, "x", "deep text");
        }
        "list" => {
            let l = p.put_object(map, key, ObjType::List).unwrap();
            p.insert(&l, 0, "x").unwrap();
            let t = p.insert_object(&l, 1, ObjType::Text).unwrap();
            p.splice_text(&t, 0, 0, "text in list").unwrap();
        }
        _ => unreachable!("{kind}"),
    }
}

/// What a normal user still expects to work.
struct Healthy {
    /// The map of files is the one everybody started with.
    files: bool,
    /// f is still a text.
    f: bool,
    /// The cursor map is the one everybody started with.
    states: bool,
}

fn apply(p: &mut AutoCommit, s: &Strange, previous: Option<&Strange>, outside: &Path, h: &mut Healthy) {
    let outside = outside.display().to_string();
    match s {
        Strange::Name(n) => {
            if let Ok(files) = map_obj(p, "files") {
                put_text(p, &files, &n.replace(OUTSIDE, &outside), "strange");
            }
        }
        Strange::DeletePrevious | Strange::EditPrevious => {
            let key = match previous {
                Some(Strange::Name(n)) => n.replace(OUTSIDE, &outside),
                Some(Strange::Instead(n, _) | Strange::Within(n, _)) => n.to_string(),
                _ => return,
            };
            if key == "f" {
                h.f = false;
            }
            let Ok(files) = map_obj(p, "files") else { return };
            if *s == Strange::DeletePrevious {
                let _ = p.delete(&files, key.as_str());
            } else if let Some((true, id)) = value(p, &files, &key) {
                let _ = p.splice_text(&id, 0, 1, "+");
            }
        }
        Strange::Instead(key, kind) => {
            if *key == "f" {
                h.f = false;
            }
            if let Ok(files) = map_obj(p, "files") {
                put_kind(p, &files, key, kind);
            }
        }
        Strange::Within(key, kind) => {
            h.f = false;
            let Ok(files) = map_obj(p, "files") else { return };
            let Some((true, t)) = value(p, &files, key) else { return };
            if p.length(&t) < 2 {
                return;
            }
            match *kind {
                "int" => p.insert(&t, 1, 7).unwrap(),
                "string" => p.insert(&t, 1, "several").unwrap(),
                "map" => {
                    let m = p.insert_object(&t, 1, ObjType::Map).unwrap();
                    p.put(&m, "x", 1).unwrap();
                }
                "list" => {
                    let l = p.insert_object(&t, 0, ObjType::List).unwrap();
                    p.insert(&l, 0, 1).unwrap();
                }
                "text" => {
                    let l = p.insert_object(&t, 1, ObjType::Text).unwrap();
                    p.splice_text(&l, 0, 0, "text in text").unwrap();
                }
                "mark" => {
                    p.mark(&t, Mark::new("bold".into(), true, 0, 2), ExpandMark::Both).unwrap();
                }
                "put" => {
                    p.put(&t, 0, "X").unwrap();
                }
                _ => unreachable!(),
            }
        }
        Strange::Root(key, kind) => {
            if *key == "files" {
                h.files = false;
                h.f = false;
            }
            if *key == "states" {
                h.states = false;
            }
            if *kind == "delete" {
                let _ = p.delete(ROOT, *key);
            } else {
                put_kind(p, &ROOT, key, kind);
            }
        }
        Strange::State(kind) => {
            let Ok(states) = map_obj(p, "states") else { return };
            let good = |file: &str| {
                json!({"cursor_id": "x-1", "name": "N", "file_path": file,
                       "ranges": [{"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}]})
                .to_string()
            };
            match *kind {
                "no-json" => put_text(p, &states, "x-1", "{"),
                "empty" => put_text(p, &states, "x-1", ""),
                "outside" => put_text(p, &states, "x-1", &good("../../x")),
                "gone" => put_text(p, &states, "x-1", &good("/")),
                "huge" => put_text(
                    p,
                    &states,
                    "x-1",
                    &good("f").replace("0", "18446744073709551615"),
                ),
                "int" | "map" | "list" => put_kind(p, &states, "x-1", kind),
                "text-in-map" => put_kind(p, &states, "x-1", "map-with-text"),
                "insert-behind" | "delete-part" => {
                    let keys: Vec<String> = p.keys(&states).collect();
                    for k in keys {
                        if let Some((true, t)) = value(p, &states, &k) {
                            if p.length(&t) > 2 {
                                if *kind == "delete-part" {
                                    p.splice_text(&t, 1, 1, "").unwrap();
                                } else {
                                    p.splice_text(&t, 1, 0, "zzz").unwrap();
                                }
                            }
                        }
                    }
                }
                "delete" | "replace" | "overwrite" => {
                    let keys: Vec<String> = p.keys(&states).collect();
                    for k in keys {
                        match *kind {
                            "delete" => p.delete(&states, k.as_str()).unwrap(),
                            "replace" => put_text(p, &states, &k, &good("f")),
                            _ => p.put(&states, k.as_str(), "a string").unwrap(),
                        }
                    }
                }
                _ => unreachable!(),
            }
        }
        Strange::Forked | Strange::Unrelated(_) => {}
    }
    p.commit();
}

/// What a peer must not be able to change at a daemon.
fn protected(dir: &Path) -> Tree {
    let mut t = tree(dir);
    t.retain(|k, _| k.split('/').any(|s| s == ".git" || s == ".ethersync") && !k.starts_with(".ethersync/doc"));
    t
}

/// How the strange things are combined.
#[derive(Clone, Copy)]
struct Plan {
    pairs: bool,
    unrelated: bool,
}

fn strange_document(ctx: &mut Ctx, plan: Plan) -> Res {
    let all = catalogue();
    let first = if plan.unrelated {
        Strange::Unrelated(*[0u8, 255].get(ctx.choose(2)).unwrap())
    } else {
        ctx.pick(&all)
    };
    let second = if plan.pairs {
        let mut more = all.clone();
        more.push(Strange::DeletePrevious);
        more.push(Strange::EditPrevious);
        Some(ctx.pick(&more))
    } else {
        None
    };
    let together = second.is_some() && ctx.flip();
    let editor = ctx.flip();

    let _guard = AsNobody::new(ctx);
    let root = ctx.fresh_dir();
    let outside = root.join("outside");
    std::fs::create_dir_all(&outside).unwrap();
    std::fs::write(outside.join("secret"), SECRET).unwrap();
    let mut w = World::default();
    for (name, actor) in [('A', 1u8), ('B', 2)] {
        let mut n = Node::new(ctx, name, actor);
        n.dir = root.join(format!("{name}/project"));
        std::fs::create_dir_all(n.dir.join(".ethersync")).unwrap();
        std::fs::create_dir_all(n.dir.join(".git/hooks")).unwrap();
        std::fs::create_dir_all(n.dir.join("sub")).unwrap();
        std::fs::create_dir_all(n.dir.join("readonly")).unwrap();
        std::fs::set_permissions(
            n.dir.join("readonly"),
            std::os::unix::fs::PermissionsExt::from_mode(0o555),
        )
        .unwrap();
        std::fs::write(n.dir.join(".git/config"), "config").unwrap();
        std::fs::write(n.dir.join(".git/HEAD"), "head").unwrap();
        std::fs::write(n.dir.join(".ethersync/key"), "key").unwrap();
        std::fs::write(n.dir.join(".ethersync/config"), "config").unwrap();
        symlink(&outside, n.dir.join("out")).unwrap();
        symlink(".git", n.dir.join("gitlink")).unwrap();
        if name == 'A' {
            n.write("f", "base\n");
            n.write("sub/g", "deep\n");
        }
        n.start(ctx, false, name == 'A')?;
        n.persist(ctx)?;
        w.nodes.push(n);
    }
    w.link(ctx, 0, 1);
    w.settle(ctx)?;
    let before: Vec<Tree> = w.nodes.iter().map(|n| protected(&n.dir)).collect();
    let outside_before = tree(&outside);
    let e = w.connect_editor(ctx, 'e', 0)?;
    if editor {
        w.open(ctx, e, "f")?;
        w.settle(ctx)?;
    }
    let uri_f = w.nodes[0].uri("f");
    let cursor = json!({"uri": uri_f, "ranges": [{"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}]});
    ask(ctx, &mut w, e, "cursor", cursor.clone())?;
    w.settle(ctx)?;

    let mut p = AutoCommit::new().with_actor(ActorId::from(vec![9u8]));
    let mut h = Healthy { files: true, f: true, states: true };
    if let Strange::Unrelated(actor) = first {
        note!(ctx, "a peer with an unrelated document (actor {actor}) connects");
        p = p.with_actor(ActorId::from(vec![actor]));
        let files = p.put_object(ROOT, "files", ObjType::Map).unwrap();
        p.put_object(ROOT, "states", ObjType::Map).unwrap();
        put_text(&mut p, &files, "theirs", "their file");
        h = Healthy { files: false, f: false, states: false };
    } else {
        w.nodes[0].sync_with(ctx, &mut p)?;
    }
    if first == Strange::Forked {
        // The same actor goes on from the same state in two ways.
        let mut other = p.fork().with_actor(ActorId::from(vec![9u8]));
        for (doc, text) in [(&mut other, "one way"), (&mut p, "other way")] {
            let files = map_obj(doc, "files")?;
            put_text(doc, &files, text, text);
            doc.commit();
        }
        note!(ctx, "a peer sends one history");
        w.nodes[0].sync_with(ctx, &mut other)?;
        note!(ctx, "a peer sends a contradicting history");
        // The exchange need not come to an end, but the daemon has to survive it.
        contradicting(ctx, &mut w.nodes[0], &mut p)?;
        p = other;
    } else {
        note!(ctx, "a peer adds {}", brief(&first));
        apply(&mut p, &first, None, &outside, &mut h);
    }
    if !together {
        w.nodes[0].sync_with(ctx, &mut p)?;
        w.settle(ctx)?;
    }
    if let Some(second) = &second {
        note!(ctx, "a peer adds {}", brief(second));
        apply(&mut p, second, Some(&first), &outside, &mut h);
        w.nodes[0].sync_with(ctx, &mut p)?;
        w.settle(ctx)?;
    }
    let check = |w: &World| -> Res {
        for (n, before) in w.nodes.iter().zip(&before) {
            let now = protected(&n.dir);
            ensure!(
                now == *before,
                "{}: a peer's document changed {}",
                n.name,
                differences(before, &now)
            );
        }
        let now = tree(&outside);
        ensure!(
            now == outside_before,
            "a peer's document changed files outside of the project: {}",
            differences(&outside_before, &now)
        );
        Ok(())
    };
    check(&w)?;

    // Life goes on.
    let healthy_everywhere = |w: &mut World, ctx: &mut Ctx, p: &mut AutoCommit, what: &str, h: &Healthy| -> Res {
        w.settle(ctx)?;
        w.nodes[0].sync_with(ctx, p)?;
        w.settle(ctx)?;
        let shared = files_of(p)?;
        for n in 0..w.nodes.len() {
            let disk = w.nodes[n].disk();
            ctx.state(&(&shared, &disk));
            for file in ["f", "sub/g", "later"] {
                let healthy = if file == "f" { h.f } else { h.files };
                if healthy && !w.is_open(n, file) {
                    ensure!(
                        disk.get(file) == shared.get(file),
                        "{what}: {file} is {:?} in the shared document but {:?} on the disk of {}",
                        shared.get(file),
                        disk.get(file),
                        w.nodes[n].name
                    );
                }
            }
        }
        Ok(())
    };
    healthy_everywhere(&mut w, ctx, &mut p, "after the strange document", &h)?;
    if let Ok(files) = map_obj(&p, "files") {
        note!(ctx, "the peer goes on with usual changes");
        put_text(&mut p, &files, "later", "a usual file");
        if let Some((true, g)) = value(&p, &files, "sub/g") {
            p.splice_text(&g, 0, 0, "P").unwrap();
        }
        p.commit();
        healthy_everywhere(&mut w, ctx, &mut p, "after usual changes by the peer", &h)?;
        if h.files {
            ensure!(files_of(&p)?.contains_key("later"), "a usual file of the peer vanished");
            ensure!(
                files_of(&p)?.get("sub/g").is_some_and(|g| g == "Pdeep\n"),
                "a usual edit of the peer is lost: {:?}",
                files_of(&p)?.get("sub/g")
            );
        }
    }
    note!(ctx, "sub/g is changed on A's disk");
    w.nodes[0].write("sub/g", "Pdeep and wide\n");
    w.nodes[0].changed(ctx, "sub/g")?;
    healthy_everywhere(&mut w, ctx, &mut p, "after a change on disk", &h)?;
    if h.files {
        ensure!(
            files_of(&p)?.get("sub/g").is_some_and(|g| g == "Pdeep and wide\n"),
            "a change on disk does not reach the peer any more"
        );
    }
    if editor {
        note!(ctx, "the editor types in f");
        if h.f {
            let before = w.editors[e].buffers["f"].content.clone();
            w.type_text(ctx, e, "f", 0, 0, "E");
            w.settle(ctx)?;
            w.nodes[0].sync_with(ctx, &mut p)?;
            ensure!(
                files_of(&p)?.get("f") == Some(&format!("E{before}")),
                "typing in f does not reach the peer any more: {:?}",
                files_of(&p)?.get("f")
            );
        } else {
            for revision in 0..3 {
                ask(ctx, &mut w, e, "edit", json!({"uri": uri_f, "revision": revision, "delta": [{"range": {"start": {"line": 0, "character": 1}, "end": {"line": 0, "character": 1}}, "replacement": "E"}]}))?;
            }
        }
        ask(ctx, &mut w, e, "close", json!({"uri": uri_f}))?;
        w.editors[e].buffers.clear();
    }
    note!(ctx, "the editor goes on with other things");
    ask(ctx, &mut w, e, "cursor", cursor)?;
    let uri = w.nodes[0].uri("fresh");
    ask(ctx, &mut w, e, "open", json!({ "uri": uri }))?;
    ask(ctx, &mut w, e, "close", json!({ "uri": uri }))?;
    w.disconnect_editor(ctx, e)?;
    if w.nodes[0].dir.join("f").exists() {
        w.nodes[0].changed(ctx, "f")?;
        healthy_everywhere(&mut w, ctx, &mut p, "after closing", &h)?;
    } else {
        w.nodes[0].removed(ctx, "f")?;
    }
    check(&w)?;

    note!(ctx, "A is restarted");
    w.cut(ctx, 0);
    w.nodes[0].persist(ctx)?;
    w.nodes[0].stop(ctx);
    w.nodes[0].start(ctx, false, true)?;
    w.nodes[0].persist(ctx)?;
    check(&w)?;
    w.reconnect(ctx, 0);
    healthy_everywhere(&mut w, ctx, &mut p, "after a restart", &h)?;
    check(&w)?;
    if h.files {
        let files = map_obj(&p, "files")?;
        match value(&p, &files, "sub/g") {
            Some((true, g)) => p.splice_text(&g, 0, 0, "Q").unwrap(),
            _ => fail!("sub/g is not shared any more after a restart"),
        }
        p.commit();
        healthy_everywhere(&mut w, ctx, &mut p, "after more changes by the peer", &h)?;
        ensure!(
            w.nodes[1].read("sub/g").as_deref() == Some("QPdeep and wide\n"),
            "changes do not reach other peers any more after a restart"
        );
    }
    ctx.outcome(if h.files { "files intact" } else { "files replaced" });
    w.shutdown(ctx);
    Ok(())
}

/// Exchanges a few messages with a document that contradicts what the daemon knows.
fn contradicting(ctx: &mut Ctx, node: &mut Node, p: &mut AutoCommit) -> Res {
    use automerge::sync::{State as SyncState, SyncDoc};
    let (mut mine, mut theirs) = (SyncState::new(), SyncState::new());
    for _ in 0..6 {
        let (s, m) = node.generate(ctx, mine)?;
        mine = s;
        if let Some(m) = m {
            let _ = p.sync().receive_sync_message(&mut theirs, m);
        }
        if let Some(m) = p.sync().generate_sync_message(&mut theirs) {
            mine = node.receive(ctx, mine, m)?;
        }
    }
    Ok(())
}

fn brief(s: &Strange) -> String {
    let s = format!("{s:?}");
    s.chars().take(80).collect()
}

fn c19(_tier: Tier) -> Vec<Scenario> {
    vec![
        scenario(
            "single",
            format!("each of {} strange things alone, with f open in an editor or not", catalogue().len()),
            |ctx| strange_document(ctx, Plan { pairs: false, unrelated: false }),
        ),
        scenario(
            "unrelated",
            "documents with their own root, combined with each strange thing",
            |ctx| strange_document(ctx, Plan { pairs: true, unrelated: true }),
        ),
        scenario(
            "pairs",
            format!("all pairs of {} strange things, received together or one after the other", catalogue().len()),
            |ctx| strange_document(ctx, Plan { pairs: true, unrelated: false }),
        ),
    ]
}
