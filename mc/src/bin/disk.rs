//! Properties of the daemon's relation to its directory:
//! C06 restarts, C08 ignored files, C11 changes on disk (with the real file watcher), C21 starting,
//! hosting and joining.

#[path = "../world.rs"]
mod world;

use automerge::AutoCommit;
use ethersync::daemon::DocMessage;
use ethersync::watcher::{Watcher, WatcherEvent};
use mc::*;
use std::collections::{BTreeSet, VecDeque};
use std::path::{Path, PathBuf};
use std::time::Duration;
use world::*;

fn main() {
    let o = parse_args();
    let (scenarios, assumptions): (_, &[&str]) = match o.property.as_str() {
        "C06" => (c06(o.tier), &["the daemon is stopped after it has saved its state"]),
        "C08" => (c08(o.tier), &["Git itself tells which files it ignores"]),
        "C11" => (
            c11(o.tier),
            &[
                "the kernel's notifications are those of this kernel and file system",
                "a directory is complete when it appears, or files are put into it after the watcher knows it",
            ],
        ),
        "C21" => (c21(o.tier), &["peers exchange all messages before the content is compared"]),
        p => engine_error(&format!("unknown property {p}")),
    };
    run_check(&o, "model_checking", assumptions, scenarios);
}

// ---------------------------------------------------------------------------------------------
// The real watcher

struct Watched {
    watcher: Watcher,
    dir: PathBuf,
    marks: usize,
    /// Directories that were there already.
    dirs: BTreeSet<u64>,
}

fn inode(path: &Path) -> u64 {
    use std::os::unix::fs::MetadataExt;
    std::fs::metadata(path).map(|m| m.ino()).unwrap_or(0)
}

fn directories(dir: &Path, found: &mut BTreeSet<u64>) {
    found.insert(inode(dir));
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        if e.file_type().is_ok_and(|t| t.is_dir()) {
            directories(&e.path(), found);
        }
    }
}

fn path_of(e: &WatcherEvent) -> &Path {
    match e {
        WatcherEvent::Created { file_path }
        | WatcherEvent::Removed { file_path }
        | WatcherEvent::Changed { file_path } => file_path,
    }
}

fn describe(dir: &Path, e: &WatcherEvent) -> String {
    let p = path_of(e).strip_prefix(dir).unwrap_or(path_of(e)).display().to_string();
    match e {
        WatcherEvent::Created { .. } => format!("created {p}"),
        WatcherEvent::Removed { .. } => format!("removed {p}"),
        WatcherEvent::Changed { .. } => format!("changed {p}"),
    }
}

/// Files the harness creates to see how far the watcher is.
fn is_mark(p: &Path) -> bool {
    p.file_name().is_some_and(|n| n.to_string_lossy().starts_with("zz-mark"))
}

/// A user may only have a few watchers at a time, and the previous ones go away a little later.
fn new_watcher(dir: &Path) -> Watcher {
    let started = std::time::Instant::now();
    loop {
        match std::panic::catch_unwind(|| Watcher::new(dir)) {
            Ok(watcher) => return watcher,
            Err(panic) if !mc::last_panic_contains("TooManyOpenFiles") => std::panic::resume_unwind(panic),
            Err(_) => {
                mc::take_panics();
                if started.elapsed() > Duration::from_secs(120) {
                    mc::engine_error("there are no watchers left on this system");
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
}

impl Watched {
    fn new(ctx: &Ctx, dir: &Path) -> Self {
        let _guard = ctx.rt.enter();
        Self {
            watcher: new_watcher(dir),
            dir: dir.to_path_buf(),
            marks: 0,
            dirs: BTreeSet::new(),
        }
    }

    /// Everything the watcher reports about what has happened until now.
    fn drain(&mut self, ctx: &mut Ctx) -> Res<Vec<WatcherEvent>> {
        let mark = self.mark();
        let mut events = self.drain_until(ctx, &mark)?;
        if self.wait_for_watches() {
            // Something in the new directories may have been reported again.
            let mark = self.mark();
            events.extend(self.drain_until(ctx, &mark)?);
            events.dedup();
        }
        Ok(events)
    }

    /// The library watches new directories some time after it has handed out the reports about
    /// them. Waits until the kernel lists a watch for each. Returns whether there were new ones.
    fn wait_for_watches(&mut self) -> bool {
        let mut dirs = BTreeSet::new();
        directories(&self.dir, &mut dirs);
        if dirs == self.dirs {
            return false;
        }
        let base = inode(&self.dir);
        for _ in 0..10_000 {
            let watched = std::fs::read_dir("/proc/self/fdinfo")
                .unwrap()
                .flatten()
                .filter_map(|e| std::fs::read_to_string(e.path()).ok())
                .filter(|t| t.contains("inotify wd:"))
                .map(|t| {
                    t.split_whitespace()
                        .filter_map(|w| w.strip_prefix("ino:"))
                        .filter_map(|w| u64::from_str_radix(w, 16).ok())
                        .collect::<BTreeSet<u64>>()
                })
                .find(|w| w.contains(&base));
            if watched.is_some_and(|w| dirs.iter().all(|d| w.contains(d))) {
                break;
            }
            std::thread::sleep(Duration::from_micros(300));
        }
        self.dirs = dirs;
        true
    }

    fn mark(&mut self) -> PathBuf {
        self.marks += 1;
        let mark = self.dir.join(format!("zz-mark{}", self.marks));
        std::fs::File::create(&mark).unwrap();
        mark
    }

    fn drain_until(&mut self, ctx: &mut Ctx, mark: &Path) -> Res<Vec<WatcherEvent>> {
        let mut events = vec![];
        loop {
            let rt = ctx.rt;
            let next = rt.block_on(async {
                tokio::time::timeout(Duration::from_secs(20), self.watcher.next()).await
            });
            check_panics("the watcher failed")?;
            let Ok(Some(e)) = next else {
                fail!("the watcher does not report a new file");
            };
            let p = path_of(&e);
            if p == mark {
                let _ = std::fs::remove_file(mark);
                // The kernel may merge equal reports, depending on when they are read.
                events.dedup();
                return Ok(events);
            }
            if !is_mark(p) {
                events.push(e);
            }
        }
    }
}

/// Text files on disk as they should be shared.
fn shared_disk(node: &Node) -> Files {
    node.disk().into_iter().filter(|(f, _)| !f.starts_with("zz-mark") && !f.ends_with('~')).collect()
}

fn without_marks(files: Files) -> Files {
    files.into_iter().filter(|(f, _)| !f.starts_with("zz-mark")).collect()
}

// ---------------------------------------------------------------------------------------------
// C11

#[derive(Clone, Debug, PartialEq)]
enum FsOp {
    /// Creates or overwrites a file in place.
    Write(&'static str),
    Truncate(&'static str),
    Append(&'static str),
    Delete(&'static str),
    Rename(&'static str, &'static str),
    /// Writes a temporary file and renames it.
    AtomicSave(&'static str),
    /// Renames to a backup file and writes anew.
    BackupSave(&'static str),
    MoveOut(&'static str),
    MoveIn(&'static str),
    MkDir(&'static str),
    RemoveDir(&'static str),
    /// Something that is not text.
    Binary(&'static str),
    PeerWrite(&'static str),
    PeerEmpty(&'static str),
    PeerDelete(&'static str),
}

/// The other side: a replica that is synchronized at once.
struct Far {
    doc: AutoCommit,
}

impl Far {
    fn new(ctx: &mut Ctx, node: &mut Node) -> Res<Self> {
        let mut doc = AutoCommit::new().with_actor(vec![77u8].into());
        node.sync_with(ctx, &mut doc)?;
        Ok(Self { doc })
    }

    fn write(&mut self, file: &str, content: &str) {
        use automerge::{transaction::Transactable, ObjType, ReadDoc};
        let (_, map) = self.doc.get(automerge::ROOT, "files").unwrap().unwrap();
        let obj = match self.doc.get(&map, file).unwrap() {
            Some((_, obj)) => obj,
            None => self.doc.put_object(&map, file, ObjType::Text).unwrap(),
        };
        let old = self.doc.text(&obj).unwrap();
        self.doc.splice_text(&obj, 0, old.chars().count() as isize, content).unwrap();
    }

    /// Inserts text without touching the rest.
    fn insert(&mut self, file: &str, at: usize, content: &str) -> bool {
        use automerge::{transaction::Transactable, ReadDoc};
        let (_, map) = self.doc.get(automerge::ROOT, "files").unwrap().unwrap();
        let Some((_, obj)) = self.doc.get(&map, file).unwrap() else {
            return false;
        };
        self.doc.splice_text(&obj, at, 0, content).unwrap();
        true
    }

    fn splice(&mut self, file: &str, at: usize, del: usize, ins: &str) {
        use automerge::{transaction::Transactable, ReadDoc};
        let (_, map) = self.doc.get(automerge::ROOT, "files").unwrap().unwrap();
        let (_, obj) = self.doc.get(&map, file).unwrap().unwrap();
        self.doc.splice_text(&obj, at, del as isize, ins).unwrap();
    }

    fn delete(&mut self, file: &str) {
        use automerge::{transaction::Transactable, ReadDoc};
        let (_, map) = self.doc.get(automerge::ROOT, "files").unwrap().unwrap();
        self.doc.delete(&map, file).unwrap();
    }

    fn files(&self) -> Files {
        files_of(&self.doc).unwrap()
    }
}

fn possible(node: &Node, op: &FsOp) -> bool {
    let exists = |f: &str| node.dir.join(f).is_file();
    let parent = |f: &str| node.dir.join(f).parent().unwrap().is_dir();
    match op {
        FsOp::Write(f) | FsOp::AtomicSave(f) | FsOp::Binary(f) => parent(f) && !node.dir.join(f).is_dir(),
        FsOp::Truncate(f) | FsOp::Append(f) | FsOp::Delete(f) | FsOp::BackupSave(f) => exists(f),
        FsOp::Rename(f, g) => node.dir.join(f).exists() && parent(g) && (node.dir.join(f).is_file() || !node.dir.join(g).exists()),
        FsOp::MoveOut(f) => node.dir.join(f).exists(),
        FsOp::MoveIn(f) => parent(f) && (exists(f) || !node.dir.join(f).exists()),
        FsOp::MkDir(f) => !node.dir.join(f).exists(),
        FsOp::RemoveDir(f) => node.dir.join(f).is_dir(),
        FsOp::PeerWrite(_) | FsOp::PeerEmpty(_) | FsOp::PeerDelete(_) => true,
    }
}

/// What the daemon writes in a new directory is reported once or several times, depending on when
/// the library begins to watch that directory. All these reports are about the same content.
fn merged(events: Vec<WatcherEvent>) -> Vec<WatcherEvent> {
    let mut result: Vec<WatcherEvent> = vec![];
    for e in events {
        let removed = |e: &WatcherEvent| matches!(e, WatcherEvent::Removed { .. });
        let known = result.iter().rev().find(|r| path_of(r) == path_of(&e));
        if !known.is_some_and(|k| removed(k) == removed(&e)) {
            result.push(e);
        }
    }
    result
}

fn append(path: &Path, text: &str) {
    use std::io::Write;
    let mut file = std::fs::OpenOptions::new().append(true).open(path).unwrap();
    file.write_all(text.as_bytes()).unwrap();
}

/// `between` is called between the system calls of an operation.
fn disk_op(
    ctx: &mut Ctx,
    node: &mut Node,
    far: &mut Far,
    op: &FsOp,
    serial: usize,
    between: &mut dyn FnMut(&mut Ctx) -> Res,
) -> Res {
    note!(ctx, "{op:?}");
    ctx.step();
    let token = format!("{serial}");
    let outside = node.dir.parent().unwrap().join("outside");
    std::fs::create_dir_all(&outside).unwrap();
    let path = |f: &str| node.dir.join(f);
    match op {
        FsOp::Write(f) => {
            std::fs::File::create(path(f)).unwrap();
            between(ctx)?;
            append(&path(f), &format!("w{token}"));
        }
        FsOp::Truncate(f) => std::fs::write(path(f), "").unwrap(),
        FsOp::Append(f) => append(&path(f), &token),
        FsOp::Delete(f) => std::fs::remove_file(path(f)).unwrap(),
        FsOp::Rename(f, g) => std::fs::rename(path(f), path(g)).unwrap(),
        FsOp::AtomicSave(f) => {
            let tmp = path(&format!("{f}.tmp"));
            std::fs::File::create(&tmp).unwrap();
            between(ctx)?;
            append(&tmp, &format!("s{token}"));
            between(ctx)?;
            std::fs::rename(&tmp, path(f)).unwrap();
        }
        FsOp::BackupSave(f) => {
            std::fs::rename(path(f), path(&format!("{f}~"))).unwrap();
            between(ctx)?;
            std::fs::File::create(path(f)).unwrap();
            between(ctx)?;
            append(&path(f), &format!("b{token}"));
        }
        FsOp::MoveOut(f) => std::fs::rename(path(f), outside.join(&token)).unwrap(),
        FsOp::MoveIn(f) => {
            let from = outside.join(format!("in{token}"));
            if f.starts_with("dir") {
                std::fs::create_dir_all(from.join("sub")).unwrap();
                std::fs::write(from.join("x"), format!("x{token}")).unwrap();
                std::fs::write(from.join("sub/y"), format!("y{token}")).unwrap();
            } else {
                std::fs::write(&from, format!("i{token}")).unwrap();
            }
            std::fs::rename(from, path(f)).unwrap();
        }
        FsOp::MkDir(f) => std::fs::create_dir(path(f)).unwrap(),
        FsOp::RemoveDir(f) => std::fs::remove_dir_all(path(f)).unwrap(),
        FsOp::Binary(f) => std::fs::write(path(f), [0xff, 0xfe, b'0']).unwrap(),
        FsOp::PeerWrite(f) | FsOp::PeerEmpty(f) => {
            node.sync_with(ctx, &mut far.doc)?;
            far.write(f, &if matches!(op, FsOp::PeerWrite(_)) { format!("p{token}") } else { String::new() });
            node.sync_with(ctx, &mut far.doc)?;
        }
        FsOp::PeerDelete(f) => {
            node.sync_with(ctx, &mut far.doc)?;
            if far.files().contains_key(*f) {
                far.delete(f);
                node.sync_with(ctx, &mut far.doc)?;
            }
        }
    }
    Ok(())
}

/// With `eager`, the watcher looks at a change at once but the daemon handles each single report
/// at any later time; otherwise also the watcher looks at it only then.
fn changes_on_disk(ctx: &mut Ctx, ops: &[FsOp], depth: usize, eager: bool) -> Res {
    let mut node = Node::new(ctx, 'A', 1);
    node.write("f", "ab");
    node.write("d/h", "h");
    node.write("d/k", "k");
    node.write("d2/h", "2");
    node.start(ctx, false, true)?;
    let mut far = Far::new(ctx, &mut node)?;
    let mut watched = Watched::new(ctx, &node.dir);
    let mut queue: VecDeque<WatcherEvent> = VecDeque::new();
    let mut marks: VecDeque<PathBuf> = VecDeque::new();
    let mut left = depth;
    let mut serial = 0;
    loop {
        let late = if eager { !queue.is_empty() } else { !marks.is_empty() };
        let list: Vec<FsOp> = if left > 0 {
            ops.iter().filter(|o| possible(&node, o)).cloned().collect()
        } else {
            vec![]
        };
        if !late && list.is_empty() {
            break;
        }
        // How many reports there are can depend on when the library looks.
        let c = if list.is_empty() { 0 } else { ctx.choose(list.len() + 1) };
        if c == list.len() && !late {
            ctx.outcome("nothing to handle");
            node.stop(ctx);
            return Ok(());
        }
        if c < list.len() {
            left -= 1;
            serial += 1;
            if eager {
                disk_op(ctx, &mut node, &mut far, &list[c], serial, &mut |ctx| {
                    queue.extend(watched.drain(ctx)?);
                    Ok(())
                })?;
            } else {
                disk_op(ctx, &mut node, &mut far, &list[c], serial, &mut |_| Ok(()))?;
                let mark = watched.mark();
                marks.push_back(mark);
            }
        } else if eager {
            let e = queue.pop_front().unwrap();
            note!(ctx, "the daemon handles: {}", describe(&node.dir, &e));
            node.send(ctx, DocMessage::FromWatcher(e))?;
        } else {
            let mark = marks.pop_front().unwrap();
            for e in watched.drain_until(ctx, &mark)? {
                note!(ctx, "the daemon handles: {}", describe(&node.dir, &e));
                node.send(ctx, DocMessage::FromWatcher(e))?;
            }
        }
        // The daemon itself may have written.
        if eager {
            queue.extend(match list.get(c) {
                Some(FsOp::PeerWrite(_) | FsOp::PeerEmpty(_) | FsOp::PeerDelete(_)) | None => merged(watched.drain(ctx)?),
                _ => watched.drain(ctx)?,
            });
        } else if marks.is_empty() && left == 0 {
            for e in watched.drain(ctx)? {
                note!(ctx, "the daemon handles: {}", describe(&node.dir, &e));
                node.send(ctx, DocMessage::FromWatcher(e))?;
            }
        }
        ctx.state(&(node.disk(), queue.len(), marks.len(), left));
    }
    let mut shared = without_marks(node.observe(ctx)?);
    let mut disk = shared_disk(&node);
    // Nobody says what becomes of files that have ceased to be text.
    let binary = |f: &str| std::fs::read(node.dir.join(f)).is_ok_and(|b| String::from_utf8(b).is_err());
    shared.retain(|f, _| !binary(f));
    disk.retain(|f, _| !binary(f));
    ensure!(
        shared == disk,
        "after all notifications the document has {shared:?} but the directory {disk:?}"
    );
    ctx.outcome("checked");
    node.stop(ctx);
    Ok(())
}

/// Only the daemon itself writes: nothing of it may come back as a change.
fn own_writes(ctx: &mut Ctx, ops: &[FsOp], depth: usize) -> Res {
    let mut node = Node::new(ctx, 'A', 1);
    node.write("f", "ab");
    node.start(ctx, false, true)?;
    let mut far = Far::new(ctx, &mut node)?;
    let mut watched = Watched::new(ctx, &node.dir);
    let mut queue: VecDeque<WatcherEvent> = VecDeque::new();
    let mut left = depth;
    let mut serial = 0;
    while left > 0 || !queue.is_empty() {
        let n = if left > 0 { ops.len() } else { 0 };
        // How many reports there are can depend on when the library looks.
        let c = if n > 0 { ctx.choose(n + 1) } else { 0 };
        if c == n && queue.is_empty() {
            ctx.outcome("nothing to handle");
            node.stop(ctx);
            return Ok(());
        }
        if c < n {
            left -= 1;
            serial += 1;
            disk_op(ctx, &mut node, &mut far, &ops[c], serial, &mut |_| Ok(()))?;
        } else {
            let e = queue.pop_front().unwrap();
            note!(ctx, "the daemon handles: {}", describe(&node.dir, &e));
            let heads = far.doc.get_heads();
            node.send(ctx, DocMessage::FromWatcher(e))?;
            let wanted = far.files();
            node.sync_with(ctx, &mut far.doc)?;
            ensure!(
                far.doc.get_heads() == heads,
                "the daemon's own write came back as a change: {wanted:?} became {:?}",
                far.files()
            );
        }
        queue.extend(merged(watched.drain(ctx)?));
        let (shared, disk) = (far.files(), shared_disk(&node));
        ensure!(shared == disk, "the document has {shared:?} but the directory {disk:?}");
        ctx.state(&(disk, queue.len(), left));
    }
    node.stop(ctx);
    Ok(())
}

fn on_directory(op: &FsOp) -> bool {
    match op {
        FsOp::MkDir(_) | FsOp::RemoveDir(_) => true,
        FsOp::Rename(f, _) | FsOp::MoveOut(f) | FsOp::MoveIn(f) => matches!(*f, "d" | "dir"),
        FsOp::PeerWrite(f) | FsOp::Write(f) => f.starts_with("dir"),
        _ => false,
    }
}

fn c11(tier: Tier) -> Vec<Scenario> {
    use FsOp::*;
    let all = vec![
        Write("f"),
        Write("g"),
        Write("d/h"),
        Truncate("f"),
        Append("f"),
        Delete("f"),
        Delete("d/h"),
        Rename("f", "g"),
        Rename("f", "d/h"),
        Rename("d/h", "f"),
        AtomicSave("f"),
        AtomicSave("g"),
        BackupSave("f"),
        MoveOut("f"),
        MoveIn("f"),
        MoveIn("g"),
        Rename("d", "e"),
        MoveOut("d"),
        MoveIn("dir"),
        MkDir("dir"),
        Write("dir/x"),
        RemoveDir("d"),
        RemoveDir("dir"),
        PeerWrite("f"),
        PeerWrite("g"),
        PeerWrite("dir/x"),
        PeerDelete("f"),
        Binary("f"),
        Binary("g"),
    ];
    let core = vec![
        Write("f"),
        Truncate("f"),
        Delete("f"),
        Rename("f", "g"),
        Rename("g", "f"),
        AtomicSave("f"),
        BackupSave("f"),
        MoveIn("f"),
        PeerWrite("f"),
        PeerDelete("f"),
        Binary("f"),
    ];
    let peer = vec![PeerWrite("f"), PeerWrite("n/g"), PeerDelete("f"), PeerDelete("n/g"), PeerEmpty("f"), PeerEmpty("e")];
    let (n1, n2) = (tier.pick(2, 3), tier.pick(3, 4));
    let all2 = all.clone();
    let core2 = core.clone();
    let own = tier.pick(3, 4);
    vec![
        scenario(
            "pairs",
            format!("all sequences of {n1} of {} operations, the daemon handling each report at any later time", all.len()),
            move |ctx| changes_on_disk(ctx, &all, n1, true),
        ),
        scenario("pairs-late", format!("the same with the watcher looking late, too"), move |ctx| {
            let ops: Vec<FsOp> = all2.iter().filter(|o| !on_directory(o)).cloned().collect();
            changes_on_disk(ctx, &ops, n1, false)
        }),
        scenario(
            "triples",
            format!("all sequences of {n2} of {} operations on one file, the daemon handling each report at any later time", core.len()),
            move |ctx| changes_on_disk(ctx, &core, n2, true),
        ),
        scenario("triples-late", "the same with the watcher looking late, too", move |ctx| {
            changes_on_disk(ctx, &core2, n2, false)
        }),
        scenario(
            "own-writes",
            format!("all sequences of {own} changes from a peer, the reports about the daemon's own writes handled at any later time"),
            move |ctx| own_writes(ctx, &peer, own),
        ),
        scenario(
            "contents",
            "a file with any text of up to 3 of a, space, LF and ä changed to any other",
            move |ctx| contents(ctx, &['a', ' ', '\n', 'ä'], 3, false),
        ),
    ]
}

// ---------------------------------------------------------------------------------------------
// C06

#[derive(Clone, Debug, PartialEq)]
enum Offline {
    Nothing,
    /// Replaces some characters of f by a new one (or nothing).
    Splice(usize, usize, bool),
    DeleteF,
    RenameF,
    CreateN,
    /// Another file is overwritten.
    WriteG,
    DeleteG,
    TouchDir,
}

#[derive(Clone, Debug, PartialEq)]
enum Remote {
    Nothing,
    Insert(usize),
    Delete(usize, usize),
    DeleteF,
    CreateN,
    WriteG,
}

fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

fn splice(s: &str, at: usize, del: usize, ins: &str) -> String {
    let c = chars(s);
    let at = at.min(c.len());
    let end = (at + del).min(c.len());
    c[..at].iter().chain(chars(ins).iter()).chain(c[end..].iter()).collect()
}

fn remote_op(far: &mut Far, op: &Remote, token: &str) -> bool {
    let files = far.files();
    match op {
        Remote::Nothing => true,
        Remote::Insert(at) => {
            let Some(f) = files.get("f") else { return false };
            let at = (*at).min(chars(f).len());
            far.insert("f", at, token)
        }
        Remote::Delete(at, n) => {
            let Some(f) = files.get("f") else { return false };
            if chars(f).len() < at + n {
                return false;
            }
            far.splice("f", *at, *n, "");
            true
        }
        Remote::DeleteF => {
            if !files.contains_key("f") {
                return false;
            }
            far.delete("f");
            true
        }
        Remote::CreateN => {
            far.write("n", &format!("n{token}"));
            true
        }
        Remote::WriteG => {
            far.write("g", &format!("g{token}"));
            true
        }
    }
}

fn offline_op(node: &Node, op: &Offline, token: &str) -> bool {
    match op {
        Offline::Nothing => true,
        Offline::Splice(at, del, ins) => {
            let Some(f) = node.read("f") else { return false };
            if chars(&f).len() < at + del {
                return false;
            }
            node.write("f", &splice(&f, *at, *del, if *ins { token } else { "" }));
            true
        }
        Offline::DeleteF => {
            if node.read("f").is_none() {
                return false;
            }
            node.remove("f");
            true
        }
        Offline::RenameF => std::fs::rename(node.dir.join("f"), node.dir.join("n")).is_ok(),
        Offline::CreateN => {
            node.write("n", &format!("m{token}"));
            true
        }
        Offline::WriteG => {
            node.write("g", &format!("h{token}"));
            true
        }
        Offline::DeleteG => std::fs::remove_file(node.dir.join("g")).is_ok(),
        Offline::TouchDir => {
            node.write("new dir/ü", &format!("t{token}"));
            true
        }
    }
}

/// Some cycles of stopping, changing files on disk, changing the document elsewhere, restarting.
fn restarts(ctx: &mut Ctx, text: &str, cycles: usize, offline: &[Offline], remote: &[Remote], saved: bool) -> Res {
    let mut node = Node::new(ctx, 'A', 1);
    node.write("f", text);
    node.write("g", "g");
    node.start(ctx, false, true)?;
    node.persist(ctx)?;
    let mut far = Far::new(ctx, &mut node)?;
    for cycle in 0..cycles {
        // Something the daemon still gets to know, and saves unless it is ended before.
        let first = ctx.pick(remote);
        let token = ["P", "Q", "R"][cycle];
        if first != Remote::Nothing {
            note!(ctx, "elsewhere: {first:?}");
            if !remote_op(&mut far, &first, token) {
                return Ok(());
            }
            node.sync_with(ctx, &mut far.doc)?;
            if saved {
                node.persist(ctx)?;
            }
        }
        let before = node.read("f");
        node.stop(ctx);
        let off = ctx.pick(offline);
        let token = ["X", "Y", "Z"][cycle];
        note!(ctx, "on disk: {off:?}");
        if !offline_op(&node, &off, token) {
            return Ok(());
        }
        let rem = ctx.pick(remote);
        let remote_token = ["U", "V", "W"][cycle];
        note!(ctx, "elsewhere: {rem:?}");
        if !remote_op(&mut far, &rem, remote_token) {
            return Ok(());
        }
        let disk = node.disk();
        let host = ctx.flip();
        node.start(ctx, false, host)?;
        ensure!(node.disk() == disk, "starting changed the directory from {disk:?} to {:?}", node.disk());
        let shared = node.observe(ctx)?;
        ensure!(shared == disk, "after the restart the document has {shared:?} but the directory {disk:?}");
        node.persist(ctx)?;
        node.sync_with(ctx, &mut far.doc)?;
        if saved {
            node.persist(ctx)?;
        }
        let shared = node.observe(ctx)?;
        ensure!(far.files() == shared, "peers differ: {shared:?} and {:?}", far.files());
        let disk = node.disk();
        ensure!(shared == disk, "after synchronizing the document has {shared:?} but the directory {disk:?}");
        // Nothing is doubled or lost.
        if let (true, Some(before)) = (saved, before) {
            let spliced = matches!(off, Offline::Nothing | Offline::Splice(..) | Offline::CreateN | Offline::WriteG | Offline::DeleteG | Offline::TouchDir);
            if spliced && rem != Remote::DeleteF {
                let mut gone = BTreeSet::new();
                let mut added = vec![];
                if let Offline::Splice(at, del, ins) = &off {
                    gone.extend(*at..at + del);
                    if *ins {
                        added.push(token);
                    }
                }
                match &rem {
                    Remote::Delete(at, n) => gone.extend(*at..at + n),
                    Remote::Insert(_) => added.push(remote_token),
                    _ => {}
                }
                let rest: String = chars(&before)
                    .iter()
                    .enumerate()
                    .filter(|(i, _)| !gone.contains(i))
                    .map(|(_, c)| *c)
                    .collect();
                let merged = shared.get("f").cloned().unwrap_or_default();
                let mut without = merged.clone();
                for t in &added {
                    ensure!(
                        merged.matches(t).count() == 1,
                        "{t:?} is not once in {merged:?} (before: {before:?}, on disk {off:?}, elsewhere {rem:?})"
                    );
                    without = without.replacen(t, "", 1);
                }
                ensure!(
                    without == rest,
                    "f is {merged:?} after {off:?} on disk and {rem:?} elsewhere (before: {before:?})"
                );
            }
            if matches!(off, Offline::CreateN) && rem != Remote::CreateN {
                ensure!(shared.get("n") == Some(&format!("m{token}")), "the new file got lost: {shared:?}");
            }
            if matches!(off, Offline::TouchDir) {
                ensure!(shared.get("new dir/ü") == Some(&format!("t{token}")), "the new file got lost: {shared:?}");
            }
            if off == Offline::DeleteF {
                ensure!(!shared.contains_key("f"), "the deleted file came back: {shared:?}");
            }
        }
        ctx.state(&(shared, disk, cycle));
    }
    ctx.outcome("checked");
    node.stop(ctx);
    Ok(())
}

/// Every content replaced by every other.
fn contents(ctx: &mut Ctx, alphabet: &[char], max: usize, restart: bool) -> Res {
    let mut node = Node::new(ctx, 'A', 1);
    let old = pick_text(ctx, alphabet, max);
    node.write("f", &old);
    node.start(ctx, false, true)?;
    node.persist(ctx)?;
    if restart {
        node.stop(ctx);
    }
    let new = pick_text(ctx, alphabet, max);
    node.write("f", &new);
    note!(ctx, "{old:?} becomes {new:?}");
    if restart {
        node.start(ctx, false, true)?;
    } else {
        node.changed(ctx, "f")?;
    }
    let shared = node.observe(ctx)?;
    ensure!(
        shared.get("f") == Some(&new),
        "{old:?} was changed to {new:?} on disk but {:?} is shared",
        shared.get("f")
    );
    ensure!(node.read("f").as_ref() == Some(&new), "the file became {:?} instead of {new:?}", node.read("f"));
    ctx.state(&(old, new));
    node.stop(ctx);
    Ok(())
}

fn pick_text(ctx: &mut Ctx, alphabet: &[char], max: usize) -> String {
    let mut text = String::new();
    for _ in 0..max {
        match ctx.choose(alphabet.len() + 1) {
            0 => break,
            c => text.push(alphabet[c - 1]),
        }
    }
    text
}

/// Many files change while the daemon is stopped.
fn many(ctx: &mut Ctx, files: &[&str]) -> Res {
    let mut node = Node::new(ctx, 'A', 1);
    let mut kinds = vec![];
    for f in files {
        // 0: kept, 1: changed, 2: emptied, 3: deleted, 4: created
        let kind = ctx.choose(5);
        kinds.push(kind);
        if kind != 4 {
            node.write(f, "old\n");
        }
    }
    node.start(ctx, false, true)?;
    node.persist(ctx)?;
    node.stop(ctx);
    for (f, kind) in files.iter().zip(&kinds) {
        note!(ctx, "{f}: {}", ["kept", "changed", "emptied", "deleted", "created"][*kind]);
        match kind {
            1 => node.write(f, "old\nnew\n"),
            2 => node.write(f, ""),
            3 => node.remove(f),
            4 => node.write(f, "created\n"),
            _ => {}
        }
    }
    let disk = node.disk();
    let host = ctx.flip();
    node.start(ctx, false, host)?;
    let shared = node.observe(ctx)?;
    ensure!(shared == disk, "after the restart the document has {shared:?} but the directory {disk:?}");
    ensure!(node.disk() == disk, "starting changed the directory from {disk:?} to {:?}", node.disk());
    ctx.state(&disk);
    node.stop(ctx);
    Ok(())
}

/// Small changes in several lines on disk, and one by a peer in some line.
fn lines(ctx: &mut Ctx) -> Res {
    let old = ["abcdefgh\n", "ijklmnop\n", "qrstuvwx\n", "yzABCDEF\n", "GHIJKLMN\n"];
    let mut node = Node::new(ctx, 'A', 1);
    node.write("f", &old.concat());
    node.start(ctx, false, true)?;
    node.persist(ctx)?;
    let mut far = Far::new(ctx, &mut node)?;
    let restart = ctx.flip();
    if restart {
        node.stop(ctx);
    }
    let at = ctx.choose(5);
    let mut disk = String::new();
    let mut merged = String::new();
    for (i, line) in old.iter().enumerate() {
        // One character of the line is replaced, deleted, or there is a new one.
        let (own, theirs) = match ctx.choose(4) {
            0 => (line.to_string(), splice(line, 4, 0, "U")),
            1 => (splice(line, 1, 1, "0"), splice(&splice(line, 4, 0, "U"), 1, 1, "0")),
            2 => (splice(line, 1, 1, ""), splice(&splice(line, 4, 0, "U"), 1, 1, "")),
            _ => (splice(line, 8, 0, "0"), splice(&splice(line, 8, 0, "0"), 4, 0, "U")),
        };
        merged += if i == at { &theirs } else { &own };
        disk += &own;
    }
    note!(ctx, "elsewhere: U in line {at}; on disk: {disk:?}");
    far.insert("f", 9 * at + 4, "U");
    node.write("f", &disk);
    if restart {
        node.start(ctx, false, true)?;
    } else {
        node.changed(ctx, "f")?;
    }
    node.sync_with(ctx, &mut far.doc)?;
    let shared = node.observe(ctx)?;
    ensure!(
        shared.get("f") == Some(&merged) && node.read("f").as_ref() == Some(&merged),
        "instead of {merged:?}, {:?} is shared and {:?} on disk",
        shared.get("f"),
        node.read("f")
    );
    ctx.state(&merged);
    node.stop(ctx);
    Ok(())
}

fn c06(tier: Tier) -> Vec<Scenario> {
    let offline = vec![
        Offline::Nothing,
        Offline::Splice(0, 0, true),
        Offline::Splice(2, 0, true),
        Offline::Splice(5, 0, true),
        Offline::Splice(1, 3, false),
        Offline::Splice(1, 3, true),
        Offline::Splice(0, 5, true),
        Offline::Splice(0, 5, false),
        Offline::DeleteF,
        Offline::RenameF,
        Offline::CreateN,
        Offline::WriteG,
        Offline::DeleteG,
        Offline::TouchDir,
    ];
    let remote = vec![
        Remote::Nothing,
        Remote::Insert(0),
        Remote::Insert(3),
        Remote::Insert(9),
        Remote::Delete(1, 2),
        Remote::DeleteF,
        Remote::CreateN,
        Remote::WriteG,
    ];
    let (few_offline, few_remote) = (
        vec![
            Offline::Nothing,
            Offline::Splice(1, 1, true),
            Offline::Splice(0, 0, true),
            Offline::DeleteF,
            Offline::RenameF,
            Offline::CreateN,
        ],
        vec![Remote::Nothing, Remote::Insert(1), Remote::DeleteF, Remote::CreateN],
    );
    let cycles = tier.pick(2, 3);
    let (o2, r2) = (offline.clone(), remote.clone());
    let (o3, r3) = (few_offline.clone(), few_remote.clone());
    let mut list = vec![];
    for text in ["ab\ncd", "ä\n\n💚x", "a\r\nb\u{2028}"] {
        let (o, r) = (offline.clone(), remote.clone());
        list.push(scenario(
            &format!("one-restart-{}", list.len() + 1),
            format!("all pairs of {} changes on disk and {} changes elsewhere, after one of these changes that was saved; f is {text:?}", o.len(), r.len()),
            move |ctx| restarts(ctx, text, 1, &o, &r, true),
        ));
    }
    list.push(scenario(
        "restarts",
        format!("{cycles} restarts with all combinations of {} changes on disk and {} elsewhere", few_offline.len(), few_remote.len()),
        move |ctx| restarts(ctx, "ab\ncd", cycles, &few_offline, &few_remote, true),
    ));
    list.push(scenario("unsaved", "one restart, ended before the last change was saved", move |ctx| {
        restarts(ctx, "ab\ncd", 1, &o2, &r2, false)
    }));
    list.push(scenario("unsaved-twice", "two restarts, ended before the last change was saved", move |ctx| {
        restarts(ctx, "ab\ncd", 2, &o3, &r3, false)
    }));
    let n = tier.pick(3, 4);
    list.push(scenario(
        "contents",
        format!("a file with any text of up to {n} of a, space, LF and ä changed to any other while the daemon is stopped"),
        move |ctx| contents(ctx, &['a', ' ', '\n', 'ä'], n, true),
    ));
    list.push(scenario("many", "4 files kept, changed, emptied, deleted or created while the daemon is stopped", |ctx| {
        many(ctx, &["a", "b/c/d/e", "b/c/f", ".b c"])
    }));
    list.push(scenario(
        "lines",
        "each of 5 lines kept, or a character replaced, deleted or inserted on disk, and a character inserted by a peer in any of them",
        lines,
    ));
    list
}

// ---------------------------------------------------------------------------------------------
// C21

#[derive(Clone, Debug, PartialEq)]
enum Start {
    Join,
    /// With the option to start over, although there is no state yet.
    JoinInit,
    Restart(usize),
    Init(usize),
    Write(usize, &'static str),
    Delete(usize, &'static str),
}

/// What a joining peer has in its directory before.
fn hosting(ctx: &mut Ctx, files: &[(&str, &str)], local: &[(&str, &str)], depth: usize) -> Res {
    let mut w = World::default();
    let mut a = Node::new(ctx, 'A', 1);
    for (f, c) in files {
        a.write(f, c);
    }
    a.start(ctx, false, true)?;
    a.persist(ctx)?;
    let mut b = Node::new(ctx, 'B', 2);
    for (f, c) in local {
        b.write(f, c);
    }
    let mut model: Files = files.iter().map(|(f, c)| (f.to_string(), c.to_string())).collect();
    let shared = a.observe(ctx)?;
    ensure!(shared == model, "the host shares {shared:?} instead of {model:?}");
    ensure!(a.disk() == model, "hosting changed the directory to {:?}", a.disk());
    w.nodes.push(a);
    w.nodes.push(b);
    // Local files of the joining peer that are not shared yet.
    let mut extra: Files = Files::new();
    let mut joined = false;
    for step in 0..depth {
        let mut acts = vec![Start::Restart(0), Start::Init(0)];
        if !joined {
            acts.push(Start::Join);
            acts.push(Start::JoinInit);
        } else {
            acts.push(Start::Restart(1));
            acts.push(Start::Init(1));
        }
        for n in 0..=(joined as usize) {
            acts.push(Start::Write(n, "f"));
            acts.push(Start::Write(n, "new"));
            if model.contains_key("f") {
                acts.push(Start::Delete(n, "f"));
            }
        }
        let act = ctx.pick(&acts);
        note!(ctx, "{act:?}");
        match &act {
            Start::Join | Start::JoinInit => {
                joined = true;
                w.nodes[1].start(ctx, act == Start::JoinInit, false)?;
                w.link(ctx, 0, 1);
                w.settle(ctx)?;
                w.nodes[1].persist(ctx)?;
                // Files that have not been shared so far may stay, or go if the host had deleted
                // such a file.
                let disk = w.nodes[1].disk();
                for (f, c) in local {
                    if !model.contains_key(*f) && disk.get(*f) == Some(&c.to_string()) {
                        extra.insert(f.to_string(), c.to_string());
                    }
                }
            }
            Start::Restart(n) | Start::Init(n) => {
                let n = *n;
                let init = matches!(act, Start::Init(_));
                w.nodes[n].persist(ctx)?;
                let mut doc = AutoCommit::new();
                w.nodes[n].sync_with(ctx, &mut doc)?;
                let heads = doc.get_heads();
                let old = w.nodes[n].disk();
                if joined {
                    w.cut(ctx, 0);
                }
                w.nodes[n].stop(ctx);
                w.nodes[n].start(ctx, init, n == 0)?;
                ensure!(w.nodes[n].disk() == old, "restarting changed the directory to {:?}", w.nodes[n].disk());
                w.nodes[n].persist(ctx)?;
                let shared = w.nodes[n].observe(ctx)?;
                ensure!(shared == old, "restarted with {shared:?} instead of {old:?}");
                if !init && (n == 0 || extra.is_empty()) {
                    let mut doc = AutoCommit::new();
                    w.nodes[n].sync_with(ctx, &mut doc)?;
                    ensure!(doc.get_heads() == heads, "restarting without a change changed the document");
                }
                if n == 1 {
                    model.append(&mut extra);
                }
                if joined {
                    w.reconnect(ctx, 0);
                }
            }
            Start::Write(n, f) => {
                let is_new = !w.nodes[*n].dir.join(f).exists();
                w.nodes[*n].write(f, &format!("{step}"));
                if is_new {
                    w.nodes[*n].created(ctx, f)?;
                } else {
                    w.nodes[*n].changed(ctx, f)?;
                }
                model.insert(f.to_string(), format!("{step}"));
                extra.remove(*f);
            }
            Start::Delete(n, f) => {
                w.nodes[*n].remove(f);
                w.nodes[*n].removed(ctx, f)?;
                model.remove(*f);
            }
        }
        w.settle(ctx)?;
        for n in 0..=(joined as usize) {
            let shared = w.nodes[n].observe(ctx)?;
            ensure!(
                shared == model,
                "after {act:?}, {} shares {shared:?} instead of {model:?}",
                w.nodes[n].name
            );
            let mut wanted = model.clone();
            if n == 1 {
                wanted.extend(extra.clone());
            }
            let disk = w.nodes[n].disk();
            ensure!(disk == wanted, "after {act:?}, {} has {disk:?} instead of {wanted:?}", w.nodes[n].name);
        }
        w.pump()?;
        ctx.state(&(model.clone(), joined, extra.clone()));
    }
    w.shutdown(ctx);
    Ok(())
}

fn c21(tier: Tier) -> Vec<Scenario> {
    let n = tier.pick(4, 5);
    let long: &'static str = Box::leak("line\n".repeat(3_000).into_boxed_str());
    let mut list = vec![];
    for (name, files, local) in [
        ("empty-peer", vec![("f", "abc"), ("sub/dir/g", "\nü\r\n")], vec![]),
        ("other-content", vec![("f", "abc"), ("g", "")], vec![("f", "something else"), ("g", "x")]),
        ("other-files", vec![("f", "abc")], vec![("own", "mine"), ("sub/own", "mine")]),
        ("empty-host", vec![], vec![("f", "mine")]),
        ("long-file", vec![("f", long), (".hidden", "h"), ("a b", "💚")], vec![]),
    ] {
        let d = if name == "long-file" { 2 } else { n };
        list.push(scenario(
            name,
            format!("all sequences of {d} joins, restarts, fresh starts and changes at host and peer"),
            move |ctx| hosting(ctx, &files, &local, d),
        ));
    }
    list.push(
        scenario(
            "processes",
            "two real daemons, all pairs of 14 changes and restarts at both",
            |ctx| {
                use live::Op::*;
                let ops = [
                    Write(0), Write(1), New(0), New(1), Remove(0), Type(1), Hang(0), Restart(0), Restart(1), Offline(0),
                    Offline(1), OfflineAll, Fresh(0), Fresh(1),
                ];
                live::sequence(ctx, 2, &ops, 2)
            },
        )
        .waiting(24),
    );
    let n = tier.pick(3, 4);
    list.push(
        scenario(
            "processes-longer",
            format!("two real daemons, all sequences of {n} of 8 changes and restarts at both"),
            move |ctx| {
                use live::Op::*;
                let ops = [Write(0), Write(1), Remove(0), Type(1), Hang(0), Restart(0), Restart(1), Offline(1)];
                live::sequence(ctx, 2, &ops, n)
            },
        )
        .waiting(24),
    );
    list
}

// ---------------------------------------------------------------------------------------------
// C08

const PATHS: [&str; 25] = [
    "a",
    "a.log",
    "keep.log",
    "b.txt",
    ".hidden",
    "x~",
    "build/o",
    "build/sub/o.log",
    "sub/a",
    "sub/a.log",
    "sub/keep.log",
    "sub/x~",
    "sub/build/o",
    "sub/deep/a.log",
    "ü b.log",
    "a.glob",
    ".git/x",
    ".ethersync/x",
    "other/.git/x",
    "other/.ethersync/x",
    "sub/.gitx",
    "git",
    ".x~",
    "sub/.y~",
    "ü~",
];

/// The files that tell us how far the watcher got must not be ignored.
const MARKS: &str = "!/zz-mark*\n";

const RULES: [&str; 12] = [
    "",
    "*.log",
    "!keep.log",
    "build/",
    "/a",
    "a",
    "sub/",
    "sub/*",
    "!sub/a",
    "**/deep",
    "*",
    "# *.log",
];

fn git(dir: &Path, args: &[&str], input: &str) -> String {
    use std::io::Write;
    let mut child = std::process::Command::new("git")
        .args(args)
        .current_dir(dir)
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap_or_else(|e| engine_error(&format!("cannot run git: {e}")));
    child.stdin.take().unwrap().write_all(input.as_bytes()).unwrap();
    String::from_utf8(child.wait_with_output().unwrap().stdout).unwrap()
}

/// An empty repository without calling Git each time.
fn init_repository(dir: &Path) {
    std::fs::create_dir_all(dir.join(".git/objects")).unwrap();
    std::fs::create_dir_all(dir.join(".git/refs")).unwrap();
    std::fs::create_dir_all(dir.join(".git/info")).unwrap();
    std::fs::write(dir.join(".git/HEAD"), "ref: refs/heads/main\n").unwrap();
}

/// The paths that may be shared, according to Git and the rules of ethersync.
fn shareable(project: &Path, paths: &[&str]) -> BTreeSet<String> {
    let ignored = git(
        project,
        &["-c", "safe.directory=*", "check-ignore", "--no-index", "-z", "--stdin"],
        &paths
            .iter()
            .filter(|p| !p.contains(".git/"))
            .map(|p| format!("{p}\0"))
            .collect::<String>(),
    );
    let ignored: BTreeSet<&str> = ignored.split('\0').collect();
    paths
        .iter()
        .filter(|p| !ignored.contains(**p) && !p.ends_with('~'))
        .filter(|p| !p.split('/').any(|c| c == ".git" || c == ".ethersync"))
        .map(|p| p.to_string())
        .collect()
}

fn expect_shared(ctx: &mut Ctx, node: &mut Node, wanted: &Files, when: &str) -> Res {
    let shared = without_marks(node.observe(ctx)?);
    for f in shared.keys() {
        ensure!(wanted.contains_key(f), "{when}: {f:?} is shared although it is ignored");
    }
    for f in wanted.keys() {
        ensure!(shared.contains_key(f), "{when}: {f:?} is not shared although nothing says to ignore it");
    }
    ensure!(shared == *wanted, "{when}: shared are {shared:?} instead of {wanted:?}");
    Ok(())
}

/// `rules`: lines for the ignore files, given as (file, lines).
fn ignoring(ctx: &mut Ctx, rules: &[(String, String)], nested: bool, depth: usize) -> Res {
    let mut node = Node::new(ctx, 'A', 1);
    if nested {
        // The project is only a part of the repository.
        init_repository(node.dir.parent().unwrap());
    } else {
        init_repository(&node.dir);
    }
    let mut extra = vec![];
    for (file, lines) in rules {
        note!(ctx, "{file}: {lines:?}");
        node.write(file, lines);
        if !file.starts_with("..") && !file.starts_with(".git/") {
            extra.push(file.clone());
        }
    }
    let all: Vec<&str> = PATHS.into_iter().filter(|p| !nested || *p != ".git/x").collect();
    let mut paths = all.clone();
    paths.extend(extra.iter().map(|s| s.as_str()));
    paths.sort();
    paths.dedup();
    // Git does not know .ignore files, but that is as if these lines came last in .gitignore.
    let lines_of = |name: &str| rules.iter().find(|(f, _)| f == name).map(|(_, l)| l.clone());
    let own = lines_of(".gitignore");
    if let (Some(own), Some(more)) = (&own, lines_of(".ignore")) {
        node.write(".gitignore", &format!("{own}{more}"));
    }
    let shared_paths = shareable(&node.dir, &paths);
    if let Some(own) = own {
        node.write(".gitignore", &own);
    }
    // One half of the files is there before the daemon starts, the other half appears later.
    let half = ctx.flip();
    let content = |f: &str, n: usize| format!("{f} {n}");
    let mut wanted = Files::new();
    for (i, p) in all.iter().enumerate() {
        if (i % 2 == 0) == half {
            node.write(p, &content(p, 0));
            if shared_paths.contains(*p) {
                wanted.insert(p.to_string(), content(p, 0));
            }
        }
    }
    for (file, lines) in rules {
        if shared_paths.contains(file) {
            wanted.insert(file.clone(), lines.clone());
        }
    }
    node.start(ctx, false, true)?;
    expect_shared(ctx, &mut node, &wanted, "after starting")?;

    let mut watched = Watched::new(ctx, &node.dir);
    let mut deliver = |ctx: &mut Ctx, node: &mut Node| -> Res {
        for e in watched.drain(ctx)? {
            note!(ctx, "the daemon handles: {}", describe(&node.dir, &e));
            node.send(ctx, DocMessage::FromWatcher(e))?;
        }
        Ok(())
    };
    for (i, p) in all.iter().enumerate() {
        if (i % 2 == 0) != half {
            let known_dir = node.dir.join(p).parent().unwrap().exists();
            node.write(p, &content(p, 1));
            if shared_paths.contains(*p) {
                wanted.insert(p.to_string(), content(p, 1));
            }
            if !known_dir {
                deliver(ctx, &mut node)?;
            }
        }
    }
    deliver(ctx, &mut node)?;
    expect_shared(ctx, &mut node, &wanted, "after files were created")?;
    for p in all.iter().copied() {
        node.write(p, &content(p, 2));
        if shared_paths.contains(p) {
            wanted.insert(p.to_string(), content(p, 2));
        }
    }
    deliver(ctx, &mut node)?;
    expect_shared(ctx, &mut node, &wanted, "after files were changed")?;
    let persisted = ctx.flip();
    if persisted {
        node.persist(ctx)?;
        deliver(ctx, &mut node)?;
        node.stop(ctx);
        node.start(ctx, false, true)?;
        expect_shared(ctx, &mut node, &wanted, "after a restart")?;
    } else if depth > 0 {
        // Renames between all kinds of names.
        let names = ["b.txt", "a.log", "sub/a.log", "x~", "build/o", "keep.log"];
        let from = ctx.pick(&names);
        let to = ctx.pick(&names);
        if from != to {
            note!(ctx, "rename {from} to {to}");
            std::fs::rename(node.dir.join(from), node.dir.join(to)).unwrap();
            deliver(ctx, &mut node)?;
            wanted.remove(from);
            if shared_paths.contains(to) {
                wanted.insert(to.to_string(), content(from, 2));
            }
            expect_shared(ctx, &mut node, &wanted, "after renaming")?;
            ctx.state(&wanted);
            node.stop(ctx);
            return Ok(());
        }
    }

    // Opening in an editor.
    let mut w = World::default();
    w.nodes.push(node);
    let e = w.connect_editor(ctx, '1', 0)?;
    for p in all {
        let uri = w.nodes[0].uri(p);
        if !w.nodes[0].dir.join(p).exists() {
            continue;
        }
        w.request(e, "open", serde_json::json!({ "uri": uri }));
        let before = w.editors[e].errors.len();
        w.settle_editor(ctx, e)?;
        let refused = w.editors[e].errors.len() > before;
        ensure!(
            refused != shared_paths.contains(p),
            "opening {p:?} was {}",
            if refused { "refused although it is not ignored" } else { "allowed although it is ignored" }
        );
        if !refused {
            w.request(e, "close", serde_json::json!({ "uri": uri }));
            w.settle_editor(ctx, e)?;
        }
    }
    expect_shared(ctx, &mut w.nodes[0], &wanted, "after opening files")?;
    ctx.state(&wanted);
    w.shutdown(ctx);
    Ok(())
}

/// Files that cannot be shared do not keep others from being shared.
fn strange_files(ctx: &mut Ctx) -> Res {
    use std::os::unix::ffi::OsStrExt;
    let mut node = Node::new(ctx, 'A', 1);
    node.write("f", "abc");
    let odd = std::ffi::OsStr::from_bytes(b"odd-\xff");
    let kinds = ["name", "directory name", "binary", "symlink out", "dangling symlink", "loop", "fifo", "unreadable"];
    let kind = ctx.pick(&kinds);
    let early = ctx.flip();
    let make = |node: &Node| match kind {
        "name" => std::fs::write(node.dir.join(odd), "x").unwrap(),
        "directory name" => {
            std::fs::create_dir(node.dir.join(odd)).unwrap();
            std::fs::write(node.dir.join(odd).join("x"), "x").unwrap();
        }
        "binary" => std::fs::write(node.dir.join("bin"), b"a\xffb\0").unwrap(),
        "symlink out" => {
            let outside = node.dir.parent().unwrap().join("secret");
            std::fs::write(&outside, "secret").unwrap();
            std::os::unix::fs::symlink(&outside, node.dir.join("link")).unwrap();
        }
        "dangling symlink" => std::os::unix::fs::symlink("nowhere", node.dir.join("link")).unwrap(),
        "loop" => std::os::unix::fs::symlink(&node.dir, node.dir.join("loop")).unwrap(),
        "fifo" => {
            let ok = std::process::Command::new("mkfifo").arg(node.dir.join("fifo")).status();
            assert!(ok.is_ok_and(|s| s.success()));
        }
        _ => {
            use std::os::unix::fs::PermissionsExt;
            std::fs::create_dir(node.dir.join("locked")).unwrap();
            std::fs::set_permissions(node.dir.join("locked"), std::fs::Permissions::from_mode(0)).unwrap();
        }
    };
    note!(ctx, "{kind}, {}", if early { "before the start" } else { "later" });
    if early {
        make(&node);
    }
    node.start(ctx, false, true)?;
    let mut wanted = Files::from([("f".to_string(), "abc".to_string())]);
    expect_shared(ctx, &mut node, &wanted, "after starting")?;
    let mut watched = Watched::new(ctx, &node.dir);
    if !early {
        make(&node);
    }
    node.write("g", "later");
    node.write("f", "changed");
    wanted.insert("g".to_string(), "later".to_string());
    wanted.insert("f".to_string(), "changed".to_string());
    for e in watched.drain(ctx)? {
        note!(ctx, "the daemon handles: {}", describe(&node.dir, &e));
        node.send(ctx, DocMessage::FromWatcher(e))?;
    }
    expect_shared(ctx, &mut node, &wanted, "after files were created")?;
    node.persist(ctx)?;
    node.stop(ctx);
    node.start(ctx, false, true)?;
    expect_shared(ctx, &mut node, &wanted, "after a restart")?;
    ctx.outcome(kind);
    node.stop(ctx);
    Ok(())
}

fn c08(tier: Tier) -> Vec<Scenario> {
    // Nothing from the surroundings, but a personal ignore file.
    let home = mc::scratch_root().join("home");
    std::fs::create_dir_all(home.join(".config/git")).unwrap();
    std::fs::write(home.join(".config/git/ignore"), "*.glob\n").unwrap();
    std::env::set_var("HOME", &home);
    std::env::remove_var("XDG_CONFIG_HOME");
    let depth = tier.pick(0, 1);
    let rule = |i: usize| RULES[i];
    vec![
        scenario(
            "root-rules",
            format!("all pairs of {} lines in .gitignore; {} files at startup, created, changed, renamed, opened", RULES.len(), PATHS.len()),
            move |ctx| {
                let (a, b) = (ctx.choose(RULES.len()), ctx.choose(RULES.len()));
                let rules = vec![(".gitignore".to_string(), format!("{}\n{}\n{MARKS}", rule(a), rule(b)))];
                ignoring(ctx, &rules, false, depth)
            },
        ),
        scenario("renames", "one line in .gitignore, all renames among six files", move |ctx| {
            let a = ctx.choose(RULES.len());
            let rules = vec![(".gitignore".to_string(), format!("{}\n{MARKS}", rule(a)))];
            ignoring(ctx, &rules, false, 1)
        }),
        scenario("nested-rules", "a line in .gitignore and a line in sub/.gitignore", move |ctx| {
            let (a, b) = (ctx.choose(RULES.len()), ctx.choose(RULES.len()));
            let rules = vec![
                (".gitignore".to_string(), format!("{}\n{MARKS}", rule(a))),
                ("sub/.gitignore".to_string(), format!("{}\n", rule(b))),
            ];
            ignoring(ctx, &rules, false, 0)
        }),
        scenario("exclude-rules", "a line in .git/info/exclude and a line in .gitignore", move |ctx| {
            let (a, b) = (ctx.choose(RULES.len()), ctx.choose(RULES.len()));
            let rules = vec![
                (".git/info/exclude".to_string(), format!("{}\n", rule(a))),
                (".gitignore".to_string(), format!("{}\n{MARKS}", rule(b))),
            ];
            ignoring(ctx, &rules, false, 0)
        }),
        scenario("parent-rules", "the project is a subdirectory of the repository", move |ctx| {
            let (a, b) = (ctx.choose(RULES.len()), ctx.choose(RULES.len()));
            if rule(a) == "*" {
                // Then the whole project is ignored.
                return Ok(());
            }
            let rules = vec![
                ("../.gitignore".to_string(), format!("{}\n", rule(a))),
                (".gitignore".to_string(), format!("{}\n{MARKS}", rule(b))),
            ];
            ignoring(ctx, &rules, true, 0)
        }),
        scenario("ignore-rules", "one of 4 lines in .gitignore and a line in .ignore", move |ctx| {
            let (a, b) = (ctx.pick(&["", "*.log", "sub/*", "!keep.log"]), ctx.choose(RULES.len()));
            let rules = vec![
                (".gitignore".to_string(), format!("{a}\n{MARKS}")),
                (".ignore".to_string(), format!("{}\n{MARKS}", rule(b))),
            ];
            ignoring(ctx, &rules, false, 0)
        }),
        scenario("strange-files", "files that cannot be shared, before the start and later", strange_files),
    ]
}
