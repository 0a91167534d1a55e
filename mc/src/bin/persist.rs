//! C05: killing the daemon at any point while it saves its state.
//!
//! The C functions that change files are replaced in this process by ones that first note the
//! state of the watched directory, so that every state a killed process can leave behind is known.

#![allow(unknown_lints, invalid_runtime_symbol_definitions)]

#[path = "../world.rs"]
mod world;

use automerge::{AutoCommit, ChangeHash};
use mc::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr, OsStr};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use world::*;

type Snapshot = BTreeMap<PathBuf, Vec<u8>>;

// ---------------------------------------------------------------------------------------------
// Watching changes of files

static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static RECORDERS: Mutex<Option<HashMap<PathBuf, Recorder>>> = Mutex::new(None);

#[derive(Default)]
struct Recorder {
    /// All different states of the directory, in order.
    states: Vec<Snapshot>,
    /// Tear writes at every byte, or only at a few positions.
    every_byte: bool,
}

impl Recorder {
    fn push(&mut self, s: Snapshot) {
        if self.states.last() != Some(&s) {
            self.states.push(s);
        }
    }
}

fn snapshot(dir: &Path) -> Snapshot {
    fn visit(base: &Path, dir: &Path, s: &mut Snapshot) {
        let Ok(entries) = std::fs::read_dir(dir) else { return };
        for e in entries.flatten() {
            let path = e.path();
            if path.is_dir() {
                visit(base, &path, s);
            } else if let Ok(content) = std::fs::read(&path) {
                s.insert(path.strip_prefix(base).unwrap().to_path_buf(), content);
            }
        }
    }
    let mut s = Snapshot::new();
    visit(dir, dir, &mut s);
    s
}

fn materialize(dir: &Path, s: &Snapshot) {
    for (path, content) in s {
        let path = dir.join(path);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(path, content).unwrap();
    }
}

fn recorder_for(path: &Path) -> Option<PathBuf> {
    let guard = RECORDERS.lock().unwrap();
    guard.as_ref()?.keys().find(|d| path.starts_with(d.join(".ethersync"))).cloned()
}

fn record(dir: &Path) {
    let s = snapshot(dir);
    if let Some(r) = RECORDERS.lock().unwrap().as_mut().and_then(|m| m.get_mut(dir)) {
        r.push(s);
    }
}

fn path_of_fd(fd: c_int) -> Option<PathBuf> {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).ok()
}

/// A call that changes something at a path is about to happen.
fn before_path(path: *const c_char) {
    if ACTIVE.load(Ordering::Relaxed) == 0 || path.is_null() {
        return;
    }
    let path = Path::new(OsStr::from_bytes(unsafe { CStr::from_ptr(path) }.to_bytes()));
    if let Some(dir) = recorder_for(path) {
        record(&dir);
    }
}

fn before_fd(fd: c_int) {
    if ACTIVE.load(Ordering::Relaxed) == 0 {
        return;
    }
    if let Some(dir) = path_of_fd(fd).and_then(|p| recorder_for(&p)) {
        record(&dir);
    }
}

/// A write is about to happen; it may be cut off anywhere.
fn before_write(fd: c_int, data: &[u8], offset: Option<i64>) {
    if ACTIVE.load(Ordering::Relaxed) == 0 {
        return;
    }
    let Some(path) = path_of_fd(fd) else { return };
    let Some(dir) = recorder_for(&path) else { return };
    record(&dir);
    let old = std::fs::read(&path).unwrap_or_default();
    let append = unsafe { libc::fcntl(fd, libc::F_GETFL) } & libc::O_APPEND != 0;
    let at = match offset {
        Some(o) => o as usize,
        None if append => old.len(),
        None => unsafe { libc::lseek(fd, 0, libc::SEEK_CUR) }.max(0) as usize,
    };
    let relative = path.strip_prefix(&dir).unwrap().to_path_buf();
    let mut guard = RECORDERS.lock().unwrap();
    let Some(r) = guard.as_mut().and_then(|m| m.get_mut(&dir)) else { return };
    let Some(now) = r.states.last().cloned() else { return };
    let cuts: Vec<usize> = if r.every_byte {
        (1..data.len()).collect()
    } else {
        let n = data.len();
        BTreeSet::from([1, 4, 8, 9, 12, n / 2, n.saturating_sub(1)])
            .into_iter()
            .filter(|c| *c > 0 && *c < n)
            .collect()
    };
    for cut in cuts {
        let mut content = old.clone();
        if content.len() < at + cut {
            content.resize(at + cut, 0);
        }
        content[at..at + cut].copy_from_slice(&data[..cut]);
        let mut torn = now.clone();
        torn.insert(relative.clone(), content);
        r.push(torn);
    }
}

fn start_recording(dir: &Path, every_byte: bool) {
    let mut r = Recorder { every_byte, ..Default::default() };
    r.push(snapshot(dir));
    RECORDERS.lock().unwrap().get_or_insert_with(HashMap::new).insert(dir.to_path_buf(), r);
    ACTIVE.fetch_add(1, Ordering::Relaxed);
}

/// How many states there are so far, including the current one.
fn recorded(dir: &Path) -> usize {
    record(dir);
    RECORDERS.lock().unwrap().as_ref().unwrap()[dir].states.len()
}

fn stop_recording(dir: &Path) -> Vec<Snapshot> {
    record(dir);
    ACTIVE.fetch_sub(1, Ordering::Relaxed);
    RECORDERS.lock().unwrap().as_mut().unwrap().remove(dir).unwrap().states
}

/// Makes sure that an execution that ends early leaves no recorder behind.
struct Recording(PathBuf);

impl Drop for Recording {
    fn drop(&mut self) {
        if let Ok(mut guard) = RECORDERS.lock() {
            if guard.as_mut().and_then(|m| m.remove(&self.0)).is_some() {
                ACTIVE.fetch_sub(1, Ordering::Relaxed);
            }
        }
    }
}

fn changes_something(flags: c_int) -> bool {
    flags & (libc::O_CREAT | libc::O_TRUNC) != 0
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if changes_something(flags) {
        before_path(path);
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if changes_something(flags) {
        before_path(path);
    }
    libc::syscall(libc::SYS_openat, fd, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat(fd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, data: *const c_void, n: usize) -> isize {
    if ACTIVE.load(Ordering::Relaxed) > 0 && n > 0 {
        before_write(fd, std::slice::from_raw_parts(data as *const u8, n), None);
    }
    libc::syscall(libc::SYS_write, fd, data, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, data: *const c_void, n: usize, at: i64) -> isize {
    if ACTIVE.load(Ordering::Relaxed) > 0 && n > 0 {
        before_write(fd, std::slice::from_raw_parts(data as *const u8, n), Some(at));
    }
    libc::syscall(libc::SYS_pwrite64, fd, data, n, at) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, parts: *const libc::iovec, n: c_int) -> isize {
    if ACTIVE.load(Ordering::Relaxed) > 0 && n > 0 {
        let mut all = vec![];
        for part in std::slice::from_raw_parts(parts, n as usize) {
            all.extend_from_slice(std::slice::from_raw_parts(part.iov_base as *const u8, part.iov_len));
        }
        before_write(fd, &all, None);
    }
    libc::syscall(libc::SYS_writev, fd, parts, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    before_fd(fd);
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    before_path(from);
    before_path(to);
    libc::syscall(libc::SYS_rename, from, to) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(from: *const c_char, to: *const c_char) -> c_int {
    before_path(to);
    libc::syscall(libc::SYS_link, from, to) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, from: *const c_char, d2: c_int, to: *const c_char, flags: c_int) -> c_int {
    before_path(to);
    libc::syscall(libc::SYS_linkat, d1, from, d2, to, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    before_path(path);
    libc::syscall(libc::SYS_unlink, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, flags: c_uint) -> isize {
    before_fd(b);
    libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, flags) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(out: c_int, input: c_int, offset: *mut i64, n: usize) -> isize {
    before_fd(out);
    libc::syscall(libc::SYS_sendfile as c_long, out, input, offset, n) as isize
}

// ---------------------------------------------------------------------------------------------
// The check

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Save,
    /// A file changes on disk.
    Disk,
    /// A file is created on disk.
    Create,
    /// A peer changes a file.
    Peer,
    /// A peer adds a longer text.
    PeerLong,
    Restart,
    /// Starting over.
    Init,
}

/// The hashes of all changes in the document.
fn hashes(ctx: &mut Ctx, node: &mut Node) -> Res<BTreeSet<ChangeHash>> {
    let mut doc = AutoCommit::new();
    node.sync_with(ctx, &mut doc)?;
    Ok(doc.get_changes(&[]).iter().map(|c| c.hash()).collect())
}

fn peer_edit(ctx: &mut Ctx, node: &mut Node, far: &mut AutoCommit, text: &str) -> Res {
    use automerge::{transaction::Transactable, ObjType, ReadDoc};
    node.sync_with(ctx, far)?;
    let (_, map) = far.get(automerge::ROOT, "files").unwrap().unwrap();
    let obj = match far.get(&map, "p").unwrap() {
        Some((_, obj)) => obj,
        None => far.put_object(&map, "p", ObjType::Text).unwrap(),
    };
    far.splice_text(&obj, 0, 0, text).unwrap();
    node.sync_with(ctx, far)
}

struct Run {
    node: Node,
    /// (number of recorded states when the save was complete, what it contained)
    saves: Vec<(usize, BTreeSet<ChangeHash>)>,
    serial: usize,
}

fn run_history(ctx: &mut Ctx, run: &mut Run, far: &mut AutoCommit, acts: &[Act], n: usize) -> Res {
    for _ in 0..n {
        let act = ctx.pick(acts);
        run.serial += 1;
        let serial = run.serial;
        note!(ctx, "{act:?}");
        let node = &mut run.node;
        match act {
            Act::Save => {
                node.persist(ctx)?;
                let h = hashes(ctx, node)?;
                run.saves.push((recorded(&node.dir.clone()), h));
            }
            Act::Disk => {
                node.write("f", &format!("a{serial}b"));
                node.changed(ctx, "f")?;
            }
            Act::Create => {
                node.write("sub/n", &format!("n{serial}"));
                node.created(ctx, "sub/n")?;
            }
            Act::Peer => peer_edit(ctx, node, far, &format!("{serial}"))?,
            Act::PeerLong => {
                let text: String = (0..400u32)
                    .map(|i| char::from_u32(33 + (i * i * 7 + i * serial as u32) % 90).unwrap())
                    .collect();
                peer_edit(ctx, node, far, &text)?
            }
            Act::Restart => {
                node.stop(ctx);
                node.start(ctx, false, true)?;
            }
            Act::Init => {
                node.stop(ctx);
                node.start(ctx, true, true)?;
                // What was saved before is to be discarded.
                run.saves.clear();
            }
        }
    }
    Ok(())
}

/// Picks one of the states that a killed daemon can leave behind, and restarts from there.
fn crash(ctx: &mut Ctx, run: Run, actor: u8, far: &mut AutoCommit) -> Res<Run> {
    let Run { mut node, saves, serial } = run;
    let dir = node.dir.clone();
    node.stop(ctx);
    let states = stop_recording(&dir);
    let k = ctx.choose(states.len());
    let state = &states[k];
    note!(
        ctx,
        "killed in state {k} of {}: {:?}",
        states.len(),
        state.iter().map(|(p, c)| format!("{} ({} bytes)", p.display(), c.len())).collect::<Vec<_>>()
    );
    let mut node = Node::new(ctx, 'A', actor);
    materialize(&node.dir, state);
    let disk = node.disk();
    let saved = saves.iter().filter(|(n, _)| *n <= k + 1).next_back();
    // A host that never saved starts as a host again.
    node.start(ctx, false, saved.is_none() || k % 2 == 0)?;
    let shared = node.observe(ctx)?;
    ensure!(shared == disk, "restarted with {shared:?} although the directory has {disk:?}");
    ensure!(node.disk() == disk, "the restart changed the directory");
    let have = hashes(ctx, &mut node)?;
    if let Some((_, saved)) = saved {
        let lost = saved.difference(&have).count();
        ensure!(lost == 0, "{lost} of {} saved changes are lost", saved.len());
    }
    ctx.state(&state);
    // It synchronizes.
    node.sync_with(ctx, far)?;
    Ok(Run { node, saves: vec![], serial })
}

/// After everything, the daemon works as usual.
fn works(ctx: &mut Ctx, run: &mut Run, far: &mut AutoCommit) -> Res {
    let node = &mut run.node;
    peer_edit(ctx, node, far, "again")?;
    node.write("f", "last");
    node.changed(ctx, "f")?;
    node.sync_with(ctx, far)?;
    let shared = node.observe(ctx)?;
    ensure!(shared == files_of(far)?, "peers differ: {shared:?} and {:?}", files_of(far)?);
    ensure!(shared == node.disk(), "the document has {shared:?} but the directory {:?}", node.disk());
    ensure!(shared["f"] == "last", "{shared:?}");
    node.persist(ctx)?;
    let h = hashes(ctx, node)?;
    node.stop(ctx);
    node.start(ctx, false, true)?;
    let again = node.observe(ctx)?;
    ensure!(again == shared, "restarted with {again:?} instead of {shared:?}");
    ensure!(h.is_subset(&hashes(ctx, node)?), "saved changes are lost");
    node.stop(ctx);
    Ok(())
}

fn crashes(ctx: &mut Ctx, acts: &[Act], depths: &[usize], every_byte: bool) -> Res {
    let mut node = Node::new(ctx, 'A', 1);
    node.write("f", "ab");
    let mut far = AutoCommit::new();
    far.set_actor(automerge::ActorId::from(&[9u8][..]));
    let mut actor = 1;
    let _guard = Recording(node.dir.clone());
    start_recording(&node.dir.clone(), every_byte);
    node.start(ctx, false, true)?;
    let mut run = Run { node, saves: vec![], serial: 0 };
    let mut guards = vec![];
    for (i, depth) in depths.iter().enumerate() {
        if i > 0 {
            let dir = run.node.dir.clone();
            guards.push(Recording(dir.clone()));
            start_recording(&dir, false);
        }
        run_history(ctx, &mut run, &mut far, acts, *depth)?;
        // Each history ends with a save, so that there is something to interrupt.
        run.node.persist(ctx)?;
        let h = hashes(ctx, &mut run.node)?;
        run.saves.push((recorded(&run.node.dir.clone()), h));
        actor += 1;
        run = crash(ctx, run, actor, &mut far)?;
    }
    works(ctx, &mut run, &mut far)
}

fn c05(tier: Tier) -> Vec<Scenario> {
    let n = tier.pick(3, 4);
    let all = vec![Act::Save, Act::Disk, Act::Create, Act::Peer, Act::Restart, Act::Init];
    let few = vec![Act::Save, Act::Peer, Act::Restart];
    let (a1, a2) = (all.clone(), few.clone());
    let m = tier.pick(2, 3);
    let calls = 16;
    vec![
        scenario(
            "every-byte",
            format!("all histories of {n} saves, changes and restarts, then a save; killed at every call and every byte written"),
            move |ctx| crashes(ctx, &a1, &[n], true),
        ),
        scenario("long", "as before with longer texts, 2 steps", move |ctx| {
            crashes(ctx, &[Act::Save, Act::PeerLong, Act::Restart], &[2], true)
        }),
        scenario(
            "twice",
            format!("killed twice, with histories of {m} and 1 steps"),
            move |ctx| crashes(ctx, &a2, &[m, 1], false),
        ),
        scenario("three-times", "killed three times, with histories of 1 step", move |ctx| {
            crashes(ctx, &[Act::Save, Act::Peer], &[1, 1, 0], false)
        }),
        scenario(
            "processes",
            format!("a real daemon that starts, is edited and stops, killed at each of its first {calls} changes of files, also in the middle of writing; then it and a peer go on"),
            move |ctx| live::killed(ctx, calls, 1, false),
        )
        .waiting(24),
        scenario(
            "processes-join",
            "the same with a daemon that joins another one",
            move |ctx| live::killed(ctx, 40, 1, true),
        )
        .waiting(24),
        scenario(
            "processes-twice",
            "a real daemon killed twice within its first changes of files",
            move |ctx| live::killed(ctx, m * 5, 2, false),
        )
        .waiting(24),
    ]
}

fn main() {
    let o = parse_args();
    let assumptions = [
        "the process is killed; the operating system stays up (no lost page cache)",
        "a killed write leaves any prefix of its bytes",
        "project files are not being written at the same moment",
    ];
    let list = match o.property.as_str() {
        "C05" => c05(o.tier),
        p => engine_error(&format!("no check for {p}")),
    };
    run_check(&o, "model_checking", &assumptions, list);
}
