//! Checks that run the real program: C14 (the client forwards messages), C16 (secrets), C17 (keys
//! and sockets) and C24 (settings). MC_DAEMON names the binary, built from the current tree.

use automerge::{AutoCommit, ReadDoc, ROOT};
use mc::process::*;
use mc::*;
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::fs::{FileTypeExt, MetadataExt, PermissionsExt};
use std::os::unix::net::{UnixListener, UnixStream};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

const NOBODY: u32 = 65534;

fn main() {
    let o = parse_args();
    // Most of the time is spent waiting.
    if matches!(o.property.as_str(), "C16" | "C17" | "C24") && std::env::var("MC_WORKERS").is_err() {
        std::env::set_var("MC_WORKERS", if o.property == "C16" { "40" } else { "24" });
    }
    if !binary().is_file() {
        engine_error("MC_DAEMON does not name the program");
    }
    let (scenarios, assumptions): (_, &[&str]) = match o.property.as_str() {
        "C14" => (
            c14(o.tier),
            &["the kernel hands each written chunk to the client's next read"],
        ),
        "C16" => (
            c16(o.tier),
            &["two programs that closed their connection, or exchanged no file within 6 s, stay apart"],
        ),
        "C17" => (c17(), &["file permissions are those of the kernel"]),
        "C24" => (c24(), &["a connection attempt happens within 20 s, or not at all"]),
        p => engine_error(&format!("unknown property {p}")),
    };
    run_check(&o, "model_checking", assumptions, scenarios);
}

// ---------------------------------------------------------------------------------------------
// C14

struct Client {
    process: Process,
    socket: UnixStream,
}

fn start_client(ctx: &mut Ctx) -> Res<Client> {
    let dir = ctx.fresh_dir();
    let run = run_dir(&dir);
    let listener = UnixListener::bind(run.join("ethersync")).unwrap();
    listener.set_nonblocking(true).unwrap();
    let mut c = command(&run);
    c.arg("client").stdin(Stdio::piped()).stdout(Stdio::piped());
    let mut process = Process::start(c, &dir.join("log"));
    let socket = wait_until(PATIENCE, || match listener.accept() {
        Ok((s, _)) => Some(Some(s)),
        Err(_) => process.ended().map(|_| None),
    });
    match socket.flatten() {
        Some(socket) => {
            socket.set_nonblocking(false).unwrap();
            Ok(Client { process, socket })
        }
        None => fail!("the client does not connect: {}", process.said()),
    }
}

/// How many bytes has the other side not read yet?
fn unread(fd: i32, request: libc::c_ulong) -> i32 {
    let mut n: libc::c_int = 0;
    if unsafe { libc::ioctl(fd, request, &mut n) } != 0 {
        return 0;
    }
    n
}

fn read_all(mut from: impl Read + Send + 'static) -> std::sync::mpsc::Receiver<Vec<u8>> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut all = vec![];
        let _ = from.read_to_end(&mut all);
        let _ = tx.send(all);
    });
    rx
}

/// Cuts a byte sequence at chosen places.
fn chunks(ctx: &mut Ctx, bytes: &[u8], cuts: Cuts) -> Vec<Vec<u8>> {
    let n = bytes.len();
    match cuts {
        Cuts::UpTo(max) => {
            let mut list = vec![];
            let mut start = 0;
            for _ in 0..max {
                // The end means that there is no further cut.
                let at = start + 1 + ctx.choose(n - start);
                if at >= n {
                    break;
                }
                list.push(bytes[start..at].to_vec());
                start = at;
            }
            list.push(bytes[start..].to_vec());
            list
        }
        Cuts::Pieces => {
            let size = ctx.pick(&[1usize, 2, 3, 7, 16, 1000]);
            bytes.chunks(size.max(n / 300)).map(|c| c.to_vec()).collect()
        }
    }
}

#[derive(Clone, Copy)]
enum Cuts {
    /// Up to this many cuts, at all places.
    UpTo(usize),
    /// Pieces of the same size.
    Pieces,
}

fn contents() -> Vec<String> {
    let mut list: Vec<String> = [
        "", "{}", "ä", "\u{1f955}x", "Content-Length: 3", "\\r\\n\\r\\n", "a\rb", "\u{2028}\u{85}\u{b}\u{c}", "123456789", "1234567890", " x ", "\u{feff}{\"k\":\"\u{0}\"}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    list.push("x".repeat(99) + "é");
    list
}

const HEADERS: [&str; 4] = [
    "Content-Length: {}\r\n\r\n",
    "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {}\r\n\r\n",
    "Content-Length: {}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n",
    "Content-Length: {}\n\n",
];

fn frame(content: &str, header: &str) -> Vec<u8> {
    let mut f = header.replace("{}", &content.len().to_string()).into_bytes();
    f.extend_from_slice(content.as_bytes());
    f
}

fn feed(ctx: &mut Ctx, to: &mut (impl Write + AsRawFd), pieces: &[Vec<u8>], request: libc::c_ulong, process: &mut Process) -> Res {
    for piece in pieces {
        ctx.step();
        note!(ctx, "write {:?}", String::from_utf8_lossy(&piece[..piece.len().min(200)]));
        if to.write_all(piece).and_then(|()| to.flush()).is_err() {
            fail!("the client ended early: {}", process.said());
        }
        let fd = to.as_raw_fd();
        let taken = wait_until(PATIENCE, || {
            (unread(fd, request) == 0 || process.ended().is_some()).then_some(())
        });
        ensure!(taken.is_some(), "the client does not read what it is sent");
    }
    Ok(())
}

fn to_daemon(ctx: &mut Ctx, messages: &[String], header: &str, cuts: Cuts) -> Res {
    let bytes: Vec<u8> = messages.iter().flat_map(|m| frame(m, header)).collect();
    let pieces = chunks(ctx, &bytes, cuts);
    let mut c = start_client(ctx)?;
    let received = read_all(c.socket.try_clone().unwrap());
    let mut stdin = c.process.child.stdin.take().unwrap();
    feed(ctx, &mut stdin, &pieces, libc::FIONREAD, &mut c.process)?;
    // The editor has nothing more to say. The client ends then.
    drop(stdin);
    let Ok(got) = received.recv_timeout(PATIENCE) else {
        fail!("the client does not end when the editor closes its input");
    };
    let expected: Vec<u8> = messages.iter().flat_map(|m| format!("{m}\n").into_bytes()).collect();
    ensure!(
        got == expected,
        "the editor wrote {} but the daemon got {} instead of {}; {}",
        brief(&bytes),
        brief(&got),
        brief(&expected),
        c.process.said()
    );
    ctx.state(&(got, pieces.iter().map(|p| p.len()).collect::<Vec<_>>()));
    Ok(())
}

fn to_editor(ctx: &mut Ctx, messages: &[String], cuts: Cuts) -> Res {
    let bytes: Vec<u8> = messages.iter().flat_map(|m| format!("{m}\n").into_bytes()).collect();
    let pieces = chunks(ctx, &bytes, cuts);
    let mut c = start_client(ctx)?;
    let received = read_all(c.process.child.stdout.take().unwrap());
    let mut socket = c.socket.try_clone().unwrap();
    feed(ctx, &mut socket, &pieces, libc::TIOCOUTQ, &mut c.process)?;
    // The daemon goes away. The client ends then.
    socket.shutdown(std::net::Shutdown::Both).unwrap();
    let Ok(got) = received.recv_timeout(PATIENCE) else {
        fail!("the client does not end when the daemon is gone");
    };
    let frames = parse_frames(&got).map_err(|e| {
        Violation::new(format!("the daemon wrote {} but the editor got {}: {e}", brief(&bytes), brief(&got)))
    })?;
    ensure!(
        frames == messages,
        "the daemon wrote {} but the editor got {}",
        brief(&bytes),
        brief(&got)
    );
    ctx.state(&(got, pieces.iter().map(|p| p.len()).collect::<Vec<_>>()));
    Ok(())
}

fn parse_frames(bytes: &[u8]) -> Result<Vec<String>, String> {
    let mut rest = bytes;
    let mut frames = vec![];
    while !rest.is_empty() {
        let end = rest
            .windows(4)
            .position(|w| w == b"\r\n\r\n")
            .ok_or("header without end")?;
        let header = std::str::from_utf8(&rest[..end]).map_err(|_| "header is not text")?;
        let mut length = None;
        for line in header.split("\r\n") {
            let (name, value) = line.split_once(':').ok_or("broken header line")?;
            if name.eq_ignore_ascii_case("Content-Length") {
                length = value.trim().parse::<usize>().ok();
            }
        }
        let length = length.ok_or("no length")?;
        rest = &rest[end + 4..];
        if rest.len() < length {
            return Err("content is shorter than announced".into());
        }
        frames.push(
            std::str::from_utf8(&rest[..length])
                .map_err(|_| "content is cut within a character")?
                .to_string(),
        );
        rest = &rest[length..];
    }
    Ok(frames)
}

fn brief(b: &[u8]) -> String {
    let s = format!("{:?}", String::from_utf8_lossy(b));
    s.chars().take(300).collect()
}

fn c14(tier: Tier) -> Vec<Scenario> {
    let all = contents();
    let few: Vec<String> = [0usize, 2, 4, 9].iter().map(|i| all[*i].clone()).collect();
    let mut list = vec![];
    let (a, f) = (all.clone(), few.clone());
    list.push(scenario("editor-single", "13 contents, 4 forms of the header, every cut (thorough: every two cuts)", move |ctx| {
        let m = ctx.pick(&a);
        let h = ctx.pick(&HEADERS);
        to_daemon(ctx, &[m], h, Cuts::UpTo(tier.pick(1, 2)))
    }));
    list.push(scenario("editor-pairs", "all pairs of 4 contents, every cut (thorough: every two cuts)", move |ctx| {
        let m = vec![ctx.pick(&f), ctx.pick(&f)];
        to_daemon(ctx, &m, HEADERS[0], Cuts::UpTo(tier.pick(1, 2)))
    }));
    let f = few.clone();
    list.push(scenario("editor-cuts", "two contents, every three cuts (thorough: four)", move |ctx| {
        let m = ctx.pick(&f[..2]);
        to_daemon(ctx, &[m], HEADERS[0], Cuts::UpTo(tier.pick(3, 4)))
    }));
    let a = all.clone();
    list.push(scenario("daemon-single", "13 contents, every two cuts", move |ctx| {
        let m = ctx.pick(&a[..12]);
        to_editor(ctx, &[m], Cuts::UpTo(2))
    }));
    let f = few.clone();
    list.push(scenario("daemon-pairs", "all pairs of 4 contents, every two cuts (thorough: three)", move |ctx| {
        let m = vec![ctx.pick(&f), ctx.pick(&f)];
        to_editor(ctx, &m, Cuts::UpTo(tier.pick(2, 3)))
    }));
    let a = all.clone();
    list.push(scenario("triples", "all triples of 13 contents in pieces of several sizes, both directions", move |ctx| {
        let m = vec![ctx.pick(&a[..9]), ctx.pick(&a[2..6]), ctx.pick(&a)];
        if ctx.flip() {
            to_daemon(ctx, &m, HEADERS[0], Cuts::Pieces)
        } else {
            to_editor(ctx, &m, Cuts::Pieces)
        }
    }));
    list.push(scenario("long", "contents at and above the sizes of pipes and buffers", move |ctx| {
        let n = ctx.pick(&[999usize, 1000, 8190, 8192, 9999, 10000, 65535, 65536, 200_000]);
        let unit = ctx.pick(&["x", "\u{1f955}"]);
        let m = vec![unit.repeat(n / unit.len()), "end".to_string()];
        let cuts = Cuts::Pieces;
        if ctx.flip() {
            to_daemon(ctx, &m, HEADERS[0], cuts)
        } else {
            to_editor(ctx, &m, cuts)
        }
    }));
    list.push(scenario("both-ways", "a message in each direction, each cut once, in turns", move |ctx| {
        let text = "{\"ü\":1}";
        let (x, y) = (frame(text, HEADERS[0]), format!("{text}\n").into_bytes());
        let (p, q) = (chunks(ctx, &x, Cuts::UpTo(1)), chunks(ctx, &y, Cuts::UpTo(1)));
        let mut c = start_client(ctx)?;
        let mut stdin = c.process.child.stdin.take().unwrap();
        let mut socket = c.socket.try_clone().unwrap();
        for i in 0..p.len().max(q.len()) {
            if let Some(piece) = p.get(i) {
                feed(ctx, &mut stdin, &[piece.clone()], libc::FIONREAD, &mut c.process)?;
            }
            if let Some(piece) = q.get(i) {
                feed(ctx, &mut socket, &[piece.clone()], libc::TIOCOUTQ, &mut c.process)?;
            }
        }
        let mut stdout = c.process.child.stdout.take().unwrap();
        let wanted = frame(text, HEADERS[0]).len();
        c.socket.set_read_timeout(Some(PATIENCE)).unwrap();
        let mut line = vec![0; text.len() + 1];
        if c.socket.read_exact(&mut line).is_err() || line != format!("{text}\n").into_bytes() {
            fail!("the daemon got {}", brief(&line));
        }
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut got = vec![0; wanted];
            let r = stdout.read_exact(&mut got);
            let _ = tx.send((r.is_ok(), got));
        });
        match rx.recv_timeout(PATIENCE) {
            Ok((true, got)) => ensure!(got == frame(text, HEADERS[0]), "the editor got {}", brief(&got)),
            _ => fail!("the editor gets nothing while it is sending"),
        }
        Ok(())
    }));
    list
}

// ---------------------------------------------------------------------------------------------
// C16

/// What one side has configured.
#[derive(Clone, Debug, PartialEq)]
struct Secret(Option<String>);

impl Secret {
    fn config(&self) -> Option<Vec<u8>> {
        self.0.as_ref().map(|s| format!("secret={s}\n").into_bytes())
    }

    fn effective(&self) -> &str {
        self.0.as_deref().unwrap_or("default-passphrase")
    }
}

/// Passes a connection on and notes when it has ended.
fn proxy(target: u16) -> (u16, Arc<AtomicUsize>, Arc<AtomicBool>) {
    let listener = TcpListener::bind(("127.0.0.1", 0)).unwrap();
    let port = listener.local_addr().unwrap().port();
    let ended = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    listener.set_nonblocking(true).unwrap();
    let (e, s) = (ended.clone(), stop.clone());
    std::thread::spawn(move || {
        while !s.load(Ordering::Relaxed) {
            let Ok((a, _)) = listener.accept() else {
                std::thread::sleep(Duration::from_millis(2));
                continue;
            };
            a.set_nonblocking(false).unwrap();
            let Ok(b) = TcpStream::connect(("127.0.0.1", target)) else { continue };
            let e = e.clone();
            std::thread::spawn(move || {
                let pump = |mut from: TcpStream, mut to: TcpStream| {
                    std::thread::spawn(move || {
                        let _ = std::io::copy(&mut from, &mut to);
                        let _ = to.shutdown(std::net::Shutdown::Both);
                        let _ = from.shutdown(std::net::Shutdown::Both);
                    })
                };
                let x = pump(a.try_clone().unwrap(), b.try_clone().unwrap());
                let y = pump(b, a);
                let _ = x.join();
                let _ = y.join();
                e.fetch_add(1, Ordering::SeqCst);
            });
        }
    });
    (port, ended, stop)
}

fn meeting(ctx: &mut Ctx, host: &Secret, joiner: &Secret) -> Res {
    let (dir_a, dir_b) = (ctx.fresh_dir(), ctx.fresh_dir());
    let a = project(&dir_a, host.config().as_deref());
    let b = project(&dir_b, joiner.config().as_deref());
    std::fs::write(a.join("hello"), "from the host").unwrap();
    std::fs::write(b.join("own"), "from the joiner").unwrap();
    let port = fresh_port();
    note!(ctx, "host with secret {:?}", host.0);
    let run_a = run_dir(&dir_a);
    let mut c = command(&run_a);
    c.args(["daemon", "--port", &port.to_string()]).arg(&a);
    let mut pa = Process::start(c, &dir_a.join("log"));
    listening(&mut pa, port)?;
    let (through, ended, stop) = proxy(port);
    note!(ctx, "joining with secret {:?}", joiner.0);
    let run_b = run_dir(&dir_b);
    let mut c = command(&run_b);
    c.args(["daemon", "--peer", &format!("/ip4/127.0.0.1/tcp/{through}")]).arg(&b);
    let mut pb = Process::start(c, &dir_b.join("log"));
    ctx.step();
    let expected = host.effective() == joiner.effective();
    let arrived = |b: &Path| std::fs::read(b.join("hello")).is_ok_and(|c| c == b"from the host");
    let outcome = wait_until(if expected { PATIENCE } else { Duration::from_secs(6) }, || {
        if arrived(&b) {
            return Some(true);
        }
        if ended.load(Ordering::SeqCst) > 0 || pb.ended().is_some() {
            std::thread::sleep(Duration::from_millis(100));
            return Some(arrived(&b));
        }
        None
    });
    stop.store(true, Ordering::Relaxed);
    let met = outcome == Some(true);
    if expected {
        ensure!(met, "both have the secret {:?}/{:?} but do not synchronize; host: {} joiner: {}", host.0, joiner.0, pa.said(), pb.said());
        ctx.outcome("together");
    } else {
        ensure!(!met, "secrets {:?} and {:?} differ but the daemons synchronize", host.0, joiner.0);
        ensure!(pa.ended().is_none(), "the host ended because of a peer with a wrong secret: {}", pa.said());
        ctx.outcome("apart");
    }
    ctx.state(&(host.0.clone(), joiner.0.clone()));
    Ok(())
}

fn secrets(tier: Tier) -> Vec<Secret> {
    let mut list = vec![Secret(None)];
    let mut add = |s: &str| list.push(Secret(Some(s.to_string())));
    for s in ["", "a", "b", "A", "aa", "ab", "ba", "a b", "a  b", "ä", "a\u{308}", "default-passphrase", "default-passphras", "Default-passphrase", "secret"] {
        add(s);
    }
    // Around the sizes of hash blocks.
    for n in [31, 32, 63, 64] {
        add(&("x".repeat(n) + "1"));
        add(&("x".repeat(n) + "2"));
    }
    add(&("x".repeat(999) + "1"));
    add(&("x".repeat(999) + "2"));
    add("a\u{0}");
    if tier == Tier::Thorough {
        for s in ["aaa", "aab", "aba", "abb", "baa", "bab", "bba", "bbb", "bb", "1", "2", "12", "21", "default", "passphrase", "x", "ae", "\u{430}", "0", "00"] {
            add(s);
        }
    }
    list
}

fn c16(tier: Tier) -> Vec<Scenario> {
    vec![scenario(
        "pairs",
        format!("all ordered pairs of {} secrets, each with two daemons on the loopback interface", secrets(tier).len()),
        move |ctx| {
            let all = secrets(tier);
            let (a, b) = (ctx.pick(&all), ctx.pick(&all));
            patiently(ctx, |ctx| meeting(ctx, &a, &b))
        },
    )]
}

// ---------------------------------------------------------------------------------------------
// C17

fn give(dir: &Path) {
    for e in walk(dir) {
        let _ = std::os::unix::fs::lchown(&e, Some(NOBODY), Some(NOBODY));
    }
}

fn walk(dir: &Path) -> Vec<PathBuf> {
    let mut list = vec![dir.to_path_buf()];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.file_type().is_ok_and(|t| t.is_dir()) {
            list.extend(walk(&e.path()));
        } else {
            list.push(e.path());
        }
    }
    list
}

fn as_nobody(c: &mut Command, umask: u32) {
    c.uid(NOBODY).gid(NOBODY);
    unsafe {
        c.pre_exec(move || {
            libc::umask(umask);
            Ok(())
        });
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Fate {
    Up,
    Ended,
}

/// Waits until the daemon either does what is asked for or has ended.
fn fate(p: &mut Process, mut up: impl FnMut(&Process) -> bool) -> Res<Fate> {
    let f = wait_until(PATIENCE, || {
        if up(p) {
            Some(Fate::Up)
        } else {
            p.ended().map(|_| Fate::Ended)
        }
    });
    match f {
        Some(f) => Ok(f),
        None => fail!("the daemon neither works nor ends: {}", p.said()),
    }
}

fn daemon_as_nobody(dir: &Path, project: &Path, port: u16, umask: u32, frozen: bool) -> Process {
    let run = run_dir(dir);
    let mut c = command(&run);
    c.args(["daemon", "--port", &port.to_string()]).arg(project);
    as_nobody(&mut c, umask);
    if frozen {
        unsafe {
            c.pre_exec(|| {
                keep_first_modes();
                Ok(())
            });
        }
    }
    std::fs::write(dir.join("log"), "").unwrap();
    give(dir);
    Process::start(c, &dir.join("log"))
}

/// Lets all later changes of file modes have no effect, so that files keep the mode they were
/// created with. A file that becomes private only later was open to others in between.
fn keep_first_modes() {
    #[repr(C)]
    struct Instruction(u16, u8, u8, u32);
    #[repr(C)]
    struct Filter(u16, *const Instruction);
    const RET: u16 = 0x06;
    const ALLOW: u32 = 0x7fff_0000;
    const PRETEND: u32 = 0x0005_0000;
    let calls = [libc::SYS_fchmodat, libc::SYS_fchmod, 452];
    #[cfg(target_arch = "x86_64")]
    let calls = [calls[0], calls[1], calls[2], libc::SYS_chmod];
    // Load the number of the system call and compare it.
    let mut program = [const { Instruction(0, 0, 0, 0) }; 8];
    program[0] = Instruction(0x20, 0, 0, 0);
    let n = calls.len();
    for (i, call) in calls.iter().enumerate() {
        program[i + 1] = Instruction(0x15, (n - i) as u8, 0, *call as u32);
    }
    program[n + 1] = Instruction(RET, 0, 0, ALLOW);
    program[n + 2] = Instruction(RET, 0, 0, PRETEND);
    let filter = Filter((n + 3) as u16, program.as_ptr());
    unsafe {
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
        libc::prctl(libc::PR_SET_SECCOMP, 2, &filter as *const Filter);
    }
}

/// A key made by the program itself.
fn some_key() -> Vec<u8> {
    static KEY: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    KEY.get_or_init(|| {
        let dir = scratch_root().join("key");
        std::fs::create_dir_all(&dir).unwrap();
        let p = project(&dir, None);
        let port = fresh_port();
        let mut d = daemon_as_nobody(&dir, &p, port, 0o022, false);
        let file = p.join(".ethersync/key");
        let key = wait_until(PATIENCE, || {
            std::fs::read(&file).ok().filter(|k| !k.is_empty() && listens(port))
        });
        match key {
            Some(k) => k,
            None => engine_error(&format!("cannot make a key: {}", d.said())),
        }
    })
    .clone()
}

fn key_modes(ctx: &mut Ctx, modes: &[u32]) -> Res {
    let mode = ctx.pick(modes);
    let key = some_key();
    let dir = ctx.fresh_dir();
    let p = project(&dir, None);
    let file = p.join(".ethersync/key");
    std::fs::write(&file, &key).unwrap();
    let port = fresh_port();
    let run = run_dir(&dir);
    give(&dir);
    std::fs::set_permissions(&file, PermissionsExt::from_mode(mode)).unwrap();
    note!(ctx, "start with a key of mode {mode:o}");
    let mut c = command(&run);
    c.args(["daemon", "--port", &port.to_string()]).arg(&p);
    as_nobody(&mut c, 0o022);
    let mut d = Process::start(c, &dir.join("log"));
    ctx.step();
    let fate = fate(&mut d, |_| listens(port))?;
    if mode & 0o077 != 0 {
        ensure!(fate == Fate::Ended, "a key with mode {mode:o} is used");
        ctx.outcome("refused");
    }
    if mode == 0o600 {
        ensure!(fate == Fate::Up, "a private key is not used: {}", d.said());
        ctx.outcome("used");
    }
    ensure!(
        std::fs::read(&file).ok().as_ref() == Some(&key),
        "the key file was changed"
    );
    ctx.state(&(mode, fate == Fate::Up));
    Ok(())
}

fn new_keys(ctx: &mut Ctx, umasks: &[u32]) -> Res {
    let umask = ctx.pick(umasks);
    let frozen = ctx.flip();
    let dir = ctx.fresh_dir();
    let p = project(&dir, None);
    let file = p.join(".ethersync/key");
    let port = fresh_port();
    note!(ctx, "first start with umask {umask:o}");
    let mut d = daemon_as_nobody(&dir, &p, port, umask, frozen);
    ctx.step();
    // Others could read the file at any moment, so it has to be private from the beginning.
    let seen = wait_until(PATIENCE, || match file.metadata() {
        Ok(m) => Some(Some(m.mode() & 0o7777)),
        Err(_) => d.ended().map(|_| None),
    });
    match seen.flatten() {
        Some(mode) => ensure!(mode & 0o077 == 0, "a new key is created with mode {mode:o}"),
        None => fail!("no key is created: {}", d.said()),
    }
    ensure!(
        fate(&mut d, |_| listens(port))? == Fate::Up,
        "the daemon does not start: {}",
        d.said()
    );
    let mode = file.metadata().unwrap().mode() & 0o7777;
    ensure!(mode & 0o077 == 0, "a new key has mode {mode:o}");
    ctx.state(&(umask, frozen));
    if frozen {
        return Ok(());
    }
    let key = std::fs::read(&file).unwrap();
    let first = peer_id(&d);
    d.kill();
    note!(ctx, "second start");
    let mut d = daemon_as_nobody(&dir, &p, port, umask, false);
    ctx.step();
    ensure!(
        fate(&mut d, |_| listens(port))? == Fate::Up,
        "the daemon does not start again with the key it made: {}",
        d.said()
    );
    ensure!(std::fs::read(&file).unwrap() == key, "the key is not reused");
    let second = peer_id(&d);
    ensure!(first == second, "the daemon has another identity after a restart");
    Ok(())
}

/// The identity the daemon announces, if it does. Depends on the addresses of this machine.
fn peer_id(d: &Process) -> Option<String> {
    wait_until(Duration::from_millis(300), || {
        let log = String::from_utf8_lossy(&std::fs::read(&d.log).unwrap_or_default()).into_owned();
        let i = log.rfind("/p2p/")?;
        Some(log[i + 5..].chars().take_while(|c| c.is_alphanumeric()).collect())
    })
}

fn socket_dirs(ctx: &mut Ctx, modes: &[u32]) -> Res {
    let mode = ctx.pick(modes);
    let dir = ctx.fresh_dir();
    let p = project(&dir, None);
    let run = run_dir(&dir);
    give(&dir);
    std::fs::set_permissions(&run, PermissionsExt::from_mode(mode)).unwrap();
    note!(ctx, "start with a socket directory of mode {mode:o}");
    let mut c = command(&dir);
    c.env("XDG_RUNTIME_DIR", &run).args(["daemon"]).arg(&p);
    as_nobody(&mut c, 0o022);
    std::fs::set_permissions(&dir, PermissionsExt::from_mode(0o755)).unwrap();
    let mut d = Process::start(c, &dir.join("log"));
    ctx.step();
    let socket = run.join("ethersync");
    let fate = fate(&mut d, |_| UnixStream::connect(&socket).is_ok())?;
    if mode & 0o077 != 0 {
        ensure!(
            fate == Fate::Ended && socket.symlink_metadata().is_err(),
            "the daemon listens in a directory with mode {mode:o}"
        );
        ctx.outcome("refused");
    } else if mode & 0o700 == 0o700 {
        ensure!(fate == Fate::Up, "the daemon does not listen in a private directory: {}", d.said());
        ctx.outcome("listens");
    }
    ctx.state(&(mode, fate == Fate::Up));
    Ok(())
}

/// The directory for systems without a runtime directory. The name is fixed to be in /tmp.
fn fallback_dirs(ctx: &mut Ctx) -> Res {
    struct Removed(PathBuf);
    impl Drop for Removed {
        fn drop(&mut self) {
            let _ = std::fs::remove_file(self.0.join("ethersync"));
            let _ = std::fs::remove_dir(&self.0);
        }
    }
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    // None: it does not exist yet.
    let existing = ctx.pick(&[None, Some(0o700), Some(0o755), Some(0o770), Some(0o707), Some(0o777), Some(0o710), Some(0o701), Some(0o1777)]);
    let umask = ctx.pick(&[0o022, 0o000, 0o077, 0o002, 0o027]);
    let dir = ctx.fresh_dir();
    let p = project(&dir, None);
    let user = format!("mc-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed));
    let run = Removed(PathBuf::from(format!("/tmp/ethersync-{user}")));
    if let Some(mode) = existing {
        std::fs::create_dir(&run.0).unwrap();
        std::fs::set_permissions(&run.0, PermissionsExt::from_mode(mode)).unwrap();
        std::os::unix::fs::chown(&run.0, Some(NOBODY), Some(NOBODY)).unwrap();
    }
    give(&dir);
    note!(ctx, "start without runtime directory, existing directory {}, umask {umask:o}", octal(existing));
    let mut c = command(&dir);
    c.env_remove("XDG_RUNTIME_DIR").env("USER", &user).arg("daemon").arg(&p);
    as_nobody(&mut c, umask);
    let mut d = Process::start(c, &dir.join("log"));
    ctx.step();
    let socket = run.0.join("ethersync");
    let fate = fate(&mut d, |_| UnixStream::connect(&socket).is_ok())?;
    let mode = run.0.metadata().map(|m| m.mode() & 0o777).unwrap_or(0o700);
    if fate == Fate::Up {
        ensure!(mode & 0o077 == 0, "the daemon listens in a directory with mode {mode:o}");
    }
    if existing.is_none_or(|m| m & 0o077 == 0) {
        ensure!(fate == Fate::Up, "the daemon does not listen: {}", d.said());
        ctx.outcome("listens");
    } else {
        ensure!(
            fate == Fate::Ended && socket.symlink_metadata().is_err(),
            "the daemon listens in a directory that had mode {}",
            octal(existing)
        );
        ctx.outcome("refused");
    }
    ctx.state(&(existing, umask));
    Ok(())
}

fn octal(mode: Option<u32>) -> String {
    mode.map_or("none".into(), |m| format!("{m:o}"))
}

fn socket_names(ctx: &mut Ctx) -> Res {
    let segments = ["x", "..", ".", "", "sub", "other", "taken"];
    let shape = ctx.choose(3);
    let n = 1 + ctx.choose(3);
    let mut name = (0..n).map(|_| ctx.pick(&segments)).collect::<Vec<_>>().join("/");
    let by_env = ctx.flip();
    let client = ctx.flip();
    let dir = ctx.fresh_dir();
    let base = dir.join("a/b/base");
    std::fs::create_dir_all(&base).unwrap();
    let p = project(&dir, None);
    let run = run_dir(&base);
    std::fs::create_dir(run.join("sub")).unwrap();
    std::fs::set_permissions(run.join("sub"), PermissionsExt::from_mode(0o700)).unwrap();
    std::fs::create_dir(base.join("other")).unwrap();
    std::fs::set_permissions(base.join("other"), PermissionsExt::from_mode(0o700)).unwrap();
    for d in [&base, &base.join("other"), &run.join("sub")] {
        std::fs::write(d.join("taken"), "something else").unwrap();
    }
    // A socket that was left behind.
    drop(UnixListener::bind(run.join("taken")).unwrap());
    match shape {
        1 => name = format!("{}/{name}", base.display()),
        2 => name = format!("{}/{name}", run.display()),
        _ => {}
    }
    give(&dir);
    let before = sockets_and_files(&dir);
    note!(ctx, "socket name {name:?}");
    let mut c = command(&run);
    c.env("XDG_RUNTIME_DIR", &run);
    if by_env {
        c.env("ETHERSYNC_SOCKET", &name);
    } else {
        c.arg(format!("--socket-name={name}"));
    }
    if client {
        // A client must not connect elsewhere.
        let elsewhere: Vec<UnixListener> = [base.join("other/x"), base.join("x"), run.join("sub/x")]
            .iter()
            .map(|p| {
                let l = UnixListener::bind(p).unwrap();
                l.set_nonblocking(true).unwrap();
                std::os::unix::fs::chown(p, Some(NOBODY), Some(NOBODY)).unwrap();
                l
            })
            .collect();
        c.arg("client").stdin(Stdio::null());
        as_nobody(&mut c, 0o022);
        let mut d = Process::start(c, &dir.join("log"));
        ctx.step();
        let ended = wait_until(PATIENCE, || d.ended());
        ensure!(ended.is_some(), "the client does not end");
        for l in &elsewhere {
            ensure!(
                l.accept().is_err(),
                "with the socket name {name:?} a client connects outside of the socket directory"
            );
        }
        ctx.outcome("client");
        return Ok(());
    }
    c.arg("daemon").arg(&p);
    as_nobody(&mut c, 0o022);
    let mut d = Process::start(c, &dir.join("log"));
    ctx.step();
    let plain = ["x", "taken", "other"].contains(&name.as_str());
    let socket = run.join(&name);
    let fate = if plain {
        fate(&mut d, |_| UnixStream::connect(&socket).is_ok())?
    } else {
        fate(&mut d, |_| {
            let now = sockets_and_files(&dir);
            now.iter().any(|(p, kind)| kind == "socket" && !before.contains(&(p.clone(), kind.clone())))
        })?
    };
    let after = sockets_and_files(&dir);
    let allowed = |p: &Path| p.parent() == Some(&run) || p.starts_with(dir.join("project")) || p == dir.join("log");
    for (p, kind) in before.symmetric_difference(&after) {
        ensure!(
            allowed(p),
            "with the socket name {name:?}, {} ({kind}) outside of the socket directory was created or removed",
            p.display()
        );
    }
    if plain {
        ensure!(fate == Fate::Up, "the daemon does not listen at {name:?}: {}", d.said());
        ctx.outcome("listens");
    } else {
        ctx.outcome(if fate == Fate::Up { "inside" } else { "refused" });
    }
    ctx.state(&name.replace(&dir.display().to_string(), ""));
    Ok(())
}

fn sockets_and_files(dir: &Path) -> BTreeSet<(PathBuf, String)> {
    walk(dir)
        .into_iter()
        .filter_map(|p| {
            let t = p.symlink_metadata().ok()?.file_type();
            let kind = if t.is_socket() {
                "socket"
            } else if t.is_dir() {
                "directory"
            } else {
                "file"
            };
            Some((p, kind.to_string()))
        })
        .collect()
}

fn c17() -> Vec<Scenario> {
    let modes: Vec<u32> = (0..0o10000u32).collect();
    let dir_modes = modes.clone();
    let umasks: Vec<u32> = (0..0o100).collect();
    let m = modes.clone();
    let d = dir_modes.clone();
    vec![
        scenario("key-modes", format!("{} file modes of an existing key", modes.len()), move |ctx| key_modes(ctx, &m)),
        scenario("new-keys", "all 64 umasks for group and others, two starts each, and once without later changes of modes", move |ctx| new_keys(ctx, &umasks)),
        scenario("socket-dirs", format!("{} modes of the socket directory", dir_modes.len()), move |ctx| socket_dirs(ctx, &d)),
        scenario("fallback", "9 states of the fallback directory with 5 umasks", fallback_dirs),
        scenario("socket-names", "all socket names of up to 3 segments from 7, relative and absolute, by option and environment, for daemon and client", socket_names),
    ]
}

// ---------------------------------------------------------------------------------------------
// C24

/// How the config file is written.
const STYLES: [&str; 5] = ["{k}={v}\n", "{k} = {v}\n", "; comment\n{k}={v}\n\n", "{k}={v}\r\n", "# comment\n  {k} =   {v}  \n"];

fn settings(ctx: &mut Ctx) -> Res {
    let cli_port = ctx.flip();
    let cli_peer = ctx.flip();
    let file = ctx.flip();
    let (file_port, file_peer, file_secret) = if file {
        (ctx.flip(), ctx.flip(), ctx.flip())
    } else {
        (false, false, false)
    };
    let style = if file { ctx.pick(&STYLES) } else { STYLES[0] };
    let reversed = file && ctx.flip();
    let dir = ctx.fresh_dir();
    let (p1, p2) = (fresh_port(), fresh_port());
    let listen = || {
        let l = TcpListener::bind(("127.0.0.1", 0)).unwrap();
        l.set_nonblocking(true).unwrap();
        let a = format!("/ip4/127.0.0.1/tcp/{}", l.local_addr().unwrap().port());
        (l, a)
    };
    let ((l1, a1), (l2, a2)) = (listen(), listen());
    let mut lines = vec![];
    if file_port {
        lines.push(("port", p2.to_string()));
    }
    if file_peer {
        lines.push(("peer", a2.clone()));
    }
    if file_secret {
        lines.push(("secret", "from the file".into()));
    }
    if reversed {
        lines.reverse();
    }
    let config: String = lines
        .iter()
        .map(|(k, v)| style.replace("{k}", k).replace("{v}", v))
        .collect();
    let p = project(&dir, file.then_some(config.as_bytes()));
    std::fs::write(p.join("f"), "content").unwrap();
    let run = run_dir(&dir);
    let mut c = command(&run);
    c.arg("daemon").arg(&p);
    if cli_port {
        c.args(["--port", &p1.to_string()]);
    }
    if cli_peer {
        c.args(["--peer", &a1]);
    }
    note!(ctx, "config file {:?}, port on command line: {cli_port}, peer on command line: {cli_peer}", file.then_some(config.clone()));
    let mut d = Process::start(c, &dir.join("log"));
    ctx.step();
    ensure!(
        fate(&mut d, |d| !d.ports().is_empty())? == Fate::Up,
        "the daemon does not start: {}",
        d.said()
    );
    let ports = d.ports();
    let port = if cli_port {
        Some(p1)
    } else if file_port {
        Some(p2)
    } else {
        None
    };
    match port {
        Some(port) => ensure!(
            ports.len() == 1 && ports.contains(&port),
            "the daemon listens on {ports:?} instead of {port}"
        ),
        None => ensure!(
            !ports.contains(&p1) && !ports.contains(&p2),
            "the daemon listens on {ports:?} without being told so"
        ),
    }
    let peer = if cli_peer {
        Some((&l1, &l2))
    } else if file_peer {
        Some((&l2, &l1))
    } else {
        None
    };
    match peer {
        Some((right, wrong)) => {
            let came = wait_until(Duration::from_secs(20), || right.accept().ok());
            ensure!(came.is_some(), "the daemon does not connect to the configured peer: {}", d.said());
            std::thread::sleep(Duration::from_millis(50));
            ensure!(wrong.accept().is_err(), "the daemon connects to a peer that is overridden");
        }
        None => {
            std::thread::sleep(Duration::from_millis(300));
            ensure!(
                l1.accept().is_err() && l2.accept().is_err(),
                "the daemon connects to a peer without being told so"
            );
        }
    }
    // Only a host shares the files it finds at its first start.
    let doc = p.join(".ethersync/doc");
    let shares = wait_until(PATIENCE, || {
        let bytes = std::fs::read(&doc).ok()?;
        let doc = AutoCommit::load(&bytes).ok()?;
        let (_, files) = doc.get(ROOT, "files").ok()??;
        let shares = doc.keys(&files).any(|k| k == "f");
        Some(shares)
    });
    match shares {
        Some(shares) => ensure!(
            shares == peer.is_none(),
            "the daemon {} host although {} peer is configured",
            if shares { "is" } else { "is not" },
            if peer.is_some() { "a" } else { "no" }
        ),
        None => fail!("the daemon does not save its state: {}", d.said()),
    }
    ctx.state(&(cli_port, cli_peer, file, file_port, file_peer, file_secret));
    ctx.outcome(if peer.is_none() { "host" } else { "peer" });
    Ok(())
}

/// Which secret is in effect shows in who can connect.
fn settings_secret(ctx: &mut Ctx) -> Res {
    let style = ctx.pick(&STYLES);
    let value = "a secret";
    let with = |more: &str| style.replace("{k}", "secret").replace("{v}", value) + more;
    let configs: Vec<Option<String>> = vec![
        None,
        Some(String::new()),
        Some("port=0\n".into()),
        Some(with("")),
        Some(with("port=0\n")),
    ];
    let mine = ctx.pick(&configs);
    let joiner = ctx.flip();
    let theirs = ctx.pick(&[None, Some(value)]);
    let expected = mine.as_ref().is_some_and(|c| c.contains("secret")) == theirs.is_some();
    let mine = mine.map(String::into_bytes);
    let theirs = theirs.map(|s| format!("secret={s}\n").into_bytes());
    let (host, join) = if joiner { (&theirs, &mine) } else { (&mine, &theirs) };
    let (dir_a, dir_b) = (ctx.fresh_dir(), ctx.fresh_dir());
    let a = project(&dir_a, host.as_deref());
    let b = project(&dir_b, join.as_deref());
    std::fs::write(a.join("hello"), "from the host").unwrap();
    let port = fresh_port();
    let run_a = run_dir(&dir_a);
    let mut c = command(&run_a);
    c.args(["daemon", "--port", &port.to_string()]).arg(&a);
    let mut pa = Process::start(c, &dir_a.join("log"));
    listening(&mut pa, port)?;
    let (through, ended, stop) = proxy(port);
    let run_b = run_dir(&dir_b);
    let mut c = command(&run_b);
    c.args(["daemon", "--peer", &format!("/ip4/127.0.0.1/tcp/{through}")]).arg(&b);
    let mut pb = Process::start(c, &dir_b.join("log"));
    ctx.step();
    note!(ctx, "host config {:?}, joiner config {:?}", host.as_ref().map(|c| String::from_utf8_lossy(c).into_owned()), join.as_ref().map(|c| String::from_utf8_lossy(c).into_owned()));
    let met = wait_until(if expected { PATIENCE } else { Duration::from_secs(6) }, || {
        if b.join("hello").exists() {
            return Some(true);
        }
        if ended.load(Ordering::SeqCst) > 0 || pb.ended().is_some() {
            std::thread::sleep(Duration::from_millis(100));
            return Some(b.join("hello").exists());
        }
        None
    }) == Some(true);
    stop.store(true, Ordering::Relaxed);
    ensure!(met == expected, "the configured secret is not the one in use: connected {met}, expected {expected}; {} {}", pa.said(), pb.said());
    ctx.outcome(if met { "together" } else { "apart" });
    Ok(())
}

fn c24() -> Vec<Scenario> {
    vec![
        scenario("port-and-peer", "all combinations of port, peer and secret on the command line and in the config file, 5 ways to write it", settings),
        scenario("secret", "5 config files at host or joiner, with and without secret at the other side, 5 ways to write it", settings_secret),
    ]
}
