//! The real program as a process. MC_DAEMON names the binary, built from the current tree.

use crate::*;
use std::collections::BTreeSet;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub fn binary() -> PathBuf {
    std::env::var_os("MC_DAEMON").map(PathBuf::from).unwrap_or_default()
}

pub const PATIENCE: Duration = Duration::from_secs(60);

pub fn wait_until<T>(patience: Duration, mut f: impl FnMut() -> Option<T>) -> Option<T> {
    let end = Instant::now() + patience;
    let mut pause = 1;
    loop {
        if let Some(x) = f() {
            return Some(x);
        }
        if Instant::now() > end {
            return None;
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause * 2).min(20);
    }
}

/// A port nobody else in this check uses.
pub fn fresh_port() -> u16 {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    loop {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let port = 10_000 + ((std::process::id() as usize * 997 + n) % 20_000) as u16;
        // Not found out by binding it: a process forked meanwhile would keep it bound for a while.
        if !in_sockets(port, |_| true) {
            return port;
        }
    }
}

thread_local! {
    static SHORTAGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Tries again when the machine had not enough to offer (the number of file watchers is limited).
pub fn patiently(ctx: &mut Ctx, f: impl Fn(&mut Ctx) -> Res) -> Res {
    for i in 0..10 {
        SHORTAGE.set(false);
        let result = f(ctx);
        if result.is_ok() || !SHORTAGE.get() {
            return result;
        }
        std::thread::sleep(Duration::from_secs(1 + i));
    }
    engine_error("there are not enough file watchers")
}

pub struct Process {
    pub child: Child,
    pub log: PathBuf,
}

impl Process {
    pub fn start(mut command: Command, log: &Path) -> Self {
        let file = std::fs::OpenOptions::new().create(true).append(true).open(log).unwrap();
        command.stderr(file.try_clone().unwrap());
        unsafe {
            command.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let child = match command.spawn() {
            Ok(c) => c,
            Err(e) => engine_error(&format!("cannot start the program: {e}")),
        };
        Self {
            child,
            log: log.to_path_buf(),
        }
    }

    pub fn ended(&mut self) -> Option<i32> {
        self.child.try_wait().unwrap().map(|s| s.code().unwrap_or(-1))
    }

    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }

    pub fn said(&self) -> String {
        let s = String::from_utf8_lossy(&std::fs::read(&self.log).unwrap_or_default()).into_owned();
        let n = s.chars().count();
        s.chars().skip(n.saturating_sub(400)).collect()
    }

    /// The TCP ports the process listens on.
    pub fn ports(&self) -> BTreeSet<u16> {
        let mut inodes = BTreeSet::new();
        for e in std::fs::read_dir(format!("/proc/{}/fd", self.child.id())).into_iter().flatten().flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if let Some(i) = t.to_string_lossy().strip_prefix("socket:[") {
                    inodes.insert(i.trim_end_matches(']').to_string());
                }
            }
        }
        let mut ports = BTreeSet::new();
        for table in ["tcp", "tcp6"] {
            for line in std::fs::read_to_string(format!("/proc/{}/net/{table}", self.child.id()))
                .unwrap_or_default()
                .lines()
                .skip(1)
            {
                let f: Vec<&str> = line.split_whitespace().collect();
                if f.len() > 9 && f[3] == "0A" && inodes.contains(f[9]) {
                    if let Some((_, p)) = f[1].rsplit_once(':') {
                        ports.insert(u16::from_str_radix(p, 16).unwrap());
                    }
                }
            }
        }
        ports
    }
}

/// Whether something listens on a TCP port. (The descriptors of another user's process cannot be
/// looked at everywhere.)
pub fn listens(port: u16) -> bool {
    in_sockets(port, |state| state == "0A")
}

fn in_sockets(port: u16, state: impl Fn(&str) -> bool) -> bool {
    let suffix = format!(":{port:04X}");
    ["tcp", "tcp6"].iter().any(|table| {
        std::fs::read_to_string(format!("/proc/self/net/{table}"))
            .unwrap_or_default()
            .lines()
            .skip(1)
            .any(|line| {
                let f: Vec<&str> = line.split_whitespace().collect();
                f.len() > 9 && state(f[3]) && f[1].ends_with(&suffix)
            })
    })
}

impl Drop for Process {
    fn drop(&mut self) {
        self.kill();
        if self.said().contains("Too many open files") {
            SHORTAGE.set(true);
        }
    }
}

pub fn run_dir(dir: &Path) -> PathBuf {
    let run = dir.join("run");
    if !run.exists() {
        std::fs::create_dir_all(&run).unwrap();
        std::fs::set_permissions(&run, PermissionsExt::from_mode(0o700)).unwrap();
    }
    run
}

pub fn command(run: &Path) -> Command {
    let mut c = Command::new(binary());
    c.env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("USER", "mc")
        .env("HOME", run)
        .env("RUST_BACKTRACE", "0")
        .env("XDG_RUNTIME_DIR", run)
        .current_dir(run)
        .stdin(Stdio::null())
        .stdout(Stdio::null());
    c
}

/// A project directory, with an optional config file.
pub fn project(dir: &Path, config: Option<&[u8]>) -> PathBuf {
    let p = dir.join("project");
    std::fs::create_dir_all(p.join(".ethersync")).unwrap();
    if let Some(c) = config {
        std::fs::write(p.join(".ethersync/config"), c).unwrap();
    }
    p
}

pub fn listening(p: &mut Process, port: u16) -> Res {
    let up = wait_until(PATIENCE, || {
        if p.ports().contains(&port) {
            Some(true)
        } else {
            p.ended().map(|_| false)
        }
    });
    ensure!(up == Some(true), "the daemon does not come up: {}", p.said());
    Ok(())
}
