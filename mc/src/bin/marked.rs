//! C28: only directories that are marked with `.ethersync` are touched, by the program and by the
//! plugins of both editors.

use mc::process::*;
use mc::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn main() {
    let o = parse_args();
    let scenarios = match o.property.as_str() {
        "C28" => c28(o.tier),
        other => engine_error(&format!("unknown property {other}")),
    };
    run_check(
        &o,
        "model_checking",
        &[
            "Neovim of the sandbox; without the plugin, it does what users expect",
            "VS Code is replaced by a stand-in for its extension host (C23)",
        ],
        scenarios,
    );
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Marker {
    None,
    Directory,
    File,
    /// A link to nothing.
    Dangling,
}

impl Marker {
    fn put(self, dir: &Path) {
        let at = dir.join(".ethersync");
        match self {
            Marker::None => {}
            Marker::Directory => std::fs::create_dir(at).unwrap(),
            Marker::File => std::fs::write(at, "").unwrap(),
            Marker::Dangling => std::os::unix::fs::symlink("nothing", at).unwrap(),
        }
    }
}

/// All files below a directory, with their contents.
fn tree(dir: &Path) -> BTreeMap<String, String> {
    fn walk(base: &Path, dir: &Path, into: &mut BTreeMap<String, String>) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let name = e.path().strip_prefix(base).unwrap().to_string_lossy().into_owned();
            let kind = e.file_type().unwrap();
            if kind.is_symlink() {
                into.insert(name, format!("-> {}", std::fs::read_link(e.path()).unwrap().display()));
            } else if kind.is_dir() {
                into.insert(name + "/", String::new());
                walk(base, &e.path(), into);
            } else {
                let content = std::fs::read(e.path()).unwrap_or_default();
                into.insert(name, String::from_utf8_lossy(&content).into_owned());
            }
        }
    }
    let mut all = BTreeMap::new();
    walk(dir, dir, &mut all);
    all
}

const LEVELS: [&str; 3] = ["", "a", "a/b"];

/// A directory in a directory in a directory, each marked or not; each has a file.
fn arrange(root: &Path, markers: &[Marker]) {
    for (level, marker) in LEVELS.iter().zip(markers) {
        let dir = root.join(level);
        std::fs::create_dir_all(&dir).unwrap();
        marker.put(&dir);
        std::fs::write(dir.join("old"), "text\n").unwrap();
    }
}

// ---------------------------------------------------------------------------------------------
// Neovim

struct Session {
    answer: Value,
    tree: BTreeMap<String, String>,
}

fn plugin_dir() -> String {
    std::env::var("MC_VIM_PLUGIN").unwrap_or_else(|_| "/repo/vim-plugin".into())
}

/// Runs Neovim in `root`, with a file to open, with or without the plugin.
fn neovim(dir: &Path, root: &Path, argument: Option<&str>, steps: &Value, plugin: bool) -> Res<Session> {
    std::fs::create_dir_all(dir).unwrap();
    let (steps_file, answer_file) = (dir.join("steps"), dir.join("answer"));
    std::fs::write(&steps_file, steps.to_string()).unwrap();
    let mut c = Command::new("timeout");
    c.args(["-k", "1", "60", "nvim", "--clean", "--headless", "-n", "-i", "NONE"]);
    c.arg("--cmd").arg(format!("luafile {}", verif_dir().join("editors/marked.lua").display()));
    if plugin {
        c.arg("--cmd").arg(format!("set rtp^={}", plugin_dir()));
    }
    c.args(["-c", "lua mc_steps()"]);
    if let Some(a) = argument {
        c.arg("--").arg(a);
    }
    c.env("MC_STEPS", &steps_file).env("MC_ANSWER", &answer_file);
    for v in ["HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_CACHE_HOME"] {
        c.env(v, dir);
    }
    c.current_dir(root).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    match c.status() {
        Ok(_) => {}
        Err(e) => engine_error(&format!("cannot start nvim: {e}")),
    }
    let text = std::fs::read_to_string(&answer_file).unwrap_or_default();
    let Ok(answer) = serde_json::from_str::<Value>(&text) else {
        fail!("Neovim stopped before its end{}: {text:?}", if plugin { "" } else { " (without the plugin)" });
    };
    let answer = answer.to_string().replace(root.to_str().unwrap(), "<root>");
    let answer = serde_json::from_str(&answer).unwrap();
    Ok(Session {
        answer,
        tree: tree(root),
    })
}

fn is_shared(markers: &[Marker], level: usize) -> bool {
    markers[..=level].contains(&Marker::Directory)
}

fn in_neovim(ctx: &mut Ctx, kinds: &[Marker], doing: &[&str], depth: usize) -> Res {
    let markers: Vec<Marker> = LEVELS.iter().map(|_| ctx.pick(kinds)).collect();
    let level = ctx.choose(3);
    let name = ctx.pick(&["old", "new", "missing/new"]);
    let how = ctx.pick(&["argument", "absolute", "relative"]);
    let dir = ctx.fresh_dir();
    // Both have the same length, in case something is shortened.
    let (root, twin) = (dir.join("with0"), dir.join("twin0"));
    arrange(&root, &markers);
    arrange(&twin, &markers);
    let path = Path::new(LEVELS[level]).join(name);
    let mut steps = vec![];
    for _ in 0..depth {
        let what = ctx.pick(doing);
        steps.push(match what {
            "other" => {
                let other = (level + 1) % 3;
                json!({"what": "edit", "path": Path::new(LEVELS[other]).join("old")})
            }
            what => json!({ "what": what }),
        });
    }
    note!(ctx, "{markers:?}, {} ({how}), then {steps:?}", path.display());
    let session = |root: &Path, plugin: bool| {
        let mut all = steps.clone();
        let argument = match how {
            "argument" => Some(path.to_str().unwrap()),
            "absolute" => {
                all.insert(0, json!({"what": "edit", "path": root.join(&path)}));
                None
            }
            _ => {
                all.insert(0, json!({"what": "edit", "path": path}));
                None
            }
        };
        neovim(&dir.join(if plugin { "with" } else { "without" }), root, argument, &json!(all), plugin)
    };
    let with = session(&root, true)?;
    ctx.step();
    let touched: Vec<usize> = std::iter::once(level)
        .chain(steps.iter().any(|s| s["what"] == "edit").then_some((level + 1) % 3))
        .collect();
    let sent = with.answer["sent"].as_array().cloned().unwrap_or_default();
    let mut allowed = vec![];
    for l in &touched {
        if is_shared(&markers, *l) {
            let p = if *l == level { path.clone() } else { Path::new(LEVELS[*l]).join("old") };
            // What cannot be written to disk need not be shared.
            if name != "missing/new" || *l != level {
                let uri = format!("file://<root>/{}", p.display());
                ensure!(
                    sent.iter().any(|m| m["method"] == "open" && m["params"]["uri"] == json!(uri)),
                    "{uri} is in a shared directory, but was not opened: {sent:?}"
                );
            }
            allowed.push(format!("file://<root>/{}", p.display()));
        }
    }
    for m in &sent {
        ensure!(
            m["params"]["uri"].as_str().is_some_and(|u| allowed.iter().any(|a| a == u)),
            "{markers:?}: the plugin sent {m}"
        );
    }
    ctx.outcome(if allowed.is_empty() { "not shared" } else { "shared" });
    if !allowed.is_empty() {
        return Ok(());
    }
    ensure!(with.answer["starts"] == json!(0), "the plugin connects to a daemon for a file that is not shared");
    let without = session(&twin, false)?;
    ensure!(
        with.tree == without.tree,
        "with the plugin, the directory is {:?}, without {:?}",
        with.tree,
        without.tree
    );
    for what in ["buffers", "errors"] {
        ensure!(
            with.answer[what] == without.answer[what],
            "with the plugin, {what} are {}, without {}",
            with.answer[what],
            without.answer[what]
        );
    }
    ctx.state(&(format!("{:?}", with.tree), with.answer["buffers"].to_string()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// VS Code

struct Extension {
    process: Process,
    input: std::process::ChildStdin,
    output: BufReader<std::process::ChildStdout>,
}

impl Extension {
    fn start(dir: &Path) -> Self {
        let mut c = Command::new("timeout");
        c.args(["-k", "1", "60", "node"])
            .arg(verif_dir().join("editors/vscode.js"))
            .arg(std::env::var("MC_EXTENSION").unwrap_or_default())
            .current_dir(dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped());
        let mut process = Process::start(c, &dir.join("log"));
        let input = process.child.stdin.take().unwrap();
        let output = BufReader::new(process.child.stdout.take().unwrap());
        Extension {
            process,
            input,
            output,
        }
    }

    fn run(&mut self, command: Value) -> Res<Value> {
        let mut line = String::new();
        if writeln!(self.input, "{command}").is_err() || !self.output.read_line(&mut line).is_ok_and(|n| n > 0) {
            fail!("the extension stopped on {command}: {}", self.process.said());
        }
        serde_json::from_str(&line).map_err(|e| Violation::new(format!("{e}: {line}")))
    }
}

fn in_vscode(ctx: &mut Ctx, depth: usize) -> Res {
    let markers: Vec<Marker> = LEVELS.iter().map(|_| ctx.pick(&[Marker::None, Marker::Directory])).collect();
    let level = ctx.choose(3);
    let at_start = ctx.flip();
    let shared = is_shared(&markers, level);
    // The daemon has answered or not.
    let answered = ctx.flip();
    let dir = ctx.fresh_dir();
    let root = dir.join("root");
    arrange(&root, &markers);
    let before = tree(&root);
    let path = root.join(LEVELS[level]).join("old");
    let mut extension = Extension::start(&dir);
    let document = json!({"path": path, "text": "text\n"});
    let mut did = vec![];
    let mut did_now = |ctx: &mut Ctx, answer: Value| -> Res<Vec<Value>> {
        ctx.step();
        let new = answer["did"].as_array().cloned().unwrap_or_default();
        did.extend(new.iter().cloned());
        if !shared {
            ensure!(
                answer["saved"].as_array().is_none_or(|s| s.is_empty()),
                "a document that is not shared was saved"
            );
            ensure!(
                !new.iter().any(|d| d["method"] == "edit"),
                "an edit of a document that is not shared was sent: {new:?}"
            );
        }
        Ok(new)
    };
    let mut new = vec![];
    if at_start {
        let a = extension.run(json!({"what": "start", "documents": [document]}))?;
        new.extend(did_now(ctx, a)?);
    } else {
        let a = extension.run(json!({"what": "start", "documents": []}))?;
        did_now(ctx, a)?;
        let mut open = document;
        open["what"] = json!("open");
        let a = extension.run(open)?;
        new.extend(did_now(ctx, a)?);
    }
    let opens: Vec<Value> = new.into_iter().filter(|d| d["method"] == "open").collect();
    if shared {
        ensure!(
            opens.len() == 1 && opens[0]["params"]["uri"] == json!(format!("file://{}", path.display())),
            "a shared document was not opened: {opens:?}"
        );
    }
    if answered {
        for o in &opens {
            let a = extension.run(json!({"what": "answer", "id": o["id"], "error": !shared, "value": "success"}))?;
            did_now(ctx, a)?;
        }
    }
    let mut text = "text\n".to_string();
    let mut open = true;
    for _ in 0..depth {
        let what = ctx.pick(&["type", "select", "empty", "close"]);
        if !open {
            break;
        }
        note!(ctx, "{what}");
        let a = match what {
            "type" => {
                text.insert(0, 'x');
                let a = extension.run(json!({"what": "change", "path": path, "text": text, "changes": [{"range": [[0, 0], [0, 0]], "text": "x"}]}))?;
                let new = did_now(ctx, a)?;
                if shared {
                    ensure!(new.iter().any(|d| d["method"] == "edit"), "an edit of a shared document was not sent: {new:?}");
                }
                continue;
            }
            "empty" => extension.run(json!({"what": "change", "path": path, "text": text, "changes": []}))?,
            "select" => extension.run(json!({"what": "select", "path": path, "selections": [[[0, 0], [0, 1]]]}))?,
            _ => {
                open = false;
                extension.run(json!({"what": "close", "path": path}))?
            }
        };
        did_now(ctx, a)?;
    }
    ensure!(tree(&root) == before, "the directory has changed");
    ctx.outcome(if shared { "shared" } else { "not shared" });
    ctx.state(&(markers, level, text));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// The program

fn daemon(ctx: &mut Ctx) -> Res {
    let marker = ctx.pick(&[Marker::None, Marker::Directory, Marker::File, Marker::Dangling]);
    let around = ctx.pick(&[[Marker::None; 2], [Marker::Directory, Marker::None], [Marker::None, Marker::Directory]]);
    let how = ctx.pick(&["absolute", "relative", "current directory", "dot", "link", "slash", "above"]);
    let init = ctx.flip();
    let joins = ctx.flip();
    note!(ctx, "{marker:?} around {around:?}, {how}, init={init}, joins={joins}");
    patiently(ctx, |ctx| {
        let dir = ctx.fresh_dir();
        let root = dir.join("root");
        arrange(&root, &[around[0], marker, around[1]]);
        let project = root.join("a");
        std::os::unix::fs::symlink("a", root.join("link")).unwrap();
        let run = run_dir(&dir);
        let before = tree(&root);
        let port = fresh_port();
        let mut c = command(&run);
        c.arg("daemon").arg("--port").arg(port.to_string());
        if init {
            c.arg("--init");
        }
        if joins {
            // Nobody is there.
            c.arg("--peer").arg("/ip4/127.0.0.1/tcp/9");
        }
        match how {
            "absolute" => c.arg(&project),
            "relative" => c.current_dir(&root).arg("a"),
            "current directory" => c.current_dir(&project),
            "dot" => c.current_dir(&project).arg("."),
            "link" => c.arg(root.join("link")),
            "slash" => c.arg(format!("{}/", project.display())),
            _ => c.current_dir(project.join("b")).arg(".."),
        };
        let mut p = Process::start(c, &dir.join("log"));
        ctx.step();
        if marker == Marker::Directory {
            listening(&mut p, port)?;
            let came = wait_until(PATIENCE, || run.join("ethersync").exists().then_some(()));
            ensure!(came.is_some(), "the daemon has no socket: {}", p.said());
            ctx.outcome("started");
        } else {
            let ended = wait_until(PATIENCE, || {
                if p.ports().contains(&port) || run.join("ethersync").exists() {
                    return Some(false);
                }
                p.ended().map(|_| true)
            });
            ensure!(ended == Some(true), "the daemon started in a directory that is not marked: {}", p.said());
            ensure!(!run.join("ethersync").exists(), "there is a socket");
            let after = tree(&root);
            ensure!(after == before, "the directory was {before:?} and is {after:?}");
            ctx.outcome("refused");
        }
        Ok(())
    })
}

fn c28(t: Tier) -> Vec<Scenario> {
    let n = t.pick(2, 3);
    vec![
        scenario(
            "neovim",
            "three nested directories, each with a directory, a file or nothing named '.ethersync'; existing and new files in each of them, opened in three ways; two of typing, writing, moving, closing, opening another file",
            move |ctx| {
                in_neovim(ctx, &[Marker::None, Marker::Directory], &["type", "write", "wipe", "other", "move"], n)
            },
        ),
        scenario(
            "neovim-markers",
            "the same with every kind of '.ethersync' and one operation",
            |ctx| {
                in_neovim(
                    ctx,
                    &[Marker::None, Marker::Directory, Marker::File, Marker::Dangling],
                    &["type", "reload"],
                    1,
                )
            },
        ),
        scenario(
            "vscode",
            format!("three nested directories, each marked or not; a document in one of them, opened before or after the extension starts, with or without an answer of the daemon, and {} of typing, selecting, saving and closing", n + 1),
            move |ctx| in_vscode(ctx, n + 1),
        ),
        scenario(
            "daemon",
            "a directory with a directory, a file, a dangling link or nothing named '.ethersync', with or without marked directories around it; named in seven ways, with and without --init and --peer",
            daemon,
        )
        .waiting(24),
    ]
}
