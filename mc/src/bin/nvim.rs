//! C22 and C25: the Neovim plugin. Each worker runs a Neovim with the plugin of the current tree; the
//! connection to the daemon is replaced by a recorder (editors/nvim.lua).

use ethersync::ot::OTServer;
use ethersync::types::{
    EditorTextDelta, EditorTextOp, Position, Range, RevisionedEditorTextDelta, TextDelta, TextOp,
};
use mc::text::{self, Edit};
use mc::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc;
use std::time::Duration;

const PATIENCE: Duration = Duration::from_secs(60);

fn main() {
    let o = parse_args();
    let scenarios = match o.property.as_str() {
        "C22" => c22(o.tier),
        "C25" => c25(o.tier),
        _ => engine_error(&format!("unknown property {}", o.property)),
    };
    run_check(
        &o,
        "model_checking",
        &[
            "Neovim of the sandbox; its line differences (vim.lsp.sync) are part of what is checked",
            "buffers with unix line endings",
        ],
        scenarios,
    );
}

// ------------------------------------------------------------------ Neovim

struct Neovim {
    child: Child,
    commands: std::fs::File,
    answers: mpsc::Receiver<String>,
    dir: PathBuf,
}

static COUNT: AtomicUsize = AtomicUsize::new(0);

fn plugin_dir() -> String {
    std::env::var("MC_VIM_PLUGIN").unwrap_or_else(|_| "/repo/vim-plugin".into())
}

impl Neovim {
    fn start() -> Self {
        let dir = scratch_root().join(format!("nvim{}", COUNT.fetch_add(1, Ordering::Relaxed)));
        let project = dir.join("project");
        std::fs::create_dir_all(project.join(".ethersync")).unwrap();
        let pipes = [dir.join("commands"), dir.join("answers")];
        for p in &pipes {
            let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
            assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0);
        }
        let child = Command::new("nvim")
            .args(["--clean", "--headless", "-n", "-i", "NONE", "--cmd"])
            .arg(format!("set rtp^={}", plugin_dir()))
            .arg("-c")
            .arg(format!("luafile {}", verif_dir().join("editors/nvim.lua").display()))
            .env("MC_COMMANDS", &pipes[0])
            .env("MC_ANSWERS", &pipes[1])
            .env("HOME", &dir)
            .env("XDG_CONFIG_HOME", &dir)
            .env("XDG_DATA_HOME", &dir)
            .env("XDG_STATE_HOME", &dir)
            .env("XDG_CACHE_HOME", &dir)
            .current_dir(&project)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| engine_error(&format!("cannot start nvim: {e}")));
        // Opening blocks until Neovim has opened its side; without it, until the timeout of the
        // first command.
        let commands = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .open(&pipes[0])
            .unwrap();
        let answers = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .open(&pipes[1])
            .unwrap();
        let (send, receive) = mpsc::channel();
        std::thread::spawn(move || {
            for line in BufReader::new(answers).lines() {
                let Ok(line) = line else { break };
                if send.send(line).is_err() {
                    break;
                }
            }
        });
        Neovim {
            child,
            commands,
            answers: receive,
            dir,
        }
    }

    fn project(&self) -> PathBuf {
        self.dir.join("project")
    }
}

impl Drop for Neovim {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static NEOVIM: RefCell<Option<Neovim>> = const { RefCell::new(None) };
}

#[derive(Debug)]
struct Buffer {
    content: String,
}

struct Answer {
    value: Value,
}

impl Answer {
    fn buffer(&self, path: &Path) -> Option<Buffer> {
        let b = self.value["buffers"].get(path.to_str()?)?;
        let lines: Vec<&str> = b["lines"].as_array()?.iter().filter_map(|l| l.as_str()).collect();
        let mut content = lines.join("\n");
        if b["eol"].as_bool()? {
            content.push('\n');
        }
        Some(Buffer { content })
    }

    fn sent(&self, method: &str) -> Vec<&Value> {
        self.value["sent"]
            .as_array()
            .map(|a| a.iter().filter(|m| m["method"] == method).map(|m| &m["params"]).collect())
            .unwrap_or_default()
    }

    fn error(&self) -> &str {
        self.value["error"].as_str().unwrap_or("")
    }
}

/// Executes one command in this worker's Neovim.
fn run(command: Value) -> Res<Answer> {
    NEOVIM.with(|n| {
        let mut n = n.borrow_mut();
        let nvim = n.get_or_insert_with(Neovim::start);
        let sent = writeln!(nvim.commands, "{command}");
        if sent.is_err() {
            *n = None;
            fail!("Neovim stopped");
        }
        // The answer is awaited for long, but not if Neovim is gone.
        let mut waited = Duration::ZERO;
        loop {
            match nvim.answers.recv_timeout(Duration::from_millis(200)) {
                Ok(line) => {
                    return Ok(Answer {
                        value: serde_json::from_str(&line).map_err(|e| Violation::new(format!("{e}: {line}")))?,
                    })
                }
                Err(_) => {
                    waited += Duration::from_millis(200);
                    let gone = !matches!(nvim.child.try_wait(), Ok(None));
                    if gone || waited > PATIENCE {
                        *n = None;
                        fail!("Neovim {} on {command}", if gone { "stopped" } else { "hangs" });
                    }
                }
            }
        }
    })
}

/// Starts with no buffers.
fn reset() -> Res<PathBuf> {
    run(json!({"what": "wipe"}))?;
    run(json!({"what": "opening", "mode": "ok"}))?;
    Ok(NEOVIM.with(|n| n.borrow().as_ref().unwrap().project()))
}

fn uri(path: &Path) -> String {
    format!("file://{}", path.display())
}

// ------------------------------------------------------------------ meaning

fn edits_of(delta: &Value) -> Res<Vec<Edit>> {
    let position = |p: &Value| -> Option<(usize, usize)> {
        Some((p["line"].as_u64()? as usize, p["character"].as_u64()? as usize))
    };
    let Some(list) = delta.as_array() else {
        fail!("not a delta: {delta}");
    };
    list.iter()
        .map(|op| {
            let edit = (|| {
                Some(Edit {
                    start: position(&op["range"]["start"])?,
                    end: position(&op["range"]["end"])?,
                    text: op["replacement"].as_str()?.to_string(),
                })
            })();
            edit.ok_or_else(|| Violation::new(format!("not an operation: {op}")))
        })
        .collect()
}

fn delta_of(edits: &[Edit]) -> Value {
    Value::Array(
        edits
            .iter()
            .map(|e| {
                json!({
                    "range": {
                        "start": {"line": e.start.0, "character": e.start.1},
                        "end": {"line": e.end.0, "character": e.end.1},
                    },
                    "replacement": e.text,
                })
            })
            .collect(),
    )
}

/// What is known about a shared file: its content in the editor, and the two revisions.
struct Shared {
    path: PathBuf,
    content: String,
    daemon_revision: u64,
    editor_revision: u64,
}

impl Shared {
    fn open(path: PathBuf, content: &str) -> Res<Shared> {
        std::fs::write(&path, content).unwrap();
        let a = run(json!({"what": "edit", "path": path}))?;
        let mut shared = Shared {
            path,
            content: String::new(),
            daemon_revision: 0,
            editor_revision: 0,
        };
        ensure!(
            a.sent("open").len() == 1 && a.sent("open")[0]["uri"] == json!(uri(&shared.path)),
            "opening sent {}",
            a.value["sent"]
        );
        let Some(b) = a.buffer(&shared.path) else {
            fail!("no buffer after opening: {}", a.value);
        };
        shared.content = b.content;
        Ok(shared)
    }

    fn now(&self, a: &Answer) -> Res<String> {
        match a.buffer(&self.path) {
            Some(b) => Ok(b.content),
            None => fail!("the buffer is gone: {}", a.value),
        }
    }

    /// The edits in `a` about this file, each checked for its revision.
    fn reported(&mut self, a: &Answer) -> Res<Vec<Vec<Edit>>> {
        let mut all = vec![];
        for m in a.sent("edit") {
            if m["uri"] != json!(uri(&self.path)) {
                continue;
            }
            ensure!(
                m["revision"] == json!(self.daemon_revision),
                "an edit was sent for revision {}, but {} edits of the daemon were applied",
                m["revision"],
                self.daemon_revision
            );
            self.editor_revision += 1;
            all.push(edits_of(&m["delta"])?);
        }
        Ok(all)
    }

    /// The user did something: what was sent must explain the change.
    fn user_did(&mut self, ctx: &mut Ctx, what: &str, a: &Answer) -> Res {
        let after = self.now(a)?;
        let mut content = self.content.clone();
        let reported = self.reported(a)?;
        note!(ctx, "{what} on {:?} gives {after:?}; sent {reported:?} {}", self.content, a.error());
        for edits in &reported {
            content = match text::apply(&content, edits) {
                Ok(c) => c,
                Err(e) => fail!(
                    "{what} on {:?} gave {after:?}, but the plugin reported {reported:?}: {e}",
                    self.content
                ),
            };
        }
        ensure!(
            content == after,
            "{what} on {:?} gave {after:?}, but the plugin reported {reported:?}, which gives {content:?}",
            self.content
        );
        self.content = after;
        ctx.step();
        ctx.outcome(match reported.len() {
            0 => "nothing reported",
            1 => "one edit reported",
            _ => "several edits reported",
        });
        Ok(())
    }

    /// An edit of the daemon arrived, for the given revision of the editor.
    fn daemon_sent(&mut self, ctx: &mut Ctx, edits: &[Edit], revision: u64, a: &Answer) -> Res {
        let after = self.now(a)?;
        let expected = if revision == self.editor_revision {
            self.daemon_revision += 1;
            text::apply(&self.content, edits).map_err(Violation::new)?
        } else {
            self.content.clone()
        };
        note!(ctx, "edit {edits:?} for revision {revision} (now {}) on {:?} gives {after:?} {}", self.editor_revision, self.content, a.error());
        ensure!(
            after == expected,
            "edit {edits:?} of the daemon for revision {revision} (now {}) turned {:?} into {after:?} instead of {expected:?}",
            self.editor_revision,
            self.content
        );
        let reported = a.sent("edit");
        ensure!(
            reported.is_empty(),
            "edit {edits:?} of the daemon on {:?} made the plugin send {reported:?}",
            self.content
        );
        self.content = after;
        ctx.step();
        ctx.outcome(if revision == self.editor_revision { "edit applied" } else { "edit refused" });
        Ok(())
    }

    fn message(&self, edits: &[Edit], revision: u64) -> Value {
        json!({"method": "edit", "params": {
            "uri": uri(&self.path), "delta": delta_of(edits), "revision": revision,
        }})
    }
}

// ------------------------------------------------------------------ scenarios

/// Commands that work anywhere. None of them reports an error, as Neovim then pauses.
const COMMANDS: &[&str] = &[
    "x", "X", "D", "dd", "cc<Esc>", "S<Esc>", "J", "gJ", "~", "rz", "r<CR>", "iz<Esc>", "az<Esc>",
    "Iz<Esc>", "Az<Esc>", "oz<Esc>", "Oz<Esc>", "o<Esc>", "O<Esc>", "i<CR><Esc>", "a<CR><Esc>",
    "iz<CR>z<Esc>", "i<BS><Esc>", "a<BS><Esc>", "i<Del><Esc>", "a<Del><Esc>", "i<C-w><Esc>",
    "i<C-u><Esc>", "yyp", "yyP", "yyjp", "ddp", "ddP", "ylp", "2dd", "3dd", "dG", "dgg", "dj",
    "dk", "dw", "db", "cwz<Esc>", "xp", "vd", "vjd", "Vd", "Vjd", "VGd", "vGd", "vgg0d", "VggJ",
    "ggVGd", "ggVGcz<Esc>", "ggVGyGp", "ggVGyggP", "vjcz<Esc>", "vjrz", "Vjp", "Vp", "vp", "VGp", "yyVp", "yyvp", "yyVGp",
    "yyvjp", "yylvp", "yy$vp", "yyGvp", "vjyVp", "vjyvp", "ylVp", "yl<C-v>jp", "<C-v>jyp", "<C-v>jyP", "<C-v>jyVp",
    "<C-v>jyvp", "<C-v>jyGp", "3p", "2P", "yygp", "yygP", "yy]p", "yy3p", "gpp", "xu", "ddu", "dduu", "ddu<C-r>",
    "oz<Esc>u", "U", "xU", ".", "2.", "x.", "dd.", "oz<Esc>.", "<C-a>", "3<C-x>", "vGg<C-a>", "!!cat<CR>", "!Gsort<CR>",
    "gqG", "gwG", "=G", "gugg", "g??", "gUG", "vu", "vGU", "v~", "vGJ", "vGgJ", "vrz", "vGrz", "VR<Esc>", "vcz<Esc>",
    "vGcz<CR>z<Esc>", "Vcz<Esc>", "<C-v>GAz<Esc>", "<C-v>G$Az<Esc>", "<C-v>Gcz<Esc>", "<C-v>Grz", "<C-v>G~", "<C-v>Gx",
    "<C-v>G><Esc>", "R<BS><Esc>", "Rz<BS><Esc>", "gRz<Esc>", "2Rz<Esc>", "i<C-o>dd<Esc>", "i<C-o>D<Esc>", "i<C-o>Oz<Esc>",
    "i<C-e><Esc>", "i<C-y><Esc>", "i<C-t><Esc>", "i<C-d><Esc>", "iz<C-w><Esc>", "iz<C-u><Esc>", "i<C-r>\"<Esc>", "a<C-r>=\"b\\nb\"<CR><Esc>",
    "iz<C-v>u000a<Esc>", "i<C-k>a:<Esc>", "iz<Esc>gi<CR><Esc>", "qzdd<Esc>q@z", "qziz<CR><Esc>q2@z", "maGd'a", "maGd`a", "dgg.", "d0", "d$", "daw",
    "dap", "dip", "yipP", "cipz<Esc>", "caw<Esc>", "ct <Esc>", "dtb", "df ", "d/a<CR>", "d?a<CR>", "d%", "gvd", "vGygvd", "<lt>G", ">G",
    ":silent! retab!<CR>", ":silent! %><CR>", ":silent! %le 2<CR>", ":silent! %ri 9<CR>", ":silent! ce 9<CR>", ":silent! %!sed s/^/z/<CR>",
    ":silent! $!echo z<CR>", ":silent! r !echo z<CR>", ":silent! 0r !printf 'z\\ny'<CR>", ":silent! r !true<CR>", ":silent! %norm dd<CR>",
    ":silent! %norm! I#<CR>", ":silent! %norm! o<CR>", ":silent! g/^/norm! ddp<CR>", ":silent! g/^/d|put<CR>", ":silent! g/^/t0<CR>",
    ":silent! g/^/-1j<CR>", ":silent! g/^/pu _<CR>", ":silent! %s/\\n/\\r\\r/e<CR>", ":silent! %s/.*/&\\r&/e<CR>", ":silent! 1s/^/\\r\\r/e<CR>", ":silent! $s/$/\\r/e<CR>",
    ":silent! %s/a\\n/b/e<CR>", ":silent! 1,$co$<CR>", ":silent! 1,$co0<CR>", ":silent! 1co$<CR>", ":silent! 1m$<CR>", ":silent! $m0<CR>",
    ":silent! $t0<CR>", ":silent! 1j<CR>", ":silent! 1j!<CR>", ":silent! %j!<CR>", ":silent! pu!<CR>", ":silent! pu<CR>", ":silent! 0pu<CR>",
    ":silent! $pu<CR>", ":silent! call setline('$','')<CR>", ":silent! call deletebufline('%','$')<CR>", ":silent! call append(1,['',''])<CR>",
    ":silent! call nvim_buf_set_text(0,0,0,0,0,['z',''])<CR>", ":silent! call nvim_put(['z','y'],'c',v:true,v:true)<CR>",
    ":silent! call nvim_put(['z','y'],'l',v:false,v:true)<CR>", ":silent! call nvim_put(['z','y'],'b',v:true,v:true)<CR>",
    ":silent! call nvim_buf_set_lines(0,0,0,v:true,[''])<CR>", ":silent! call nvim_buf_set_lines(0,0,-1,v:true,[])<CR>",
    ":silent! call nvim_paste(\"z\\ny\",v:true,-1)<CR>", ":silent! undo 0<CR>", "xx:silent! undo 0<CR>", "xoz<Esc>:silent! undo 0<CR>", "x:silent! earlier 1f<CR>", "xp:silent! undo 0<CR>",
    ":silent! %d_<CR>", ":silent! norm! ggdG<CR>", "<C-v>jd",
    "<C-v>jIz<Esc>", "<C-v>jAz<Esc>", "<C-v>jcz<Esc>", "<C-v>Gd", "gUU", "g~~", ">>", "<lt><lt>",
    "==", "gqq", "Rz<Esc>", "Rzz<CR><Esc>", "3iz<Esc>", "2oz<Esc>", "i€🥕<Esc>", "aä<Esc>",
    ":silent! m0<CR>", ":silent! m$<CR>", ":silent! m+1<CR>", ":silent! t.<CR>", ":silent! t$<CR>",
    ":silent! t0<CR>", ":silent! d<CR>", ":silent! %d<CR>", ":silent! $d<CR>", ":silent! 1d<CR>",
    ":silent! %j<CR>", ":silent! %sort<CR>", ":silent! %sort!<CR>", ":silent! g/a/d<CR>",
    ":silent! v/a/d<CR>", ":silent! g/^/m0<CR>", ":silent! g/a/t.<CR>", ":silent! %s/a/zz/ge<CR>",
    ":silent! %s/a//ge<CR>", ":silent! %s/$/z/e<CR>", ":silent! %s/\\n//e<CR>", ":silent! %s/^/\\r/e<CR>",
    ":silent! %s/a/\\r/ge<CR>", ":silent! %normal Az<CR>", ":silent! put ='z'<CR>",
    ":silent! put! ='z'<CR>", ":silent! put =['z','','y']<CR>", ":silent! $put =['z','']<CR>",
    ":silent! call setline(1,'q')<CR>", ":silent! call append('$','q')<CR>",
    ":silent! call append(0,['q',''])<CR>", ":silent! %!cat<CR>", ":silent! %!tac<CR>",
    ":silent! call setline(1,['q','a'])<CR>", ":silent! call deletebufline('%',1,'$')<CR>",
    ":silent! call nvim_buf_set_lines(0,0,-1,v:true,['q'])<CR>",
    ":silent! call nvim_buf_set_lines(0,0,-1,v:true,['a','q','a'])<CR>",
    ":silent! call nvim_buf_set_lines(0,-1,-1,v:true,['a'])<CR>",
];

/// Nothing has been deleted or copied yet, so there is nothing to insert.
fn empty_register(ctx: &mut Ctx) -> Res {
    let content = ctx.pick(&contents(&["", "a", "äb"], 2));
    let keys = ctx.pick(&["p", "P", "Vp", "vp", "vjp", "Vjp", "VGp", "<C-v>jp", "jVp", "jvp", ".", "u"]);
    let dir = reset()?;
    run(json!({"what": "forget"}))?;
    let mut f = Shared::open(dir.join("f"), &content)?;
    // Without a pause after the message.
    let silent = format!(":silent! exe \"norm! {}\"<CR>", keys.replace('<', "\\<lt>"));
    let a = run(json!({"what": "keys", "keys": silent}))?;
    f.user_did(ctx, keys, &a)
}

/// Commands worth combining with others.
const FEW_COMMANDS: &[&str] = &[
    "x", "dd", "D", "J", "iz<Esc>", "oz<Esc>", "O<Esc>", "i<CR><Esc>", "i<BS><Esc>", "yyp", "ddp", "dG",
    "Vjd", "vjd", "u", "<C-r>", ".", "<C-v>jIz<Esc>", ":silent! %d<CR>", ":silent! m0<CR>",
    ":silent! %s/a/z\\rz/ge<CR>", ":silent! edit!<CR>", ":silent! write<CR>",
];

/// The texts with up to `max` lines out of `lines`, each with and without a line feed at the end.
fn contents(lines: &[&str], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last: Vec<String> = vec![String::new()];
    for n in 0..max {
        let mut next = vec![];
        for t in &last {
            for l in lines {
                next.push(if n == 0 { l.to_string() } else { format!("{t}\n{l}") });
            }
        }
        for t in &next {
            all.push(t.clone());
            all.push(format!("{t}\n"));
        }
        last = next;
    }
    all.sort();
    all.dedup();
    all
}

/// Positions of the cursor: the first and last character of every line.
fn cursors(content: &str) -> Vec<(usize, usize)> {
    let body = content.strip_suffix('\n').unwrap_or(content);
    let mut all = vec![];
    for (i, line) in body.split('\n').enumerate() {
        all.push((i + 1, 0));
        if let Some((at, _)) = line.char_indices().last() {
            if at > 0 {
                all.push((i + 1, at));
            }
        }
    }
    all
}

fn place(ctx: &mut Ctx, content: &str) -> Res {
    let (row, column) = ctx.pick(&cursors(content));
    note!(ctx, "cursor at line {row}, byte {column}");
    run(json!({"what": "cursor", "row": row, "column": column}))?;
    Ok(())
}

/// One command anywhere in a small text.
fn single_command(ctx: &mut Ctx, lines: &[&str], max: usize, commands: &[&str]) -> Res {
    let content = ctx.pick(&contents(lines, max));
    let keys = ctx.pick(commands);
    let file = reset()?.join("f");
    let mut f = Shared::open(file, &content)?;
    ensure!(f.content == content, "opening {content:?} shows {:?}", f.content);
    place(ctx, &content)?;
    let a = run(json!({"what": "keys", "keys": keys}))?;
    f.user_did(ctx, keys, &a)?;
    ctx.state(&(&content, &f.content));
    // Nothing is left that would be reported later.
    let a = run(json!({"what": "keys", "keys": "iw<Esc>"}))?;
    f.user_did(ctx, "iw<Esc>", &a)?;
    let a = run(json!({"what": "keys", "keys": "u"}))?;
    f.user_did(ctx, "u", &a)?;
    Ok(())
}

/// Several commands in a row.
fn commands(ctx: &mut Ctx, initial: &[&str], keys: &[&str], depth: usize) -> Res {
    let content = ctx.pick(initial);
    let file = reset()?.join("f");
    let mut f = Shared::open(file, content)?;
    place(ctx, content)?;
    for _ in 0..depth {
        let keys = ctx.pick(keys);
        if keys.contains("edit!") {
            // The file is closed and opened again, with the content on disk.
            let a = run(json!({"what": "keys", "keys": keys}))?;
            f.content = f.now(&a)?;
            f.daemon_revision = 0;
            f.editor_revision = 0;
            ensure!(
                a.sent("close").len() == 1 && a.sent("open").len() == 1 && a.sent("edit").is_empty(),
                "reloading sent {}",
                a.value["sent"]
            );
            note!(ctx, "reloaded, now {:?}", f.content);
            continue;
        }
        let a = run(json!({"what": "keys", "keys": keys}))?;
        f.user_did(ctx, keys, &a)?;
        ctx.state(&f.content);
    }
    Ok(())
}

/// All single-range edits of a text.
fn ranges(content: &str) -> Vec<(usize, usize)> {
    let n = text::len(content);
    (0..=n).flat_map(|s| (s..=n).map(move |t| (s, t))).collect()
}

/// One remote edit, every range, several replacements.
fn single_remote(ctx: &mut Ctx, lines: &[&str], max: usize, replacements: &[&str]) -> Res {
    let content = ctx.pick(&contents(lines, max));
    let (s, t) = ctx.pick(&ranges(&content));
    let replacement = ctx.pick(replacements);
    let current = !ctx.flip();
    let other_is_shown = ctx.flip();
    let dir = reset()?;
    let mut f = Shared::open(dir.join("f"), &content)?;
    if other_is_shown {
        run(json!({"what": "keys", "keys": ":silent! set hidden<CR>"}))?;
        let other = Shared::open(dir.join("g"), "g\n")?;
        let edit = text::edit_at(&content, s, t - s, replacement);
        let revision = if current { 0 } else { 1 };
        let a = run(json!({"what": "remote", "message": f.message(&[edit.clone()], revision)}))?;
        f.daemon_sent(ctx, &[edit], revision, &a)?;
        ensure!(
            other.now(&a)? == "g\n",
            "an edit of another file changed this one to {:?}",
            other.now(&a)?
        );
        return Ok(());
    }
    let edit = text::edit_at(&content, s, t - s, replacement);
    let revision = if current { 0 } else { 1 };
    let a = run(json!({"what": "remote", "message": f.message(&[edit.clone()], revision)}))?;
    f.daemon_sent(ctx, &[edit], revision, &a)?;
    ctx.state(&f.content);
    // The next change of the user is reported relative to the new content.
    for keys in ["Gow<Esc>", "u", "dd"] {
        let a = run(json!({"what": "keys", "keys": keys}))?;
        f.user_did(ctx, keys, &a)?;
    }
    Ok(())
}

/// A remote edit with two operations.
fn double_remote(ctx: &mut Ctx, initial: &[&str], replacements: &[&str]) -> Res {
    let content = ctx.pick(initial);
    let all = ranges(content);
    let (s1, t1) = ctx.pick(&all);
    let later: Vec<_> = all.iter().filter(|r| r.0 >= t1 && (r.0 > s1 || t1 > s1)).cloned().collect();
    if later.is_empty() {
        return Ok(());
    }
    let (s2, t2) = ctx.pick(&later);
    let (r1, r2) = (ctx.pick(replacements), ctx.pick(replacements));
    if (t1 == s1 && r1.is_empty()) || (t2 == s2 && r2.is_empty()) {
        return Ok(());
    }
    let mut f = Shared::open(reset()?.join("f"), content)?;
    let edits = [text::edit_at(content, s1, t1 - s1, r1), text::edit_at(content, s2, t2 - s2, r2)];
    let a = run(json!({"what": "remote", "message": f.message(&edits, 0)}))?;
    f.daemon_sent(ctx, &edits, 0, &a)?;
    ctx.state(&f.content);
    Ok(())
}

fn text_delta(content: &str, s: usize, len: usize, t: &str) -> TextDelta {
    let _ = content;
    let mut delta = TextDelta::default();
    delta.retain(s);
    delta.delete(len);
    delta.insert(t);
    delta
}

fn apply_text_delta(content: &str, delta: &TextDelta) -> Result<String, String> {
    let chars: Vec<char> = content.chars().collect();
    let mut at = 0;
    let mut out = String::new();
    for op in &delta.0 {
        match op {
            TextOp::Retain(n) => {
                out.extend(chars.get(at..at + n).ok_or("retains beyond the end")?);
                at += n;
            }
            TextOp::Insert(s) => out.push_str(s),
            TextOp::Delete(n) => at += n,
        }
    }
    out.extend(chars.get(at..).ok_or("deletes beyond the end")?);
    Ok(out)
}

fn ed_delta(edits: &[Edit]) -> EditorTextDelta {
    let position = |p: (usize, usize)| Position {
        line: p.0,
        character: p.1,
    };
    EditorTextDelta(
        edits
            .iter()
            .map(|e| EditorTextOp {
                range: Range {
                    start: position(e.start),
                    end: position(e.end),
                },
                replacement: e.text.clone(),
            })
            .collect(),
    )
}

/// The plugin and the daemon's transformation engine, with messages under way in both directions.
fn with_daemon(ctx: &mut Ctx, initial: &[&str], keys: &[&str], typed: usize, foreign: usize) -> Res {
    let content = ctx.pick(initial);
    let mut f = Shared::open(reset()?.join("f"), content)?;
    place(ctx, content)?;
    let mut server = OTServer::new(content.to_string());
    let mut document = content.to_string();
    let mut to_daemon: VecDeque<RevisionedEditorTextDelta> = VecDeque::new();
    let mut to_editor: VecDeque<RevisionedEditorTextDelta> = VecDeque::new();
    let mut done = (0, 0);
    let mut asleep = vec![];
    loop {
        let mut enabled = vec![];
        if !to_editor.is_empty() {
            enabled.push('y');
        }
        if !to_daemon.is_empty() {
            enabled.push('x');
        }
        if done.0 < typed {
            enabled.push('e');
        }
        if done.1 < foreign {
            enabled.push('d');
        }
        if enabled.is_empty() {
            break;
        }
        let side = |a: &char| matches!(a, 'e' | 'y');
        let Some(action) = ctx.choose_action(&enabled, &mut asleep, |a, b| side(a) != side(b)) else {
            return Ok(());
        };
        ctx.step();
        match action {
            'e' => {
                done.0 += 1;
                let keys = ctx.pick(keys);
                let revision = f.daemon_revision;
                let a = run(json!({"what": "keys", "keys": keys}))?;
                let reported = f.reported(&a)?;
                note!(ctx, "{keys} on {:?} sends {reported:?}", f.content);
                for edits in reported {
                    to_daemon.push_back(RevisionedEditorTextDelta {
                        revision: revision as usize,
                        delta: ed_delta(&edits),
                    });
                }
                f.content = f.now(&a)?;
            }
            'd' => {
                done.1 += 1;
                let n = text::len(&document);
                let mut list = vec![(0, 0, "F"), (n, 0, "F"), (n, 0, "F\n"), (n / 2, 0, "\n")];
                if n > 0 {
                    list.push((n - 1, 1, ""));
                    list.push((0, 1, ""));
                    list.push((0, n, "F"));
                }
                let (s, len, t) = ctx.pick(&list);
                let delta = text_delta(&document, s, len, t);
                note!(ctx, "foreign change {delta:?} on {document:?}");
                document = apply_text_delta(&document, &delta).map_err(Violation::new)?;
                to_editor.push_back(server.apply_crdt_change(&delta));
            }
            'x' => {
                let m = to_daemon.pop_front().unwrap();
                note!(ctx, "daemon receives {m:?}");
                let (delta, again) = server.apply_editor_operation(m);
                document = apply_text_delta(&document, &delta)
                    .map_err(|e| Violation::new(format!("{delta:?} on {document:?} {e}")))?;
                to_editor.extend(again);
            }
            _ => {
                let m = to_editor.pop_front().unwrap();
                let edits: Vec<Edit> = m
                    .delta
                    .0
                    .iter()
                    .map(|o| Edit {
                        start: (o.range.start.line, o.range.start.character),
                        end: (o.range.end.line, o.range.end.character),
                        text: o.replacement.clone(),
                    })
                    .collect();
                let message = f.message(&edits, m.revision as u64);
                let a = run(json!({"what": "remote", "message": message}))?;
                if m.revision as u64 == f.editor_revision {
                    f.daemon_revision += 1;
                }
                f.content = f.now(&a)?;
                note!(ctx, "editor receives {edits:?} for {}, now {:?}", m.revision, f.content);
                ensure!(a.sent("edit").is_empty(), "an edit of the daemon was sent back");
            }
        }
        ctx.state(&(&f.content, &document, to_daemon.len(), to_editor.len()));
    }
    ensure!(
        f.content == document,
        "the buffer has {:?}, but the document is {document:?}",
        f.content
    );
    Ok(())
}

/// A file is opened; before and after the daemon's answer, the user edits, looks at something
/// else, or closes it.
fn opening(ctx: &mut Ctx, initial: &[&str], depth: usize) -> Res {
    let content = ctx.pick(initial);
    let dir = reset()?;
    let refused = ctx.flip();
    std::fs::write(dir.join("f"), content).unwrap();
    std::fs::write(dir.join("g"), "g\n").unwrap();
    run(json!({"what": "keys", "keys": ":silent! set hidden<CR>"}))?;
    run(json!({"what": "opening", "mode": if refused { "refuse later" } else { "later" }}))?;
    let mut f = Shared::open(dir.join("f"), content)?;
    let answered_after = ctx.choose(depth + 1);
    let mut closed = false;
    let mut shown = 'f';
    for i in 0..=depth {
        if i == answered_after {
            let a = run(json!({"what": "opened"}))?;
            note!(ctx, "the daemon {} opening f", if refused { "refuses" } else { "accepts" });
            ensure!(a.sent("edit").is_empty(), "the answer made the plugin send {}", a.value["sent"]);
            run(json!({"what": "opening", "mode": "ok"}))?;
            continue;
        }
        let known = i > answered_after;
        match ctx.choose(4) {
            0 => {
                let a = run(json!({"what": "keys", "keys": "ox<Esc>"}))?;
                if shown == 'f' && !(known && refused) {
                    f.user_did(ctx, "ox<Esc>", &a)?;
                } else if shown == 'f' {
                    f.content = f.now(&a)?;
                    ensure!(
                        a.sent("edit").is_empty(),
                        "edits of a file that is not shared were sent: {}",
                        a.value["sent"]
                    );
                } else {
                    note!(ctx, "edit in another file sends {}", a.value["sent"]);
                    let wrong: Vec<_> = a
                        .sent("edit")
                        .into_iter()
                        .filter(|m| m["uri"] != json!(uri(&dir.join("outside"))))
                        .collect();
                    ensure!(wrong.is_empty(), "an edit of another file was reported as {wrong:?}");
                }
            }
            1 => {
                // A buffer without a file is shown; it is not shared.
                note!(ctx, "another buffer is shown");
                shown = '-';
                run(json!({"what": "keys", "keys": ":silent! enew!<CR>"}))?;
            }
            2 if !closed => {
                note!(ctx, "f is shown");
                shown = 'f';
                run(json!({"what": "keys", "keys": format!(":silent! buffer {}<CR>", f.path.display())}))?;
            }
            _ if !closed => {
                note!(ctx, "f is closed");
                let a = run(json!({"what": "delete", "path": f.path}))?;
                ensure!(a.sent("edit").is_empty(), "closing sent {}", a.value["sent"]);
                if !(known && refused) {
                    let closing = a.sent("close");
                    ensure!(
                        closing.len() == 1 && closing[0]["uri"] == json!(uri(&f.path)),
                        "closing sent {}",
                        a.value["sent"]
                    );
                }
                closed = true;
                shown = '-';
            }
            _ => (),
        }
        ctx.step();
    }
    if closed || refused {
        return Ok(());
    }
    // The daemon's edits arrive, and so do the user's.
    let edit = text::edit_at(&f.content, 0, 0, "F");
    let a = run(json!({"what": "remote", "message": f.message(&[edit.clone()], f.editor_revision)}))?;
    let revision = f.editor_revision;
    f.daemon_sent(ctx, &[edit], revision, &a)?;
    run(json!({"what": "keys", "keys": format!(":silent! buffer {}<CR>", f.path.display())}))?;
    let a = run(json!({"what": "keys", "keys": "Goy<Esc>"}))?;
    f.user_did(ctx, "Goy<Esc>", &a)
}

/// Edits of the daemon arrive while the user types (F2 stands for the arrival).
fn while_typing(ctx: &mut Ctx, initial: &[&str], keys: &[&str]) -> Res {
    let content = ctx.pick(initial);
    let keys = ctx.pick(keys);
    let (before, after) = keys.split_once("<F2>").unwrap();
    let (s, t) = ctx.pick(&ranges(content));
    let replacement = ctx.pick(&["", "X", "\n", "Y\nX"]);
    let mut f = Shared::open(reset()?.join("f"), content)?;
    place(ctx, content)?;
    // First without the daemon's edit, to learn what the user does until then.
    let edit = text::edit_at(content, s, t - s, replacement);
    let a = run(json!({"what": "keys", "keys": keys, "remote": f.message(&[edit.clone()], 0)}))?;
    let after_content = f.now(&a)?;
    let sent = a.sent("edit");
    note!(ctx, "{before} {edit:?} {after} on {content:?} gives {after_content:?}; sent {sent:?}");
    // What was reported before the edit arrived is for revision 0, the rest for revision 1 if it
    // was applied. It is applied if nothing was reported before.
    let applied = sent.iter().all(|m| m["revision"] == json!(1)) ;
    let mut expected = content.to_string();
    let mut applied_yet = false;
    let mut reported = vec![];
    for m in &sent {
        if m["revision"] == json!(1) && !applied_yet {
            ensure!(applied, "an edit for an outdated revision was applied: sent {sent:?}");
            expected = text::apply(&expected, &[edit.clone()]).map_err(Violation::new)?;
            applied_yet = true;
        }
        let edits = edits_of(&m["delta"])?;
        expected = match text::apply(&expected, &edits) {
            Ok(c) => c,
            Err(e) => fail!("{keys} with {edit:?} on {content:?} gave {after_content:?}, but the plugin reported {sent:?}: {e}"),
        };
        reported.push(edits);
    }
    let plain = text::apply(content, &[edit.clone()]).map_err(Violation::new)?;
    if sent.is_empty() {
        expected = plain;
    }
    ensure!(
        expected == after_content,
        "{keys} with {edit:?} on {content:?} gave {after_content:?}, but the plugin reported {sent:?}, which gives {expected:?}"
    );
    ctx.step();
    ctx.outcome(if applied { "applied while typing" } else { "refused while typing" });
    ctx.state(&after_content);
    Ok(())
}

/// Files with unusual names, and files that do not exist yet.
fn names(ctx: &mut Ctx) -> Res {
    let name = ctx.pick(&["a b", "ä🥕", "a%20b", "a#b", "[x]", "a?b", "a+b", "%", "a\\b", "$HOME", "~", "a'b", "-", "sub/f"]);
    let exists = ctx.flip();
    let dir = reset()?;
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let path = dir.join(name);
    let _ = std::fs::remove_file(&path);
    note!(ctx, "file {name:?}");
    let mut f = if exists {
        Shared::open(path, "a\nb\n")?
    } else {
        let a = run(json!({"what": "edit", "path": path}))?;
        let opened = a.sent("open");
        ensure!(
            opened.len() == 1 && opened[0]["uri"] == json!(uri(&path)),
            "a new file was reported as {opened:?}"
        );
        ensure!(path.is_file(), "a new file does not exist on disk when it is opened");
        Shared { content: String::new(), daemon_revision: 0, editor_revision: 0, path }
    };
    for round in 0..2 {
        let a = run(json!({"what": "keys", "keys": "ox<Esc>"}))?;
        f.user_did(ctx, "ox<Esc>", &a)?;
        let edit = text::edit_at(&f.content, round, 1, "F\n");
        let revision = f.editor_revision;
        let a = run(json!({"what": "remote", "message": f.message(&[edit.clone()], revision)}))?;
        f.daemon_sent(ctx, &[edit], revision, &a)?;
    }
    let a = run(json!({"what": "wipe"}))?;
    let closed = a.sent("close");
    ensure!(
        closed.len() == 1 && closed[0]["uri"] == json!(uri(&f.path)),
        "closing {name:?} sent {}",
        a.value["sent"]
    );
    let _ = std::fs::remove_file(&f.path);
    Ok(())
}

const LINES: &[&str] = &["", "a", "ab", "ä🥕", " a"];
const REPLACEMENTS: &[&str] = &["", "X", "\n", "X\n", "\nX", "🥕", "X\nY", "\n\n", "\r", "X\r\n"];

fn c22(t: Tier) -> Vec<Scenario> {
    vec![
        scenario(
            "one-command",
            format!(
                "texts of up to {} lines out of {LINES:?} with or without a line feed at the end, \
                 cursor on the first or last character of each line, {} commands",
                t.pick(2, 3),
                COMMANDS.len()
            ),
            move |ctx| single_command(ctx, LINES, t.pick(2, 3), COMMANDS),
        ),
        scenario(
            "one-remote-edit",
            format!(
                "texts of up to {} lines, every range, {} replacements, current and outdated \
                 revision, in the shown buffer and in another one",
                t.pick(2, 3),
                REPLACEMENTS.len()
            ),
            move |ctx| single_remote(ctx, &["", "a", "ä🥕"], t.pick(2, 3), REPLACEMENTS),
        ),
        scenario(
            "two-operations",
            "texts of up to 4 characters, every pair of ranges that do not overlap, 3 replacements each",
            move |ctx| double_remote(ctx, &["", "a", "\n", "a\n", "a\nb", "ab\n", "\n\n", "a\nb\n"], &["", "X", "\nY"]),
        ),
        scenario(
            "commands",
            format!("every sequence of {} out of {} commands", t.pick(2, 3), FEW_COMMANDS.len()),
            move |ctx| commands(ctx, &["", "a", "a\n", "ab\na\n", "a\n\nba"], FEW_COMMANDS, t.pick(2, 3)),
        ),
        scenario(
            "opening",
            format!(
                "{} steps (typing, showing another buffer, closing) around the daemon's answer to \
                 opening, which accepts or refuses",
                t.pick(3, 4)
            ),
            move |ctx| opening(ctx, &["", "a\n", "a"], t.pick(3, 4)),
        ),
        scenario(
            "while-typing",
            "an edit of the daemon for every range of a small text, while the user is in insert, \
             visual or normal mode",
            move |ctx| {
                while_typing(
                    ctx,
                    t.pick(&["a\n", "ab\nc"], &["", "a\n", "a", "ab\nc", "ä🥕\n\n"]),
                    &["i<F2>z<Esc>", "iz<F2>z<Esc>", "o<F2>z<Esc>", "v<F2>d", "V<F2>d", "<C-v>j<F2>Iz<Esc>", "A<F2><CR><Esc>", "<F2>u", "R<F2>z<Esc>", "i<F2><BS><Esc>"],
                )
            },
        ),
        scenario("empty-register", "12 commands, mostly such that insert from an empty register, on texts of up to 2 lines", empty_register),
        scenario("names", "14 file names, new and existing files", names),
        scenario(
            "with-daemon",
            "2 commands and 2 changes from elsewhere, every order in which messages arrive",
            move |ctx| {
                with_daemon(
                    ctx,
                    &["a\n", "ab\nc"],
                    &["iz<Esc>", "dd", "oz<Esc>", "u"],
                    t.pick(1, 2),
                    2,
                )
            },
        ),
    ]
}

// ------------------------------------------------------------------ cursors (C25)

fn lines(content: &str) -> Vec<&str> {
    content.strip_suffix('\n').unwrap_or(content).split('\n').collect()
}

/// The byte at which a character of a line starts.
fn byte(line: &str, character: usize) -> usize {
    line.char_indices().nth(character).map_or(line.len(), |(at, _)| at)
}

fn chars(line: &str) -> usize {
    line.chars().count()
}

/// The places where Neovim's cursor can be: line and character.
fn places(content: &str) -> Vec<(usize, usize)> {
    let mut all = vec![];
    for (row, line) in lines(content).iter().enumerate() {
        for c in 0..chars(line).max(1) {
            all.push((row, c));
        }
    }
    all
}

/// The ranges the plugin reported when the cursor moved.
fn reported_ranges(a: &Answer, path: &Path) -> Res<Vec<[(i64, i64); 2]>> {
    ensure!(a.error().is_empty(), "moving the cursor failed: {}", a.error());
    let sent = a.value["moved"]["sent"].as_array().cloned().unwrap_or_default();
    ensure!(
        sent.len() == 1 && sent[0]["method"] == "cursor" && sent[0]["params"]["uri"] == json!(uri(path)),
        "after moving the cursor, the plugin sent {}",
        a.value["moved"]
    );
    let position = |p: &Value| Some((p["line"].as_i64()?, p["character"].as_i64()?));
    let ranges = &sent[0]["params"]["ranges"];
    let all: Option<Vec<_>> = ranges
        .as_array()
        .map(|r| r.iter().map(|r| Some([position(&r["start"])?, position(&r["end"])?])).collect())
        .unwrap_or(Some(vec![]));
    match all {
        Some(r) => Ok(r),
        None => fail!("not a list of ranges: {ranges}"),
    }
}

fn signed(p: (usize, usize)) -> (i64, i64) {
    (p.0 as i64, p.1 as i64)
}

/// The cursor is moved to every place.
fn report_positions(ctx: &mut Ctx, all_lines: &[&str], max: usize) -> Res {
    let content = ctx.pick(&contents(all_lines, max));
    let (row, c) = ctx.pick(&places(&content));
    let keys = ctx.pick(&["<F3>", "i<F3><Esc>", "a<F3><Esc>"]);
    let second = ctx.flip();
    let dir = reset()?;
    if second {
        Shared::open(dir.join("e"), "e\n")?;
    }
    let f = Shared::open(dir.join("f"), &content)?;
    let line = lines(&content)[row];
    run(json!({"what": "cursor", "row": row + 1, "column": byte(line, c)}))?;
    let a = run(json!({"what": "keys", "keys": keys}))?;
    let ranges = reported_ranges(&a, &f.path)?;
    note!(ctx, "{keys} at line {row}, character {c} of {content:?} reports {ranges:?}");
    let expected = (row, if keys.starts_with('a') && !line.is_empty() { c + 1 } else { c });
    ensure!(
        ranges == [[signed(expected); 2]],
        "the cursor at {expected:?} of {content:?} ({keys}) was reported as {ranges:?}"
    );
    ctx.step();
    ctx.state(&(&content, row, c));
    Ok(())
}

/// Every selection.
fn report_selections(ctx: &mut Ctx, all_lines: &[&str], max: usize) -> Res {
    let content = ctx.pick(&contents(all_lines, max));
    let all = places(&content);
    let (from, to) = (ctx.pick(&all), ctx.pick(&all));
    let mode = ctx.pick(&["v", "V", "<C-v>"]);
    let second = ctx.flip();
    let dir = reset()?;
    if second {
        run(json!({"what": "keys", "keys": ":silent! set hidden<CR>"}))?;
        Shared::open(dir.join("e"), "e\n")?;
    }
    let f = Shared::open(dir.join("f"), &content)?;
    let lines = lines(&content);
    let place = |p: (usize, usize)| json!([p.0 + 1, byte(lines[p.0], p.1)]);
    let a = run(json!({"what": "select", "mode": mode, "from": place(from), "to": place(to)}))?;
    let ranges = reported_ranges(&a, &f.path)?;
    note!(ctx, "{mode} from {from:?} to {to:?} in {content:?} reports {ranges:?}");
    // The position behind a character; a selected line break may be included.
    let behind = |p: (usize, usize)| {
        if lines[p.0].is_empty() {
            vec![(p.0, 0), (p.0, 1), (p.0 + 1, 0)]
        } else {
            vec![(p.0, p.1 + 1)]
        }
    };
    let forward = from <= to;
    if mode == "<C-v>" {
        // Lines that are too short for the rectangle are left to the plugin.
        let (left, right) = (from.1.min(to.1), from.1.max(to.1));
        let (top, bottom) = (from.0.min(to.0), from.0.max(to.0));
        for [start, end] in &ranges {
            ensure!(
                (top as i64..=bottom as i64).contains(&start.0)
                    && start.0 == end.0
                    && 0 <= start.1
                    && start.1 <= end.1
                    && end.1 <= chars(lines[start.0 as usize]).max(1) as i64,
                "the rectangle from {from:?} to {to:?} in {content:?} was reported as {ranges:?}"
            );
        }
        // With characters that take two cells, the columns are not those of characters.
        let wide = lines[top..=bottom].iter().any(|l| l.contains('🥕'));
        for row in top..=bottom {
            if chars(lines[row]) > right && !wide {
                let expected = [signed((row, left)), signed((row, right + 1))];
                ensure!(
                    ranges.contains(&expected),
                    "the rectangle from {from:?} to {to:?} in {content:?} was reported as {ranges:?}, without {expected:?}"
                );
            }
        }
    } else {
        let (starts, ends) = match (mode, forward) {
            ("v", true) => (vec![from], behind(to)),
            ("v", false) => (behind(from), vec![to]),
            (_, true) => (vec![(from.0, 0)], vec![(to.0, chars(lines[to.0]))]),
            (_, false) => (vec![(from.0, chars(lines[from.0]))], vec![(to.0, 0)]),
        };
        ensure!(
            ranges.len() == 1
                && starts.iter().any(|p| signed(*p) == ranges[0][0])
                && ends.iter().any(|p| signed(*p) == ranges[0][1]),
            "selecting ({mode}) from {from:?} to {to:?} in {content:?} was reported as {ranges:?} instead of {starts:?} to {ends:?}"
        );
    }
    ctx.step();
    ctx.outcome(mode);
    ctx.state(&(&content, from, to));
    Ok(())
}

/// Identifiers that were never used in this Neovim.
fn new_user() -> String {
    static USERS: AtomicUsize = AtomicUsize::new(0);
    format!("user{}", USERS.fetch_add(1, Ordering::Relaxed))
}

fn cursor_message(path: &Path, user: &str, name: Option<&str>, ranges: &[[(usize, usize); 2]]) -> Value {
    let position = |p: (usize, usize)| json!({"line": p.0, "character": p.1});
    let ranges: Vec<Value> = ranges
        .iter()
        .map(|r| json!({"start": position(r[0]), "end": position(r[1])}))
        .collect();
    let mut params = json!({"uri": uri(path), "userid": user, "ranges": ranges});
    if let Some(name) = name {
        params["name"] = json!(name);
    }
    json!({"what": "remote", "message": {"method": "cursor", "params": params}})
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Mark {
    from: (usize, usize),
    to: (usize, usize),
    text: String,
}

fn marks(a: &Answer, path: &Path) -> Vec<Mark> {
    let position = |p: &Value| (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize);
    let mut all: Vec<Mark> = a.value["buffers"][path.to_str().unwrap()]["marks"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|m| Mark {
            from: position(&m["from"]),
            to: position(&m["to"]),
            text: m["text"].as_str().unwrap_or("").to_string(),
        })
        .collect();
    all.sort();
    all
}

/// Whether a mark shows a range.
fn shows(content: &str, mark: &Mark, range: [(usize, usize); 2]) -> bool {
    let lines = lines(content);
    let [start, end] = if range[0] <= range[1] { range } else { [range[1], range[0]] };
    let at = |p: (usize, usize)| (p.0, lines.get(p.0).map_or(0, |l| byte(l, p.1)));
    if start != end {
        return mark.from == at(start) && mark.to == at(end);
    }
    // Something at the cursor has to be visible: the character behind it, or the last one.
    let Some(line) = lines.get(start.0) else {
        return mark.from == at(start);
    };
    if line.is_empty() {
        return mark.from == at(start);
    }
    let c = start.1.min(chars(line) - 1);
    let (left, right) = (at((start.0, c)), at((start.0, c + 1)));
    left <= mark.from && mark.from < mark.to && mark.to <= right
}

/// Someone else's cursor, for every range of a text.
fn show_one(ctx: &mut Ctx, all_lines: &[&str], max: usize) -> Res {
    let content = ctx.pick(&contents(all_lines, max));
    let n = text::len(&content);
    let range = [ctx.choose(n + 1), ctx.choose(n + 1)].map(|o| text::offset_to_pos(&content, o));
    let name = ctx.pick(&[Some("N"), None]);
    let shown = ctx.choose(3);
    let dir = reset()?;
    let f = Shared::open(dir.join("f"), &content)?;
    if shown > 0 {
        run(json!({"what": "keys", "keys": ":silent! set hidden<CR>"}))?;
        Shared::open(dir.join("g"), ["", "g\n", "\ngggg\n\n"][shown])?;
    }
    let a = run(cursor_message(&f.path, &new_user(), name, &[range]))?;
    let marks = marks(&a, &f.path);
    note!(ctx, "the range {range:?} in {content:?} is shown as {marks:?}");
    ensure!(a.error().is_empty(), "the cursor {range:?} in {content:?} gave the error {}", a.error());
    // Behind the last line feed, there is no line in Neovim.
    let rows = lines(&content).len();
    if range.iter().any(|p| p.0 >= rows) {
        ctx.outcome("behind the last line");
        ensure!(marks.len() <= 1, "the range {range:?} in {content:?} is shown as {marks:?}");
        return Ok(());
    }
    ensure!(
        marks.len() == 1 && shows(&content, &marks[0], range) && marks[0].text == name.unwrap_or(""),
        "the range {range:?} in {content:?} (name {name:?}) is shown as {marks:?}"
    );
    ensure!(f.now(&a)? == content, "showing a cursor changed the buffer");
    ensure!(a.sent("edit").is_empty() && a.sent("cursor").is_empty(), "showing a cursor sent {}", a.value["sent"]);
    ctx.step();
    ctx.state(&(&content, range));
    Ok(())
}

/// Several people, several files that come and go.
fn show_several(ctx: &mut Ctx, depth: usize) -> Res {
    let dir = reset()?;
    run(json!({"what": "keys", "keys": ":silent! set hidden<CR>"}))?;
    let contents = ["ab\ncd\n", "äx\n"];
    let paths = ["f", "g"].map(|n| dir.join(n));
    for (path, content) in paths.iter().zip(contents) {
        Shared::open(path.clone(), content)?;
    }
    let users = [new_user(), new_user()];
    // Where everyone is, and whether that is certain to be visible.
    let mut now: [Option<(usize, Vec<[(usize, usize); 2]>, bool)>; 2] = [None, None];
    let mut loaded = [true, true];
    let choices: &[(usize, &[[(usize, usize); 2]])] = &[
        (0, &[[(0, 0), (0, 0)]]),
        (0, &[[(0, 1), (1, 1)], [(1, 1), (1, 2)]]),
        (1, &[[(0, 1), (0, 2)]]),
        (0, &[]),
        (1, &[]),
    ];
    for _ in 0..depth {
        let k = ctx.choose(2 * choices.len() + 3);
        let a = if k < 2 * choices.len() {
            let (u, (file, ranges)) = (k % 2, choices[k / 2]);
            note!(ctx, "{} is at {ranges:?} of {:?}", ["A", "B"][u], paths[file].file_name());
            now[u] = Some((file, ranges.to_vec(), loaded[file]));
            run(cursor_message(&paths[file], &users[u], Some(["A", "B"][u]), ranges))?
        } else {
            let (what, path) = (k - 2 * choices.len(), &paths[1]);
            for n in now.iter_mut().flatten() {
                n.2 &= n.0 != 1;
            }
            match what {
                0 => {
                    note!(ctx, "g is wiped out");
                    loaded[1] = false;
                    run(json!({"what": "delete", "path": path}))?
                }
                1 => {
                    note!(ctx, "g is unloaded");
                    loaded[1] = false;
                    run(json!({"what": "keys", "keys": format!(":silent! bunload! {}<CR>", path.display())}))?
                }
                _ => {
                    note!(ctx, "g is opened");
                    loaded[1] = true;
                    run(json!({"what": "edit", "path": path}))?
                }
            }
        };
        if k < 2 * choices.len() {
            ensure!(a.error().is_empty(), "a cursor gave the error {}", a.error());
        }
        for (file, path) in paths.iter().enumerate() {
            if !loaded[file] {
                continue;
            }
            let mut left = marks(&a, path);
            let all = left.clone();
            for (u, n) in now.iter().enumerate() {
                let Some((_, ranges, certain)) = n.as_ref().filter(|n| n.0 == file) else {
                    continue;
                };
                for (i, range) in ranges.iter().enumerate() {
                    let name = if i == 0 { ["A", "B"][u] } else { "" };
                    match left.iter().position(|m| m.text == name && shows(contents[file], m, *range)) {
                        Some(at) => {
                            left.remove(at);
                        }
                        None => ensure!(!certain, "{} is at {ranges:?}, but {all:?} is shown", ["A", "B"][u]),
                    }
                }
            }
            ensure!(left.is_empty(), "{left:?} is shown in {path:?}, but the cursors are {now:?}");
        }
        ctx.step();
        ctx.state(&(format!("{now:?}"), loaded));
    }
    Ok(())
}

/// The commands that list cursors and jump to one.
fn jump(ctx: &mut Ctx, names: &[&str]) -> Res {
    // The plugin remembers everyone, so this needs a new one.
    NEOVIM.with(|n| *n.borrow_mut() = None);
    let people = 1 + ctx.choose(2);
    let dir = reset()?;
    let content = "ab\näxö\n";
    let mut expected = vec![];
    // Only then does the plugin connect to the daemon.
    run(json!({"what": "keys", "keys": ":silent! set hidden<CR>"}))?;
    std::fs::write(dir.join("first"), content).unwrap();
    Shared::open(dir.join("first"), content)?;
    for u in 0..people {
        let path = dir.join(if u == 0 { ctx.pick(names) } else { "other" });
        let name = ctx.pick(&[Some("N"), None]);
        let at = ctx.pick(&[(0, 0), (1, 2)]);
        std::fs::write(&path, content).unwrap();
        if ctx.flip() {
            Shared::open(path.clone(), content)?;
        }
        note!(ctx, "{name:?} is at {at:?} of {path:?}");
        let a = run(cursor_message(&path, &format!("u{u}"), name, &[[at, (1, 3)]]))?;
        ensure!(a.error().is_empty(), "a cursor gave the error {}", a.error());
        expected.push((path, name, at));
    }
    let a = run(json!({"what": "output", "command": "EthersyncInfo"}))?;
    let info = a.value["output"].as_str().unwrap_or("").to_string();
    for (path, name, at) in &expected {
        let place = format!("{}:{}", path.display(), at.0 + 1);
        ensure!(
            a.error().is_empty() && info.contains(&place) && info.contains(name.unwrap_or("")),
            "{name:?} is at {place}, but the list is {info:?} {}",
            a.error()
        );
    }
    let a = run(json!({"what": "keys", "keys": ":silent EthersyncJumpToCursor<CR>"}))?;
    ensure!(a.error().is_empty(), "jumping gave the error {}", a.error());
    let (a, wanted) = if people == 1 {
        (a, 0)
    } else {
        let offered = a.value["lines"].as_array().cloned().unwrap_or_default();
        let wanted = ctx.choose(people);
        let place = format!("{}:{}", expected[wanted].0.display(), expected[wanted].2 .0 + 1);
        let Some(line) = offered.iter().position(|l| l.as_str().unwrap_or("").contains(&place)) else {
            fail!("{place} is not in the list {offered:?}");
        };
        (run(json!({"what": "keys", "keys": format!("{}G<CR>", line + 1)}))?, wanted)
    };
    ensure!(a.error().is_empty(), "jumping gave the error {}", a.error());
    let (path, _, at) = &expected[wanted];
    let there = (*at, path.display().to_string());
    let row = a.value["cursor"][0].as_u64().unwrap_or(0) as usize;
    let column = a.value["cursor"][1].as_u64().unwrap_or(0) as usize;
    ensure!(
        a.value["shown"] == json!(there.1) && row == at.0 + 1 && column == byte(lines(content)[at.0], at.1),
        "jumping to {there:?} went to byte {column} of line {row} in {}",
        a.value["shown"]
    );
    ctx.step();
    Ok(())
}

fn c25(t: Tier) -> Vec<Scenario> {
    vec![
        scenario(
            "positions",
            format!("every place in texts of up to {} lines out of {LINES:?}, in normal and insert mode", t.pick(2, 3)),
            move |ctx| report_positions(ctx, LINES, t.pick(2, 3)),
        ),
        scenario(
            "selections",
            format!(
                "every pair of places in texts of up to {} lines, character-wise, line-wise and as a rectangle",
                t.pick(2, 3)
            ),
            move |ctx| report_selections(ctx, LINES, t.pick(2, 3)),
        ),
        scenario(
            "one-cursor",
            format!(
                "every range of texts of up to {} lines, with and without a name, in the shown buffer and in others",
                t.pick(2, 3)
            ),
            move |ctx| show_one(ctx, &["", "a", "ab", "ä🥕"], t.pick(2, 3)),
        ),
        scenario(
            "several-cursors",
            format!("every sequence of {} of 13 happenings with 2 people and 2 files", t.pick(3, 4)),
            move |ctx| show_several(ctx, t.pick(3, 4)),
        ),
        scenario("jump", "listing and jumping to the cursors of 1 or 2 people", |ctx| {
            jump(ctx, &["f", "a b", "a%20b", "ä"])
        }),
    ]
}
