//! C26: sessions of the real program's playground, recorded for Playground.tla.
use crate::net::*;
use crate::notation::{text_json, Lines};
use crate::tables::read_json;
use crate::util::*;
use crate::Ctx;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::Duration;

struct Session {
    child: Child,
    stdin: Option<ChildStdin>,
    mute: bool,
    out: Receiver<Vec<u8>>,
    errors: String,
    heard: u64,
    started: bool,
}
enum Answer {
    Sheet(Vec<Vec<Option<Rgb>>>),
    Error,
    Both,
    Nothing,
}
impl Session {
    fn start(bin: &str, flag: &str, errors: String, cwd: &str) -> Session {
        let log = std::fs::File::create(&errors).expect("a file for errors");
        let mut child = Command::new(bin)
            .arg(flag)
            .env_remove("NO_COLOR")
            .current_dir(cwd)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(log)
            .spawn()
            .expect("start the program");
        let stdin = child.stdin.take();
        let mut so = child.stdout.take().unwrap();
        let (tx, out) = channel();
        std::thread::spawn(move || {
            let mut buf = [0; 1 << 16];
            while let Ok(n) = so.read(&mut buf) {
                if n == 0 || tx.send(buf[..n].to_vec()).is_err() {
                    break;
                }
            }
        });
        Session { child, stdin, out, errors, heard: 0, mute: false, started: false }
    }
    /// What it prints until it asks for the next line.
    fn answer(&mut self, rows: usize, cols: usize) -> Result<Answer, String> {
        let mut text: Vec<u8> = vec![];
        let mut waited = 0;
        loop {
            match self.out.recv_timeout(if self.mute { Duration::from_millis(300) } else { Duration::from_secs(20) }) {
                Ok(b) => text.extend(b),
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                    // the first cube may take a little longer
                    let seen = text.windows(4).any(|w| w == b"\x1b[48");
                    if !self.started && !seen {
                        waited += 1;
                        if waited < 4 {
                            continue;
                        }
                        return Err("it shows no cube within 80 s".into());
                    }
                    // it does not ask: from now on, silence is the end of an answer
                    self.mute = true;
                    break;
                }
                Err(_) => {
                    let e = std::fs::read(&self.errors).unwrap_or_default();
                    return Err(format!("the program ended: {}", String::from_utf8_lossy(&e[self.heard as usize..])));
                }
            }
            if text.ends_with(b"> ") {
                text.truncate(text.len() - 2);
                break;
            }
        }
        self.started = true;
        let said = std::fs::metadata(&self.errors).map(|m| m.len()).unwrap_or(0);
        let mut wrong = said > self.heard;
        self.heard = said;
        let text = String::from_utf8(text).map_err(|_| "it prints no text")?;
        let sheet = text.contains("\x1b[48");
        // an error may as well be told where the cubes are
        wrong |= !sheet && text.chars().any(|c| c.is_alphanumeric());
        Ok(match (sheet, wrong) {
            (true, true) => Answer::Both,
            (true, false) => Answer::Sheet(see_sheet(&text, rows, cols)?),
            (false, true) => Answer::Error,
            (false, false) => Answer::Nothing,
        })
    }
    /// Reads on until it asks and is silent: what was typed ahead is dealt with.
    fn settle(&mut self, lines: usize) -> Result<(), String> {
        let (mut text, mut waited, mut silent) = (vec![], 0, 0);
        loop {
            match self.out.recv_timeout(Duration::from_millis(300)) {
                Ok(b) => {
                    text.extend(b);
                    silent = 0;
                }
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                    (waited, silent) = (waited + 1, silent + 1);
                    let asked = text.windows(2).filter(|w| w == b"> ").count();
                    let all = text.ends_with(b"> ") && (asked >= lines || silent > 15);
                    if waited >= 60 || (self.mute && silent > 4) || all {
                        break;
                    }
                }
                Err(_) => return Err("the program ended".into()),
            }
        }
        self.heard = std::fs::metadata(&self.errors).map(|m| m.len()).unwrap_or(0);
        Ok(())
    }
    fn say(&mut self, line: &[u8]) {
        if let Some(i) = &mut self.stdin {
            // an ended program is noticed when its answer is read
            let _ = i.write_all(line).and_then(|_| i.write_all(b"\n")).and_then(|_| i.flush());
        }
    }
}
impl Drop for Session {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn session(ctx: &Ctx, bin: &str, k: usize, lines: usize, cells: (usize, usize), scheme: &[Rgb; 6], texts: &Lines) {
    let mut r = Sm::new(ctx.args.seed, 2600 + k as u64);
    let tr = std::cell::RefCell::new(Tracer::new(&ctx.args, "TracePlayground", &format!("session{k}"), json!({"N": 3, "MaxLayers": 3})));
    let errors = format!("{}/session{k}.err", ctx.args.scratch);
    let mut s = Session::start(bin, ["--playground-3x3", "-p"][k % 2], errors, &ctx.args.scratch);
    let mut typed: Vec<Value> = vec![];
    let tell = |s: &mut Session, e: Value, typed: &[Value]| -> bool {
        now(format!("playground session {k}: {}", Value::from(typed.to_vec())));
        let got = s.answer(cells.0, cells.1).and_then(|a| {
            Ok(match a {
                Answer::Sheet(g) => (false, named(&g, scheme)?),
                Answer::Error => (true, vec![]),
                Answer::Nothing => (false, vec![]),
                Answer::Both => return Err("an error and a cube".into()),
            })
        });
        match got {
            Err(w) => {
                ctx.rep.violation(format!("the playground, after the lines {}: {w}", Value::from(typed.to_vec())), json!({"lines": typed}));
                false
            }
            Ok((wrong, sheet)) => {
                let mut e = e;
                if e["e"] != "start" {
                    e["wrong"] = json!(wrong);
                    ctx.rep.count(if wrong { "lines_refused" } else { "lines_done" }, 1);
                }
                e["sheet"] = json!(sheet);
                tr.borrow_mut().push(e);
                true
            }
        }
    };
    let mut go = tell(&mut s, json!({"e": "start"}), &typed);
    let mut i = 0;
    while go && i < if s.mute { lines.min(90) } else { lines } {
        i += 1;
        if r.chance(1, 40) {
            let mut bytes = texts.line(&mut r, false).into_bytes();
            let at = r.below(bytes.len() + 1);
            bytes.insert(at, *r.pick(&[0xff, 0xc0, 0x80, 0xfe, 0xe2]));
            bytes.retain(|b| *b != b'\n');
            if std::str::from_utf8(&bytes).is_ok() {
                continue;
            }
            typed.push(json!(bytes));
            s.say(&bytes);
            go = tell(&mut s, json!({"e": "garbled"}), &typed);
            continue;
        }
        let bad = r.chance(1, 3);
        let mut line = texts.line(&mut r, bad).replace('\n', " ");
        if r.chance(1, 80) {
            // a long one
            for _ in 0..10 + r.below(30) {
                line.push(' ');
                line += &texts.line(&mut r, false).replace('\n', " ");
            }
        }
        if r.chance(1, 60) {
            // several typed at once; what they did is seen with the next
            let mut all = line.clone().into_bytes();
            let mut ahead = vec![line];
            for _ in 0..1 + r.below(4) {
                let bad = r.chance(1, 3);
                let line = texts.line(&mut r, bad).replace('\n', " ");
                all.push(b'\n');
                all.extend(line.as_bytes());
                ahead.push(line);
            }
            typed.extend(ahead.iter().map(|l| json!(l)));
            s.say(&all);
            if let Err(w) = s.settle(ahead.len()) {
                ctx.rep.violation(format!("the playground, after the lines {}: {w}", Value::from(typed.clone())), json!({"lines": typed}));
                break;
            }
            for l in &ahead {
                tr.borrow_mut().push(json!({"e": "ahead", "text": text_json(l)}));
            }
            ctx.rep.count("lines_typed_ahead", ahead.len() as u64);
            continue;
        }
        typed.push(json!(line));
        s.say(line.as_bytes());
        go = tell(&mut s, json!({"e": "line", "text": text_json(&line)}), &typed);
    }
    let mut tr = tr.into_inner();
    tr.segments = 1;
    if k == 0 {
        ctx.rep.sample(json!({"typed": typed.iter().take(12).collect::<Vec<_>>()}));
    }
    tr.finish(&ctx.rep);
}

pub fn c26(ctx: &'static Ctx) {
    let bin = ctx.args.value("--bin").expect("--bin");
    let net = read_json(&format!("{}/net.json", ctx.args.dir));
    let rows = net["sheet"].as_array().unwrap();
    let cells = (rows.len(), rows[0].as_array().unwrap().len());
    let scheme = default_scheme(&ctx.rep);
    let texts = Lines::load(&ctx.args.dir, "extended");
    let (sessions, lines) = if ctx.args.thorough { (96, 1000) } else { (32, 250) };
    let (bin, scheme, texts) = (&bin, &scheme, &texts);
    let jobs: Vec<Box<dyn FnOnce() + Send + '_>> = (0..sessions)
        .map(|k| -> Box<dyn FnOnce() + Send + '_> { Box::new(move || session(ctx, bin, k, lines, cells, scheme, texts)) })
        .collect();
    parallel(jobs);
}
