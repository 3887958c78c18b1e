//! C35: what a draw gives is decided by what it reads of its source (Source.tla).
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::moves::{Amount, QuarterAxisMove};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::{AxisMove, Cube2, Cube3, WideAxisMove};
use barbarosa::generic::{Alg, Cube};
use rand::{Rng, RngCore};
use serde_json::json;
use std::collections::HashMap;

/// A row of words that can be read again, and what was read of it. The first few are from
/// small sets, so that rows agree for a while.
#[derive(Clone)]
struct Row {
    id: u64,
    at: u64,
    read: Vec<String>,
}
impl Row {
    fn new(id: u64) -> Row {
        Row { id, at: 0, read: vec![] }
    }
    fn word(&mut self) -> u64 {
        self.at += 1;
        // the bits of the row's number tell which of two words is next, then all goes its own way
        let which = if self.at <= 10 { self.id & ((1 << self.at) - 1) } else { self.id };
        Sm::new(which, 3500 + self.at).next()
    }
}
impl RngCore for Row {
    fn next_u32(&mut self) -> u32 {
        let w = (self.word() >> 32) as u32;
        self.read.push(format!("w{w:x}"));
        w
    }
    fn next_u64(&mut self) -> u64 {
        let w = self.word();
        self.read.push(format!("d{w:x}"));
        w
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.word().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
        let text: String = dest.iter().map(|b| format!("{b:02x}")).collect();
        self.read.push(format!("b{text}"));
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

type Kind = (String, Box<dyn Fn(&mut Row) -> String + Sync + Send>);
fn kinds() -> Vec<Kind> {
    let mut v: Vec<Kind> = vec![];
    macro_rules! kind {
        ($name:expr, |$r:ident| $e:expr) => {
            v.push(($name.to_string(), Box::new(move |$r: &mut Row| format!("{:?}", $e))))
        };
    }
    kind!("2x2x2", |r| r.gen::<Cube2>());
    kind!("3x3x3", |r| r.gen::<Cube3>());
    kind!("corners shuffled", |r| {
        let mut s = Cube3::SOLVED.corners.clone();
        s.shuffle(r);
        s
    });
    kind!("edges shuffled", |r| {
        let mut s = Cube3::SOLVED.edges.clone();
        s.shuffle(r);
        s
    });
    kind!("face", |r| r.gen::<Face>());
    kind!("axis", |r| r.gen::<Axis>());
    kind!("direction", |r| r.gen::<Direction>());
    kind!("amount", |r| r.gen::<Amount>());
    kind!("turn", |r| r.gen::<AxisMove>());
    kind!("quarter turn", |r| r.gen::<QuarterAxisMove>());
    kind!("wide turn, limit 1", |r| r.gen::<WideAxisMove<1>>());
    kind!("wide turn, limit 5", |r| r.gen::<WideAxisMove<5>>());
    for n in [0, 1, 2, 3, 4, 5, 8, 13, 20, 40] {
        kind!(format!("alg of {n}"), |r| Alg::<AxisMove>::random_with_rng(n, r));
    }
    for n in [0, 1, 2, 7, 25] {
        kind!(format!("any {n} turns"), |r| Alg::<AxisMove>::random_unnormalized_with_rng(n, r));
        kind!(format!("any {n} quarter turns"), |r| Alg::<QuarterAxisMove>::random_unnormalized_with_rng(n, r));
        kind!(format!("any {n} wide turns"), |r| Alg::<WideAxisMove<2>>::random_unnormalized_with_rng(n, r));
    }
    v
}
/// What it read and what it gave.
type Drawn = (Vec<String>, String);
fn draw(k: &Kind, from: &Row) -> Result<Drawn, String> {
    let mut row = from.clone();
    row.read.clear();
    let got = guarded(|| (k.1)(&mut row))?;
    Ok((row.read, got))
}
fn short(s: &str) -> String {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    format!("{h:x}")
}

pub fn c35(ctx: &'static Ctx) {
    let rep = &ctx.rep;
    let kinds = kinds();
    let rows = if ctx.args.thorough { 6000 } else { 900 };
    let base = ctx.args.seed.wrapping_mul(1 << 24) & !1023;
    let row = |i: u64| Row::new(base + i);
    let bad = |k: &Kind, i: u64, when: &str, a: &Drawn, b: &Result<Drawn, String>| {
        let what = format!("{}: the source gave the same words, {when}, and it gave {} instead of {}", k.0, match b {
            Ok(b) => format!("{}, having read {} words", b.1, b.0.len()),
            Err(e) => e.clone(),
        }, format_args!("{}, having read {}", a.1, a.0.len()));
        rep.violation(what.clone(), json!({"kind": k.0, "row": i, "when": when}));
    };
    // the first draws, before anything else is drawn
    let mut first: HashMap<(usize, u64), Drawn> = HashMap::new();
    for (ki, k) in kinds.iter().enumerate() {
        now(format!("drawing {}", k.0));
        for i in 0..rows {
            match draw(k, &row(i)) {
                Err(e) => {
                    rep.violation(format!("{}: {e}", k.0), json!({"kind": k.0, "row": i}));
                    return;
                }
                Ok(d) => {
                    first.insert((ki, i), d);
                }
            }
            tick();
        }
    }
    rep.count("draws", first.len() as u64);
    // again, in another order
    let mut r = Sm::new(ctx.args.seed, 3501);
    for step in 0..rows * 40 {
        let (ki, i) = (r.below(kinds.len()), r.below(rows as usize) as u64);
        let again = draw(&kinds[ki], &row(i));
        if again.as_ref() != Ok(&first[&(ki, i)]) {
            bad(&kinds[ki], i, "after other draws", &first[&(ki, i)], &again);
            if rep.too_many() {
                return;
            }
        }
        if step % 4 == 0 {
            let again = draw(&kinds[ki], &row(i));
            if again.as_ref() != Ok(&first[&(ki, i)]) {
                bad(&kinds[ki], i, "twice in a row", &first[&(ki, i)], &again);
            }
        }
        if step % 16 == 0 {
            // what chance there is elsewhere
            let _ = guarded(|| (Alg::<AxisMove>::random(r.below(30)), Alg::<AxisMove>::random_unnormalized(r.below(5)), rand::random::<Cube3>()));
        }
        rep.count("draws_repeated", 1);
        tick();
    }
    if rep.failed() {
        return;
    }
    // in threads, at once
    let (kinds, first, row) = (&kinds, &first, &row);
    let jobs: Vec<Box<dyn FnOnce() + Send + '_>> = (0..32u64)
        .map(|t| -> Box<dyn FnOnce() + Send + '_> {
            Box::new(move || {
                let mut r = Sm::new(ctx.args.seed, 3510 + t / 2);
                for _ in 0..rows * 4 {
                    let (ki, i) = (r.below(kinds.len()), r.below(rows as usize) as u64);
                    let again = draw(&kinds[ki], &row(i));
                    if again.as_ref() != Ok(&first[&(ki, i)]) {
                        bad(&kinds[ki], i, "in another thread", &first[&(ki, i)], &again);
                        return;
                    }
                    rep.count("draws_in_threads", 1);
                    tick();
                }
            })
        })
        .collect();
    parallel(jobs);
    if rep.failed() {
        return;
    }
    // one after another from one source, and each from where it began
    let streams = 200;
    for s in 0..streams {
        let mut long = row(rows + s);
        let mut begun: Vec<(usize, Row, Drawn)> = vec![];
        for _ in 0..30 {
            let ki = r.below(kinds.len());
            let at = long.clone();
            long.read.clear();
            match guarded(|| (kinds[ki].1)(&mut long)) {
                Ok(got) => begun.push((ki, at, (long.read.clone(), got))),
                Err(e) => {
                    rep.violation(format!("{}: {e}", kinds[ki].0), json!({"kind": kinds[ki].0}));
                    return;
                }
            }
        }
        for (ki, at, d) in begun.iter().rev() {
            let again = draw(&kinds[*ki], at);
            if again.as_ref() != Ok(d) {
                bad(&kinds[*ki], at.id, "in the middle of a source", d, &again);
                return;
            }
            rep.count("draws_repeated", 1);
        }
        tick();
    }
    // for TLC: all of a kind agree, also between rows
    let mut tr = crate::util::Tracer::new(&ctx.args, "TraceSource", "draws", json!({}));
    let per = if ctx.args.thorough { 160 } else { 60 };
    for (ki, k) in kinds.iter().enumerate() {
        tr.segments += 1;
        tr.push(json!({"e": "kind"}));
        for n in 0..per {
            tick();
            let i = r.below(rows as usize) as u64;
            let from = if n % 3 == 0 { row(i % 8) } else { row(i) };
            let Ok((used, got)) = draw(k, &from) else { continue };
            let e = json!({"e": "draw", "kind": k.0, "used": used, "got": short(&got)});
            if n == 0 && ki % 8 == 0 {
                rep.sample(json!({"kind": k.0, "used": used, "got": got.chars().take(80).collect::<String>()}));
            }
            tr.push(e);
        }
    }
    tr.finish(rep);
}
