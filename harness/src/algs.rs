//! C09, C10, C11: words of face turns against Words.tla; C22: connecting moves against Connect.tla.
use crate::observe::*;
use crate::tables::*;
use crate::turns::{project, turned, OddRng, ODD_KINDS};
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::moves::non_redundant::{absorve, AbsorveResult};
use barbarosa::cube_n::moves::{NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::space::Direction;
use barbarosa::cube_n::{AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, WideAxisMove};
use barbarosa::generic::{moves::connect, Alg, Movable, Move};
use rand::RngCore;
use serde_json::{json, Value};
use std::collections::HashSet;

type T2 = (i32, usize);
fn t2(m: &AxisMove) -> T2 {
    (face_signed(&m.face), amount_no(m.amount))
}
fn mv(t: T2) -> AxisMove {
    AxisMove::new(face_of_signed(t.0), AMOUNTS[t.1 - 1])
}
fn word_json(w: &[T2]) -> Value {
    json!(w.iter().map(|t| json!([t.0, t.1])).collect::<Vec<_>>())
}
fn show(w: &[T2]) -> String {
    w.iter().map(|t| format!("{}{}", FACE_NAMES[FACE_SIGNED.iter().position(|x| *x == t.0).unwrap()], ["", "2", "'"][t.1 - 1])).collect::<Vec<_>>().join(" ")
}
/// The specification's Redundant.
fn redundant(w: &[T2]) -> bool {
    for i in 0..w.len() {
        for j in i + 1..w.len() {
            if w[j].0.abs() != w[i].0.abs() {
                break;
            }
            if w[j].0 == w[i].0 {
                return true;
            }
        }
    }
    false
}
/// The specification's Push, through its exported table of combined moves.
struct Comb {
    turns: Vec<T2>,
    combined: Vec<Vec<i32>>,
    parts: Vec<Vec<T2>>,
    take: Vec<Vec<usize>>,
    how: Vec<Vec<String>>,
}
fn pairs(v: &Value) -> Vec<T2> {
    v.as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap() as i32, p[1].as_u64().unwrap() as usize)).collect()
}
impl Comb {
    fn load(dir: &str) -> Comb {
        let v = read_json(&format!("{dir}/words.json"));
        let a = |k: &str| v[k].as_array().unwrap().clone();
        Comb {
            turns: pairs(&v["turns"]),
            combined: a("combined").iter().map(|c| c.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as i32).collect()).collect(),
            parts: a("parts").iter().map(pairs).collect(),
            take: a("take").iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect()).collect(),
            how: a("how").iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()).collect(),
        }
    }
    fn ix(&self, t: T2) -> usize {
        self.turns.iter().position(|x| *x == t).unwrap()
    }
    fn nf(&self, w: &[T2]) -> Vec<usize> {
        let mut nf: Vec<usize> = vec![];
        for t in w {
            let j = self.ix(*t);
            match nf.last().copied() {
                Some(c) if self.how[c][j] != "refused" => {
                    nf.pop();
                    let n = self.take[c][j];
                    if !self.combined[n].is_empty() {
                        nf.push(n);
                    }
                }
                _ => nf.push(self.take[0][j]),
            }
        }
        nf
    }
    /// which combined move the code holds
    fn of(&self, m: &NonRedundantAxisMove) -> Option<usize> {
        let c = match m {
            NonRedundantAxisMove::Single(m) => {
                let t = t2(m);
                if t.0 > 0 { vec![t.0, t.1 as i32, 0] } else { vec![-t.0, 0, t.1 as i32] }
            }
            NonRedundantAxisMove::Double { axis, amount_positive, amount_negative } => {
                vec![axis_no(*axis) as i32 + 1, amount_no(*amount_positive) as i32, amount_no(*amount_negative) as i32]
            }
        };
        self.combined.iter().position(|x| *x == c)
    }
    /// how the code should hold it
    fn make(&self, i: usize) -> Option<NonRedundantAxisMove> {
        let p = &self.parts[i];
        match p.len() {
            0 => None,
            1 => Some(NonRedundantAxisMove::Single(mv(p[0]))),
            _ => Some(NonRedundantAxisMove::Double {
                axis: AXES[p[0].0 as usize - 1],
                amount_positive: AMOUNTS[p[0].1 - 1],
                amount_negative: AMOUNTS[p[1].1 - 1],
            }),
        }
    }
}

/// Do two words have the same effect on every cube, by the specification's tables?
fn same_effect(ctx: &Ctx, a: &[T2], b: &[T2]) -> bool {
    ctx.t.sizes.values().all(|s| {
        let run = |w: &[T2]| {
            let mut m = Model::solved(s);
            for t in w {
                m.turn(&ctx.t, s, Turn { face: FACE_SIGNED.iter().position(|x| *x == t.0).unwrap(), amount: t.1, depth: 0 });
            }
            m
        };
        run(a) == run(b)
    })
}

fn rand_word(r: &mut Sm, len: usize) -> Vec<T2> {
    // words full of cancellations: few faces, repeated and mirrored stretches
    let faces: Vec<i32> = match r.below(4) {
        0 => FACE_SIGNED.to_vec(),
        1 => vec![1, -1, 2, -2],
        2 => vec![1, -1, 3],
        _ => vec![*r.pick(&FACE_SIGNED), *r.pick(&FACE_SIGNED), -*r.pick(&FACE_SIGNED)],
    };
    let mut w: Vec<T2> = vec![];
    while w.len() < len {
        match r.below(6) {
            0 if !w.is_empty() => {
                // undo the last few turns, perhaps not all in order
                let k = 1 + r.below(w.len().min(8));
                let tail: Vec<T2> = w[w.len() - k..].iter().rev().map(|t| (t.0, 4 - t.1)).collect();
                let skip = if r.chance(1, 3) { r.below(k) } else { k };
                for (i, t) in tail.into_iter().enumerate() {
                    if i != skip {
                        w.push(t);
                    }
                }
            }
            1 if !w.is_empty() => {
                let t = *w.last().unwrap();
                w.push((-t.0, 1 + r.below(3)));
            }
            _ => w.push((*r.pick(&faces), 1 + r.below(3))),
        }
    }
    w.truncate(len);
    w
}

struct NormCheck<'a> {
    ctx: &'static Ctx,
    c: &'a Comb,
}
impl NormCheck<'_> {
    /// normalises w in the code and says what is wrong with the result
    fn judge(&self, w: &[T2]) -> Result<Vec<T2>, String> {
        let alg = Alg::<AxisMove>::new(w.iter().map(|t| mv(*t)).collect());
        let v: Vec<T2> = guarded(|| alg.normalized())?.moves.iter().map(t2).collect();
        if redundant(&v) {
            return Err(format!("gives {:?}, which has a redundancy", show(&v)));
        }
        if self.c.nf(&v) != self.c.nf(w) && !same_effect(self.ctx, w, &v) {
            return Err(format!("gives {:?}, which has another effect", show(&v)));
        }
        if v.len() > w.len() {
            return Err(format!("gives {:?}, which is longer", show(&v)));
        }
        let again = guarded(|| Alg::<AxisMove>::new(v.iter().map(|t| mv(*t)).collect()).normalized())?;
        if again.moves.iter().map(t2).collect::<Vec<_>>() != v {
            return Err(format!("gives {:?}, which normalises further, to {again}", show(&v)));
        }
        Ok(v)
    }
    fn check(&self, w: &[T2]) -> Option<Vec<T2>> {
        match self.judge(w) {
            Ok(v) => Some(v),
            Err(e) => {
                // a shorter word with the same trouble
                let mut w: Vec<T2> = w.to_vec();
                let mut e = e;
                let mut i = 0;
                while i < w.len() && w.len() < 400 {
                    let mut x = w.clone();
                    x.remove(i);
                    match self.judge(&x) {
                        Err(f) => {
                            w = x;
                            e = f;
                        }
                        Ok(_) => i += 1,
                    }
                }
                self.ctx.rep.violation(format!("normalising {:?} {e}", show(&w)), json!({"alg": show(&w), "trouble": e}));
                None
            }
        }
    }
}

pub fn c09(ctx: &'static Ctx) {
    let rep = &ctx.rep;
    let c = &Comb::load(&ctx.args.dir);
    let nc = &NormCheck { ctx, c };
    // every word up to a length over all turns, longer over the turns of two axes
    let (full, two) = if ctx.args.thorough { (5, 7) } else { (4, 5) };
    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    for first in c.turns.iter() {
        jobs.push(Box::new(move || {
            let mut count = 0u64;
            let mut stack = vec![vec![*first]];
            while let Some(w) = stack.pop() {
                count += 1;
                if count % 512 == 0 {
                    tick();
                }
                if rep.too_many() {
                    return;
                }
                nc.check(&w);
                let small = w.iter().all(|t| t.0.abs() < 3);
                if w.len() < full || (small && w.len() < two) {
                    for t in c.turns.iter().filter(|t| w.len() < full || t.0.abs() < 3) {
                        let mut x = w.clone();
                        x.push(*t);
                        stack.push(x);
                    }
                }
            }
            rep.count("words_exhaustive", count);
        }));
    }
    // long words
    let per = if ctx.args.thorough { 400_000 } else { 40_000 };
    for k in 0..8 {
        jobs.push(Box::new(move || {
            let mut r = Sm::new(ctx.args.seed, 900 + k);
            let mut longest = 0u64;
            let mut empties = 0u64;
            for i in 0..per {
                if i % 256 == 0 {
                    tick();
                }
                if rep.too_many() {
                    return;
                }
                let n = match i % 50 {
                    0 => r.below(200),
                    _ => r.below(24),
                };
                let w = rand_word(&mut r, n);
                longest = longest.max(w.len() as u64);
                nc.check(&w);
                if i % 20 == 0 {
                    // cancels completely
                    let mut x = w.clone();
                    x.extend(w.iter().rev().map(|t| (t.0, 4 - t.1)));
                    empties += 1;
                    if let Some(v) = nc.check(&x) {
                        if !v.is_empty() {
                            rep.violation(format!("{:?} cancels, but normalises to {:?}", show(&x), show(&v)), json!(show(&x)));
                        }
                    }
                }
            }
            rep.count("words_random", per as u64);
            rep.count("words_cancelling", empties);
        }));
    }
    // very long words
    let lengths: Vec<usize> = [130, 260, 300, 520, 700, 1030, 1500, 2600, 4100, 7000, 20_000, 66_000].repeat(if ctx.args.thorough { 12 } else { 2 });
    for (k, n) in lengths.into_iter().enumerate() {
        jobs.push(Box::new(move || {
            let mut r = Sm::new(ctx.args.seed, 940 + k as u64);
            let mut w = rand_word(&mut r, n);
            if k % 2 == 1 {
                // something that cancels before, within or after a long stretch where nothing does
                let t = mv(*r.pick(&c.turns));
                let calm = (0..n).map(|i| ([1, 2, 3][(i + r.below(2)) % 3], 1 + r.below(3))).fold(vec![], |mut v: Vec<T2>, t| {
                    if v.last().map_or(true, |l| l.0 != t.0) {
                        v.push(t);
                    }
                    v
                });
                let knot = [t2(&t), (3, 1), (3, 3), t2(&t)];
                w = [0, calm.len() / 2, calm.len()].iter().zip([&knot[..], &knot[..], &knot[1..]]).rev().fold(calm.clone(), |mut v, (at, k)| {
                    v.splice(at..at, k.iter().copied());
                    v
                });
            }
            tick();
            if let Err(e) = nc.judge(&w) {
                let show = |w: &[T2]| show(&w[..w.len().min(30)]);
                let e = if e.len() > 400 { e.chars().take(400).collect() } else { e };
                rep.violation(format!("normalising {} turns, {:?} and so on, {e}", w.len(), show(&w)), json!({"length": w.len(), "number": k, "seed": ctx.args.seed}));
            }
            rep.count("words_very_long", 1);
            rep.max("longest_word", w.len() as u64);
        }));
    }
    parallel(jobs);
    if rep.failed() {
        return;
    }
    // on real cubes, too
    let mut r = Sm::new(ctx.args.seed, 980);
    for i in 0..400 {
        let n = r.below(30);
        let w = rand_word(&mut r, n);
        let v: Vec<T2> = match nc.check(&w) {
            Some(v) => v,
            None => return,
        };
        macro_rules! on {
            ($($c:ty),*) => { $(
                let mut a: $c = turned(&mut r, 0, i % 9);
                let mut b = a.clone();
                a.apply(&Alg::<AxisMove>::new(w.iter().map(|t| mv(*t)).collect()));
                b.apply(&Alg::<AxisMove>::new(v.iter().map(|t| mv(*t)).collect()));
                if a != b {
                    rep.violation(format!("{:?} and its normalised form {:?} differ on a cube", show(&w), show(&v)), json!(show(&w)));
                }
                rep.count("cubes_compared", 1);
            )* };
        }
        on!(Cube2, Cube3, Cube4, Cube5, Cube6, Cube7);
        tick();
        if rep.failed() {
            return;
        }
    }
    let mut tr = Tracer::new(&ctx.args, "TraceWords", "norm", json!({}));
    let events = if ctx.args.thorough { 6000 } else { 1500 };
    tr.segments = events;
    for i in 0..events {
        let n = if i < 20 { i as usize } else { r.below(40) };
        let w = rand_word(&mut r, n);
        if let Some(v) = nc.check(&w) {
            if c.nf(&v) == c.nf(&w) {
                let e = json!({"e": "norm", "w": word_json(&w), "v": word_json(&v)});
                if i > 5 {
                    rep.sample(json!({"alg": show(&w), "normalised": show(&v)}));
                }
                tr.push(e);
            }
        }
        tick();
    }
    tr.finish(rep);
}

// --------------------------------------------------------------- C10
fn how_ok(how: &str, got: &AbsorveResult) -> bool {
    match how {
        "new" => *got != AbsorveResult::NotAdded,
        "added" => *got == AbsorveResult::Added,
        "absorbed" => *got == AbsorveResult::Absorved,
        "collapsed" => *got == AbsorveResult::Collapsed,
        _ => *got == AbsorveResult::NotAdded,
    }
}
fn how_name(got: &AbsorveResult) -> &'static str {
    match got {
        AbsorveResult::Absorved => "absorbed",
        AbsorveResult::Added => "added",
        AbsorveResult::Collapsed => "collapsed",
        AbsorveResult::NotAdded => "refused",
    }
}
/// Applied to a real cube, is it the same as these turns one by one?
fn effect<C: Sut + Movable<M> + Movable<AxisMove>, M: ?Sized>(c: &C, m: &M, turns: &[T2]) -> Result<(), String> {
    let mut a = c.clone();
    let mut b = c.clone();
    guarded(|| a.apply(m))?;
    guarded(|| turns.iter().for_each(|t| b.apply(&mv(*t))))?;
    if a == b {
        Ok(())
    } else {
        Err(format!("has another effect on a {n}x{n}x{n} than {:?}", show(turns), n = C::SIZE))
    }
}
macro_rules! effects {
    ($cubes:expr, $m:expr, $turns:expr) => {
        effect(&$cubes.0, $m, $turns)
            .and_then(|_| effect(&$cubes.1, $m, $turns))
            .and_then(|_| effect(&$cubes.2, $m, $turns))
            .and_then(|_| effect(&$cubes.3, $m, $turns))
            .and_then(|_| effect(&$cubes.4, $m, $turns))
            .and_then(|_| effect(&$cubes.5, $m, $turns))
    };
}

pub fn c10(ctx: &'static Ctx) {
    let rep = &ctx.rep;
    let c = &Comb::load(&ctx.args.dir);
    let mut r = Sm::new(ctx.args.seed, 1000);
    let cubes: (Cube2, Cube3, Cube4, Cube5, Cube6, Cube7) = (
        turned(&mut r, 0, 30),
        turned(&mut r, 0, 30),
        turned(&mut r, 1, 30),
        turned(&mut r, 1, 30),
        turned(&mut r, 2, 30),
        turned(&mut r, 2, 30),
    );
    // the real turns are the specification's
    for t in &c.turns {
        check_turn(ctx, &cubes.1, *t);
        check_turn(ctx, &cubes.0, *t);
        check_turn(ctx, &cubes.2, *t);
        check_turn(ctx, &cubes.3, *t);
        check_turn(ctx, &cubes.4, *t);
        check_turn(ctx, &cubes.5, *t);
    }
    // every combined move takes every turn
    for i in 0..c.combined.len() {
        for (j, t) in c.turns.iter().enumerate() {
            tick();
            rep.count("merges", 1);
            let before = c.make(i);
            let mut m = before.clone();
            let res = match guarded(|| absorve(&mut m, &mv(*t))) {
                Ok(x) => x,
                Err(e) => {
                    rep.violation(format!("{before:?} taking {}: {e}", show(&[*t])), json!({}));
                    continue;
                }
            };
            let want = c.take[i][j];
            let got = match &m {
                None => Some(0),
                Some(x) => c.of(x),
            };
            if got != Some(want) || !how_ok(&c.how[i][j], &res) {
                rep.violation(
                    format!("{:?} taking {}: {res:?} and {m:?}, it should be {} and {:?}", show(&c.parts[i]), show(&[*t]), c.how[i][j], show(&c.parts[want])),
                    json!({"combined": show(&c.parts[i]), "turn": show(&[*t])}),
                );
            }
            if res == AbsorveResult::NotAdded && m != before {
                rep.violation(format!("{before:?} refused {} and changed to {m:?}", show(&[*t])), json!({}));
            }
            // the effect of both
            let mut both = c.parts[i].clone();
            if c.how[i][j] != "refused" {
                both.push(*t);
            }
            let e = match &m {
                Some(x) => effects!(cubes, x, &both),
                None => effects!(cubes, &Alg::<AxisMove>::empty(), &both),
            };
            if let Err(e) = e {
                rep.violation(format!("{:?} taking {}: the result {e}", show(&c.parts[i]), show(&[*t])), json!({}));
            }
        }
        if rep.too_many() {
            return;
        }
        // its parts, in its several forms
        let Some(m) = c.make(i) else { continue };
        let p = &c.parts[i];
        let forms: Vec<(&str, Result<Vec<T2>, String>)> = vec![
            ("moves", guarded(|| m.moves().map(|x| t2(&x)).collect())),
            ("into alg", guarded(|| Alg::<AxisMove>::from(m.clone()).moves.iter().map(t2).collect())),
            ("alg into alg", guarded(|| Alg::<AxisMove>::from(Alg::<NonRedundantAxisMove>::new(vec![m.clone()])).moves.iter().map(t2).collect())),
        ];
        for (name, f) in forms {
            rep.count("expansions", 1);
            if f.as_ref() != Ok(p) {
                rep.violation(format!("{m:?} expanded by {name} gives {f:?}, it stands for {:?}", show(p)), json!({}));
            }
        }
        if guarded(|| axis_no(m.axis()) as i32 + 1) != Ok(c.combined[i][0]) {
            rep.violation(format!("axis of {m:?}"), json!({}));
        }
        if let Err(e) = effects!(cubes, &m, p) {
            rep.violation(format!("{m:?} {e}"), json!({}));
        }
        let inv: Vec<T2> = p.iter().map(|t| (t.0, 4 - t.1)).collect();
        match guarded(|| m.inverse()) {
            Ok(x) if c.of(&x).map(|k| &c.parts[k]) == Some(&inv) => (),
            other => rep.violation(format!("inverse of {m:?} is {other:?}"), json!({})),
        }
    }
    // enumerations
    let mut lists: Vec<(String, Result<Vec<NonRedundantAxisMove>, String>, Vec<i32>)> =
        vec![("all".into(), guarded(|| NonRedundantAxisMove::all().collect()), vec![1, 2, 3])];
    for a in AXES {
        let x = axis_no(a) as i32 + 1;
        lists.push((format!("of_axis({a:?})"), guarded(|| NonRedundantAxisMove::of_axis(a).collect()), vec![x]));
        lists.push((
            format!("given_last_axis({a:?})"),
            guarded(|| NonRedundantAxisMove::given_last_axis(&a).collect()),
            (1..=3).filter(|y| *y != x).collect(),
        ));
    }
    for (name, got, axes) in lists {
        let mut want: Vec<usize> = (1..c.combined.len()).filter(|i| axes.contains(&c.combined[*i][0])).collect();
        let mut ix: Vec<usize> = match &got {
            Ok(g) => g.iter().map(|m| c.of(m).unwrap_or(0)).collect(),
            Err(e) => {
                rep.violation(format!("{name}: {e}"), json!({}));
                continue;
            }
        };
        want.sort();
        ix.sort();
        rep.count("enumerations", 1);
        if ix != want {
            rep.violation(format!("{name} lists {} moves, not exactly the {} of those axes", ix.len(), want.len()), json!(format!("{got:?}")));
        }
    }
    // single turns: into a combined move, into quarter turns and back, widened
    for t in &c.turns {
        let m = mv(*t);
        match guarded(|| NonRedundantAxisMove::from(m.clone())) {
            Ok(x) if c.of(&x) == Some(c.take[0][c.ix(*t)]) => (),
            other => rep.violation(format!("{m} as a combined move is {other:?}"), json!({})),
        }
        if t.1 != 2 {
            let q = QuarterAxisMove::new(m.face.clone(), if t.1 == 1 { Direction::Positive } else { Direction::Negative });
            if guarded(|| t2(&AxisMove::from(&q))) != Ok(*t) {
                rep.violation(format!("the quarter turn {q:?} as a face turn"), json!({}));
            }
            if let Err(e) = effects!(cubes, &q, &[*t]) {
                rep.violation(format!("{q:?} {e}"), json!({}));
            }
            if guarded(|| t2(&AxisMove::from(&q.inverse()))) != Ok((t.0, 4 - t.1)) {
                rep.violation(format!("inverse of {q:?}"), json!({}));
            }
        }
        macro_rules! widened {
            ($n:literal, $d:literal, $c:expr) => {
                match guarded(|| m.clone().widen::<$n>($d)) {
                    Ok(Ok(w)) => {
                        if (face_signed(w.face()), amount_no(w.amount()), w.depth()) != (t.0, t.1, $d) {
                            rep.violation(format!("{m} widened to depth {} is {w:?}", $d), json!({}));
                        }
                        check_wide(ctx, $c, &w, *t, $d);
                    }
                    other => rep.violation(format!("{m} widened to depth {} of {}: {other:?}", $d, $n), json!({})),
                }
                // as a whole alg
                match guarded(|| Alg::<AxisMove>::new(vec![m.clone(), m.clone()]).widen::<$n>($d)) {
                    Ok(Ok(a)) if a.moves.len() == 2 && a.moves.iter().all(|w| (face_signed(w.face()), amount_no(w.amount()), w.depth()) == (t.0, t.1, $d)) => (),
                    other => rep.violation(format!("the alg {m} {m} widened to depth {}: {other:?}", $d), json!({})),
                }
                rep.count("widenings", 2);
            };
        }
        widened!(0, 0, &cubes.0);
        widened!(0, 0, &cubes.1);
        widened!(1, 0, &cubes.2);
        widened!(1, 1, &cubes.2);
        widened!(1, 1, &cubes.3);
        widened!(1, 0, &cubes.3);
        widened!(2, 0, &cubes.4);
        widened!(2, 1, &cubes.4);
        widened!(2, 2, &cubes.4);
        widened!(2, 0, &cubes.5);
        widened!(2, 1, &cubes.5);
        widened!(2, 2, &cubes.5);
    }
    if rep.failed() {
        return;
    }
    // whole algs into quarter turns, whole lists of combined moves written out
    let mut tr = Tracer::new(&ctx.args, "TraceWords", "encodings", json!({}));
    let per = if ctx.args.thorough { 20_000 } else { 2_000 };
    for i in 0..per {
        tick();
        if rep.too_many() {
            break;
        }
        // now and then a very long one
        let long = if i % (per / 12) == 7 { *r.pick(&[130, 260, 300, 700, 5_000, 33_000, 66_000]) } else { 0 };
        let n = r.below(30) + long;
        let w = rand_word(&mut r, n);
        let alg = Alg::<AxisMove>::new(w.iter().map(|t| mv(*t)).collect());
        let q = match guarded(|| Alg::<QuarterAxisMove>::from(alg.clone())) {
            Ok(q) => q,
            Err(e) => {
                rep.violation(format!("{:?} in quarter turns: {e}", show(&w)), json!({}));
                continue;
            }
        };
        let qs: Vec<(i32, i32)> = q.moves.iter().map(|m| (face_signed(&m.face), sign(m.direction))).collect();
        rep.count("algs_in_quarter_turns", 1);
        if !quarters_ok(&w, &qs) {
            rep.violation(format!("{:?} in quarter turns is {qs:?}", show(&w)), json!({"alg": show(&w)}));
        }
        if let Err(e) = effects!(cubes, &q, &w) {
            rep.violation(format!("{:?} in quarter turns {e}", show(&w)), json!({}));
        }
        if long > 0 {
            rep.count("long_algs_in_quarter_turns", 1);
            match guarded(|| alg.clone().widen::<1>(1)) {
                Ok(Ok(a)) if a.moves.len() == n && a.moves.iter().zip(&w).all(|(m, t)| (face_signed(m.face()), amount_no(m.amount()), m.depth()) == (t.0, t.1, 1)) => (),
                _ => rep.violation(format!("an alg of {n} moves widened to depth 1"), json!({"alg": show(&w)})),
            }
        }
        let cs: Vec<usize> = (0..r.below(12) + long).map(|_| 1 + r.below(45)).collect();
        let list = Alg::<NonRedundantAxisMove>::new(cs.iter().map(|i| c.make(*i).unwrap()).collect());
        let flat: Vec<T2> = cs.iter().flat_map(|i| c.parts[*i].clone()).collect();
        let got = guarded(|| Alg::<AxisMove>::from(list.clone()).moves.iter().map(t2).collect::<Vec<_>>());
        rep.count("algs_of_combined_moves", 1);
        if got.as_ref() != Ok(&flat) {
            rep.violation(format!("combined moves {:?} written out are {got:?}", show(&flat)), json!({}));
        }
        if let Err(e) = effects!(cubes, &list, &flat) {
            rep.violation(format!("combined moves {:?}: {e}", show(&flat)), json!({}));
        }
        if i < 200 && long == 0 {
            tr.segments += 1;
            tr.push(json!({"e": "quarters", "w": word_json(&w), "q": qs}));
            let cj: Vec<Value> = cs.iter().map(|i| json!(c.combined[*i])).collect();
            tr.push(json!({"e": "expand", "cs": cj, "w": word_json(&got.unwrap_or_default())}));
        }
    }
    // lives of combined moves
    for k in 0..40 {
        tr.segments += 1;
        tr.push(json!({"e": "clear"}));
        let mut m = None;
        let axis = 1 + r.below(3) as i32;
        for _ in 0..25 {
            tick();
            let t = match r.below(5) {
                0 => *r.pick(&c.turns),
                _ => (if r.chance(1, 2) { axis } else { -axis }, 1 + r.below(3)),
            };
            let Ok(res) = guarded(|| absorve(&mut m, &mv(t))) else { continue };
            let now = m.as_ref().map(|x| c.of(x).unwrap_or(0)).unwrap_or(0);
            let e = json!({"e": "take", "t": [t.0, t.1], "how": how_name(&res), "c": c.combined[now]});
            if k == 0 {
                rep.sample(e.clone());
            }
            tr.push(e);
        }
    }
    tr.finish(rep);
}
fn quarters_ok(w: &[T2], q: &[(i32, i32)]) -> bool {
    let mut i = 0;
    for t in w {
        let k = if t.1 == 2 { 2 } else { 1 };
        if q.len() < i + k || !q[i..i + k].iter().all(|x| x.0 == t.0 && x.1 == q[i].1) {
            return false;
        }
        if (t.1 == 1 && q[i].1 != 1) || (t.1 == 3 && q[i].1 != -1) {
            return false;
        }
        i += k;
    }
    i == q.len()
}
/// The real effect of a wide turn against the specification's.
fn compare<C: Sut>(ctx: &Ctx, c: &C, apply: impl FnOnce(&mut C), t: T2, depth: usize, what: &str) {
    let s = ctx.t.size(C::SIZE);
    let Some(proj) = project::<C>(ctx) else { return };
    let Ok(Ok(o)) = guarded(|| proj.observe(s, c)) else { return };
    let Some(mut m) = Model::from_obs(s, &o) else { return };
    let mut x = c.clone();
    if let Err(e) = guarded(|| apply(&mut x)) {
        ctx.rep.violation(format!("{what}: {e}"), json!({}));
        return;
    }
    m.turn(&ctx.t, s, Turn { face: FACE_SIGNED.iter().position(|x| *x == t.0).unwrap(), amount: t.1, depth });
    match guarded(|| proj.observe(s, &x)) {
        Ok(Ok(o)) => {
            if let Some(d) = diff(s, &m.obs(s), &o) {
                ctx.rep.violation(format!("{what} on a {n}x{n}x{n}: {d}", n = C::SIZE), json!({"size": C::SIZE, "turn": show(&[t]), "depth": depth}));
            }
        }
        Ok(Err(e)) | Err(e) => ctx.rep.violation(format!("{what}: {e}"), json!({})),
    }
    ctx.rep.count("effects_compared_with_the_model", 1);
}
fn check_turn<C: Sut + Movable<AxisMove>>(ctx: &Ctx, c: &C, t: T2) {
    compare(ctx, c, |x| x.apply(&mv(t)), t, 0, &show(&[t]));
}
fn check_wide<C: Sut + Movable<WideAxisMove<N>>, const N: u32>(ctx: &Ctx, c: &C, w: &WideAxisMove<N>, t: T2, depth: usize) {
    compare(ctx, c, |x| x.apply(w), t, depth, &format!("{} widened to depth {depth}", show(&[t])));
}

// --------------------------------------------------------------- C11
/// Gives up (as a harness matter) when asked for absurdly many numbers.
struct Rationed<R: RngCore>(R, u64);
const RATION: &str = "harness: the random source is exhausted";
impl<R: RngCore> RngCore for Rationed<R> {
    fn next_u32(&mut self) -> u32 {
        self.spend();
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.spend();
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.spend();
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.spend();
        self.0.try_fill_bytes(d)
    }
}
impl<R: RngCore> Rationed<R> {
    fn spend(&mut self) {
        if self.1 == 0 {
            panic!("{RATION}");
        }
        self.1 -= 1;
    }
}

pub fn c11(ctx: &'static Ctx) {
    let rep = &ctx.rep;
    let c = &Comb::load(&ctx.args.dir);
    let per = if ctx.args.thorough { 40_000 } else { 4_000 };
    let mut tr = Tracer::new(&ctx.args, "TraceWords", "random", json!({}));
    let mut first: Vec<HashSet<T2>> = vec![HashSet::new(); 4];
    let mut second: HashSet<(T2, T2)> = HashSet::new();
    let mut gave_up = 0u64;
    for kind in 0..ODD_KINDS + 1 {
        for i in 0..per {
            tick();
            if rep.too_many() {
                return;
            }
            let good = kind >= ODD_KINDS - 1;
            if !good && i >= 600 {
                break;
            }
            let n = match i % 20 {
                19 => 100 + (i % 400),
                k => k,
            };
            let mut rng = Rationed(OddRng { kind, i: i as u64 * 977, sm: Sm::new(ctx.args.seed, (1100 + kind * 100_000 + i) as u64) }, 4_000_000);
            // the last round uses the library's own source
            let got = guarded(|| if kind == ODD_KINDS { Alg::<AxisMove>::random(n) } else { Alg::<AxisMove>::random_with_rng(n, &mut rng) });
            let w: Vec<T2> = match got {
                Ok(a) => a.moves.iter().map(t2).collect(),
                Err(e) if e.contains(RATION) => {
                    gave_up += 1;
                    continue;
                }
                Err(e) => {
                    rep.violation(format!("random alg of length {n}, source {kind}: {e}"), json!({"n": n, "source": kind}));
                    continue;
                }
            };
            rep.count("random_algs", 1);
            if w.len() != n {
                rep.violation(format!("a random alg of length {n} has {} moves: {}", w.len(), show(&w)), json!({"n": n, "source": kind, "alg": show(&w)}));
            }
            if redundant(&w) {
                rep.violation(format!("a random alg of length {n} has a redundancy: {}", show(&w)), json!({"n": n, "source": kind, "alg": show(&w)}));
            }
            // normalising removes nothing
            match guarded(|| Alg::<AxisMove>::new(w.iter().map(|t| mv(*t)).collect()).normalized()) {
                Ok(v) if v.moves.len() == w.len() => (),
                other => rep.violation(format!("the random alg {:?} normalises to {other:?}", show(&w)), json!({"alg": show(&w)})),
            }
            if good && n > 0 {
                first[n.min(3)].insert(w[0]);
            }
            if good && n > 1 && w.len() > 1 {
                second.insert((w[0], w[1]));
            }
            if i < 60 {
                tr.segments += 1;
                if n > 3 && n < 12 {
                    rep.sample(json!({"source": kind, "n": n, "alg": show(&w)}));
                }
                tr.push(json!({"e": "random", "n": n, "w": word_json(&w)}));
            }
        }
    }
    rep.set("sources_given_up", gave_up);
    for n in 1..4 {
        // 18 starts, each at least 1 in 45, many hundred draws
        if first[n].len() != 18 {
            let missing: Vec<String> = c.turns.iter().filter(|t| !first[n].contains(t)).map(|t| show(&[*t])).collect();
            rep.violation(format!("no random alg of length {n}{} starts with {}", if n == 3 { " or more" } else { "" }, missing.join(", ")), json!(missing));
        }
    }
    rep.set("distinct_first_pairs", second.len() as u64);
    // unnormalised ones
    macro_rules! plain {
        ($t:ty, $name:literal, |$m:ident| $ok:expr) => {
            for kind in 0..ODD_KINDS {
                for n in [0usize, 1, 2, 3, 7, 50, 1000] {
                    tick();
                    let mut rng = Rationed(OddRng { kind, i: n as u64, sm: Sm::new(ctx.args.seed, 1200 + kind as u64) }, 4_000_000);
                    match guarded(|| Alg::<$t>::random_unnormalized_with_rng(n, &mut rng)) {
                        Err(e) if e.contains(RATION) => continue,
                        Err(e) => rep.violation(format!("unnormalised random {} of length {n}: {e}", $name), json!({})),
                        Ok(a) => {
                            rep.count("unnormalised_algs", 1);
                            if a.moves.len() != n {
                                rep.violation(format!("an unnormalised random alg of {} of length {n} has {} moves", $name, a.moves.len()), json!({}));
                            }
                            for $m in &a.moves {
                                if !$ok {
                                    rep.violation(format!("random {}: {:?}", $name, $m), json!({}));
                                }
                            }
                        }
                    }
                }
            }
        };
    }
    plain!(AxisMove, "face turns", |_m| true);
    plain!(QuarterAxisMove, "quarter turns", |_m| true);
    plain!(WideAxisMove<0>, "wide turns of limit 0", |m| m.depth() == 0);
    plain!(WideAxisMove<1>, "wide turns of limit 1", |m| m.depth() <= 1);
    plain!(WideAxisMove<2>, "wide turns of limit 2", |m| m.depth() <= 2);
    plain!(WideAxisMove<7>, "wide turns of limit 7", |m| m.depth() <= 7);
    plain!(WideAxisMove<{ u32::MAX }>, "wide turns", |_m| true);
    if guarded(|| Alg::<AxisMove>::random_unnormalized(33).moves.len()) != Ok(33) {
        rep.violation("an unnormalised random alg of length 33 has another length", json!({}));
    }
    tr.finish(rep);
}

// --------------------------------------------------------------- C22
fn connecting<C: Sut + Movable<AxisMove>>(ctx: &'static Ctx, rounds: usize, trace: bool) {
    let rep = &ctx.rep;
    let s = ctx.t.size(C::SIZE);
    let n = C::SIZE;
    let Some(proj) = project::<C>(ctx) else { return };
    let mut r = Sm::new(ctx.args.seed, 2200 + n as u64);
    let turns: Vec<T2> = FACE_SIGNED.iter().flat_map(|f| (1..=3).map(move |a| (*f, a))).collect();
    let mut tr = Tracer::new(&ctx.args, "TraceConnect", &format!("connect_{n}"), json!({"N": n}));
    let model = |c: &C| -> Option<Model> {
        match guarded(|| proj.observe(s, c)) {
            Ok(Ok(o)) => Model::from_obs(s, &o),
            _ => None,
        }
    };
    let links = |a: &Model, b: &Model| -> Vec<T2> {
        turns
            .iter()
            .copied()
            .filter(|t| {
                let mut x = a.clone();
                x.turn(&ctx.t, s, Turn { face: FACE_SIGNED.iter().position(|f| *f == t.0).unwrap(), amount: t.1, depth: 0 });
                x == *b
            })
            .collect()
    };
    let ask = |from: &C, to: &C, tr: Option<&mut Tracer>, what: &str| {
        tick();
        let (Some(a), Some(b)) = (model(from), model(to)) else {
            rep.violation(format!("cannot read a turned {n}x{n}x{n}"), json!({}));
            return;
        };
        let want = links(&a, &b);
        rep.count(if want.is_empty() { "asked_unconnected" } else { "asked_connected" }, 1);
        match guarded(|| connect::<AxisMove, C>(from, to)) {
            Err(e) => rep.violation(format!("connect on {n}x{n}x{n}, {what}: {e}"), json!({"case": what})),
            Ok(got) => {
                let got = got.map(|m| t2(&m));
                let ok = match got {
                    None => want.is_empty(),
                    Some(t) => want.contains(&t),
                };
                if !ok {
                    rep.violation(
                        format!("connect on a {n}x{n}x{n}, {what}: answers {:?}, the connecting turns are {:?}", got.map(|t| show(&[t])), show(&want)),
                        json!({"size": n, "case": what, "from": a.obs(s), "to": b.obs(s)}),
                    );
                }
                if let Some(tr) = tr {
                    let ans = got.map(|t| json!([t.0, t.1])).unwrap_or(json!([]));
                    rep.sample(json!({"size": n, "case": what, "answer": ans}));
                    tr.push(json!({"e": "connect", "from": a.obs(s), "to": b.obs(s), "ans": ans}));
                }
            }
        }
    };
    let md = s.maxdepth;
    for i in 0..rounds {
        if rep.too_many() {
            return;
        }
        let k = r.below(25);
        let c: C = turned(&mut r, md, k);
        let slot = trace && i < 3;
        ask(&c, &c, if slot { Some(&mut tr) } else { None }, "the same cube");
        for (k, t) in turns.iter().enumerate() {
            let d = c.clone().moved(&mv(*t));
            ask(&c, &d, if slot && k % 3 == 0 { Some(&mut tr) } else { None }, &show(&[*t]));
            let u = turns[(i * 7 + k * 5) % 18];
            let e = d.clone().moved(&mv(u));
            ask(&c, &e, if slot && k % 6 == 0 { Some(&mut tr) } else { None }, &show(&[*t, u]));
            if md > 0 {
                // turns no face turn can make
                let x = Turn { face: k / 3, amount: 1 + k % 3, depth: 1 + i % md };
                let mut e = c.clone();
                e.turn(x, 0);
                ask(&c, &e, if slot && k % 6 == 1 { Some(&mut tr) } else { None }, &x.show());
            }
        }
        let far: C = turned(&mut r, md, 20);
        ask(&c, &far, None, "another cube");
    }
    // lists of states
    for i in 0..rounds * 4 {
        tick();
        if rep.too_many() {
            return;
        }
        let k = r.below(25);
        let mut cur: C = turned(&mut r, md, k);
        let len = match i {
            0..=3 => i,
            20..=27 => *r.pick(&[33, 66, 130, 270]) + r.below(5),
            _ => r.below(12),
        };
        let gap = if r.chance(1, 2) { usize::MAX } else { r.below(len.max(1)) };
        let mut list: Vec<C> = vec![];
        for j in 0..len {
            list.push(cur.clone());
            if j == gap {
                match r.below(4) {
                    0 => continue,
                    1 if md > 0 => cur.turn(Turn { face: r.below(6), amount: 1 + r.below(3), depth: md }, 0),
                    _ => cur.apply(&mv(*r.pick(&turns))),
                }
            }
            cur.apply(&mv(*r.pick(&turns)));
        }
        let ms: Option<Vec<Model>> = list.iter().map(model).collect();
        let Some(ms) = ms else { continue };
        let want: Vec<Vec<T2>> = ms.windows(2).map(|w| links(&w[0], &w[1])).collect();
        let ok = want.iter().all(|l| !l.is_empty());
        rep.count(if ok { "lists_connected" } else { "lists_with_gaps" }, 1);
        for way in 0..2 {
            let got = guarded(|| {
                if way == 0 { Alg::<AxisMove>::try_from_states(&list).ok() } else { Alg::<AxisMove>::try_from(&list[..]).ok() }
            });
            let got = match got {
                Err(e) => {
                    rep.violation(format!("an alg from {len} states of a {n}x{n}x{n}: {e}"), json!({}));
                    continue;
                }
                Ok(x) => x.map(|a| a.moves.iter().map(t2).collect::<Vec<_>>()),
            };
            let good = match &got {
                None => !ok,
                Some(a) => ok && a.len() == want.len() && a.iter().zip(&want).all(|(t, w)| w.contains(t)),
            };
            if !good {
                rep.violation(
                    format!("an alg from {len} states of a {n}x{n}x{n} (gap {gap:?}): {:?}, the steps are {want:?}", got.as_ref().map(|a| show(a))),
                    json!({"size": n, "states": ms.iter().map(|m| m.obs(s)).collect::<Vec<_>>()}),
                );
            }
            if trace && i < 40 && way == i % 2 {
                tr.segments += 1;
                let a = got.clone().unwrap_or_default();
                tr.push(json!({"e": "states", "ss": ms.iter().map(|m| m.obs(s)).collect::<Vec<_>>(), "ok": got.is_some(), "alg": word_json(&a)}));
            }
        }
    }
    tr.finish(rep);
}

pub fn c22(ctx: &'static Ctx) {
    let k = if ctx.args.thorough { 40 } else { 4 };
    let jobs: Vec<Box<dyn FnOnce() + Send>> = vec![
        Box::new(move || connecting::<Cube2>(ctx, 40 * k, true)),
        Box::new(move || connecting::<Cube3>(ctx, 40 * k, true)),
        Box::new(move || connecting::<Cube4>(ctx, 4 * k, true)),
        Box::new(move || connecting::<Cube5>(ctx, 3 * k, false)),
        Box::new(move || connecting::<Cube6>(ctx, 2 * k, false)),
        Box::new(move || connecting::<Cube7>(ctx, 2 * k, false)),
    ];
    parallel(jobs);
}
