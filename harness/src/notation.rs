//! C07, C08, C25: parsers and printers against Notation.tla, depth limits against Depth.tla.
use crate::observe::*;
use crate::tables::read_json;
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::moves::rotation::AxisRotation;
use barbarosa::cube_n::moves::{Amount, ExtendedAxisMove, NonRedundantAxisMove};
use barbarosa::cube_n::space::{Axis, Face};
use barbarosa::cube_n::{AxisMove, WideAxisMove};
use barbarosa::generic::{Alg, Move, Parsable};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

/// A value of the specification: its sort and numbers.
type Val = (&'static str, Vec<i64>);
fn val_json(v: &Val) -> Value {
    let mut a = vec![json!(v.0)];
    for (i, x) in v.1.iter().enumerate() {
        a.push(if v.0 == "slice" && i == 2 { json!(*x == 1) } else { json!(x) });
    }
    Value::Array(a)
}
const SORTS: [&str; 8] = ["amount", "depth", "face", "axis", "turn", "wide", "rot", "slice"];
fn val_of(v: &Value) -> Option<Val> {
    let a = v.as_array().unwrap();
    let sort = SORTS.iter().find(|s| **s == a[0].as_str().unwrap())?;
    Some((sort, a[1..].iter().map(|x| x.as_i64().unwrap_or_else(|| x.as_bool().unwrap() as i64)).collect()))
}

/// The specification's reader of one kind of text.
pub struct Reader {
    moves: Vec<HashMap<char, usize>>,
    values: Vec<Option<Val>>,
}
impl Reader {
    fn read(&self, s: &str, limit: u32) -> Option<Val> {
        let mut at = 0;
        for c in s.chars() {
            at = *self.moves[at].get(&c)?;
        }
        self.values[at].clone().filter(|v| v.0 != "wide" || v.1[2] <= limit as i64)
    }
    fn texts(&self) -> Vec<String> {
        let mut out = vec![];
        let mut q = vec![(0usize, String::new())];
        while let Some((at, s)) = q.pop() {
            if self.values[at].is_some() {
                out.push(s.clone());
            }
            for (c, n) in &self.moves[at] {
                q.push((*n, format!("{s}{c}")));
            }
        }
        out.sort();
        out
    }
}
pub struct Notation {
    kinds: HashMap<String, Reader>,
    white: Vec<char>,
}
pub fn char_of(s: &str) -> char {
    match s.strip_prefix("U+") {
        Some(h) => char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap(),
        None => s.chars().next().unwrap(),
    }
}
pub fn char_name(c: char) -> String {
    if c == ' ' || c.is_ascii_graphic() { c.to_string() } else { format!("U+{:04X}", c as u32) }
}
pub fn text_json(s: &str) -> Value {
    json!(s.chars().map(char_name).collect::<Vec<_>>())
}
impl Notation {
    pub fn load(dir: &str) -> Notation {
        let v = read_json(&format!("{dir}/notation.json"));
        let mut kinds = HashMap::new();
        for k in v["kinds"].as_array().unwrap() {
            let values: Vec<Option<Val>> = k["values"].as_array().unwrap().iter().map(val_of).collect();
            let mut moves = vec![HashMap::new(); values.len()];
            for m in k["moves"].as_array().unwrap() {
                moves[m[0].as_u64().unwrap() as usize - 1]
                    .insert(char_of(m[1].as_str().unwrap()), m[2].as_u64().unwrap() as usize - 1);
            }
            kinds.insert(k["kind"].as_str().unwrap().to_string(), Reader { moves, values });
        }
        let white = v["white"].as_array().unwrap().iter().map(|x| char_of(x.as_str().unwrap())).collect();
        Notation { kinds, white }
    }
    fn read(&self, t: &Target, s: &str) -> Option<Val> {
        self.kinds[t.kind].read(s, t.limit)
    }
    fn read_line(&self, t: &Target, s: &str) -> Option<Vec<Val>> {
        s.split(|c| self.white.contains(&c)).filter(|x| !x.is_empty()).map(|x| self.read(t, x)).collect()
    }
}

// ---------------------------------------------------- values of the code
fn v_turn(m: &AxisMove) -> Val {
    ("turn", vec![face_signed(&m.face) as i64, amount_no(m.amount) as i64])
}
fn v_wide<const N: u32>(m: &WideAxisMove<N>) -> Val {
    ("wide", vec![face_signed(m.face()) as i64, amount_no(m.amount()) as i64, m.depth() as i64])
}
fn v_rot(m: &AxisRotation) -> Val {
    ("rot", vec![axis_no(m.axis) as i64 + 1, amount_no(m.amount) as i64])
}
fn v_ext(m: &ExtendedAxisMove) -> Val {
    match m {
        ExtendedAxisMove::Regular(m) => v_turn(m),
        ExtendedAxisMove::Rotation(m) => v_rot(m),
        ExtendedAxisMove::Wide(m) => v_wide(m),
        ExtendedAxisMove::Slice { rot, wide } => {
            ("slice", vec![axis_no(rot.axis) as i64 + 1, amount_no(rot.amount) as i64, *wide as i64])
        }
    }
}

type One = fn(&str) -> Option<Val>;
type Many = fn(&str) -> Option<Vec<Val>>;
/// Something of the code that reads text: the kind and limit it should read.
pub struct Target {
    name: &'static str,
    kind: &'static str,
    limit: u32,
    one: Option<One>,
    many: Option<Many>,
    /// Alg's other way in, TryFrom<&str>
    many2: Option<Many>,
}
fn wide_target<const N: u32>(name: &'static str) -> Target {
    Target {
        name,
        kind: "wide",
        limit: N,
        one: Some(|s| WideAxisMove::<N>::parse(s).ok().map(|m| v_wide(&m))),
        many: Some(|s| Alg::<WideAxisMove<N>>::parse(s).ok().map(|a| a.moves.iter().map(v_wide).collect())),
        many2: Some(|s| Alg::<WideAxisMove<N>>::try_from(s).ok().map(|a| a.moves.iter().map(v_wide).collect())),
    }
}
fn targets() -> Vec<Target> {
    let t = |name, kind, one: One| Target { name, kind, limit: u32::MAX, one: Some(one), many: None, many2: None };
    vec![
        t("Amount", "amount", |s| Amount::parse(s).ok().map(|a| ("amount", vec![amount_no(a) as i64]))),
        t("Face", "face", |s| Face::parse(s).ok().map(|f| ("face", vec![face_signed(&f) as i64]))),
        t("Axis", "axis", |s| Axis::parse(s).ok().map(|x| ("axis", vec![axis_no(x) as i64 + 1]))),
        t("depth", "depth", |s| <u32 as Parsable>::parse(s).ok().map(|x| ("depth", vec![x as i64]))),
        Target {
            name: "AxisMove",
            kind: "turn",
            limit: u32::MAX,
            one: Some(|s| AxisMove::parse(s).ok().map(|m| v_turn(&m))),
            many: Some(|s| Alg::<AxisMove>::parse(s).ok().map(|a| a.moves.iter().map(v_turn).collect())),
            many2: Some(|s| Alg::<AxisMove>::try_from(s).ok().map(|a| a.moves.iter().map(v_turn).collect())),
        },
        Target {
            name: "AxisRotation",
            kind: "rotation",
            limit: u32::MAX,
            one: Some(|s| AxisRotation::parse(s).ok().map(|m| v_rot(&m))),
            many: None,
            many2: None,
        },
        Target {
            name: "ExtendedAxisMove",
            kind: "extended",
            limit: u32::MAX,
            one: Some(|s| ExtendedAxisMove::parse(s).ok().map(|m| v_ext(&m))),
            many: Some(|s| Alg::<ExtendedAxisMove>::parse(s).ok().map(|a| a.moves.iter().map(v_ext).collect())),
            many2: Some(|s| Alg::<ExtendedAxisMove>::try_from(s).ok().map(|a| a.moves.iter().map(v_ext).collect())),
        },
        wide_target::<0>("WideAxisMove<0>"),
        wide_target::<1>("WideAxisMove<1>"),
        wide_target::<2>("WideAxisMove<2>"),
        wide_target::<3>("WideAxisMove<3>"),
        wide_target::<5>("WideAxisMove<5>"),
        wide_target::<8>("WideAxisMove<8>"),
        wide_target::<9>("WideAxisMove<9>"),
        wide_target::<{ u32::MAX }>("WideAxisMove<MAX>"),
    ]
}

/// One text given to one parser: what is wrong with the answer, if anything.
fn judge(n: &Notation, t: &Target, s: &str) -> Option<String> {
    let want = n.read(t, s);
    match guarded(|| (t.one.unwrap())(s)) {
        Err(e) => Some(format!("{} panics on {s:?}: {e}", t.name)),
        Ok(got) if got == want => None,
        Ok(got) => Some(format!("{} reads {s:?} as {got:?}, it is {want:?}", t.name)),
    }
}
fn judge_line(n: &Notation, t: &Target, s: &str) -> Option<String> {
    let want = n.read_line(t, s);
    for f in [t.many, t.many2].into_iter().flatten() {
        match guarded(|| f(s)) {
            Err(e) => return Some(format!("an alg of {} panics on {s:?}: {e}", t.name)),
            Ok(got) if got == want => (),
            Ok(got) => return Some(format!("an alg of {} reads {s:?} as {got:?}, it is {want:?}", t.name)),
        }
    }
    None
}

/// characters outside the grammar, near it in one way or another
const STRANGE: [char; 40] = [
    ' ', '\t', '\n', '\r', '\0', '\u{7f}', '\u{a0}', '\u{200b}', '\u{feff}', '\u{2028}', '\u{3000}', '.', '-', '+', '_', '/', '*', '(', ')', '"',
    'W', 'X', 'm', 'A', 'q', 'ß', 'é', '²', '½', '٣', '２', 'Ⅷ', '’', '′', 'ʼ', 'ᵣ', 'Ｒ', 'Ʀ', '\u{301}', '🎲',
];
fn grammar_chars() -> Vec<char> {
    "RUFLDBrufldbw0123456789'xyzMESmes".chars().collect()
}
fn rand_char(r: &mut Sm, near: &[char]) -> char {
    match r.below(10) {
        0 => char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}'),
        1 => *r.pick(&STRANGE),
        2 => (r.below(128) as u8) as char,
        _ => *r.pick(near),
    }
}
/// a valid text of the kind, or one changed in one to three places
fn near_text(r: &mut Sm, valid: &[String], chars: &[char]) -> String {
    let mut s: Vec<char> = r.pick(valid).chars().collect();
    for _ in 0..r.below(4) {
        match r.below(5) {
            0 if !s.is_empty() => {
                let i = r.below(s.len());
                s.remove(i);
            }
            1 => {
                let i = r.below(s.len() + 1);
                s.insert(i, rand_char(r, chars));
            }
            2 if !s.is_empty() => {
                let i = r.below(s.len());
                s[i] = rand_char(r, chars);
            }
            3 if !s.is_empty() => {
                let i = r.below(s.len());
                let c = s[i];
                s.insert(i, c);
            }
            4 if s.len() > 1 => {
                let i = r.below(s.len() - 1);
                s.swap(i, i + 1);
            }
            _ => (),
        }
    }
    s.into_iter().collect()
}
fn rand_white(r: &mut Sm, n: &Notation) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(3) {
        s.push(if r.chance(2, 3) { ' ' } else { *r.pick(&n.white) });
    }
    s
}
fn rand_line(r: &mut Sm, n: &Notation, valid: &[String], chars: &[char], bad: bool) -> String {
    let k = r.below(8);
    let at = r.below(k.max(1));
    let mut s = if r.chance(1, 4) { rand_white(r, n) } else { String::new() };
    for i in 0..k {
        if i > 0 {
            // sometimes nothing at all between two tokens
            if !(bad && r.chance(1, 12)) {
                s += &rand_white(r, n);
            }
        }
        if bad && i == at {
            s += &near_text(r, valid, chars);
        } else {
            s += r.pick(valid);
        }
    }
    if r.chance(1, 4) {
        s += &rand_white(r, n);
    }
    s
}

/// Lines of moves of a kind, valid or nearly.
pub struct Lines {
    n: Notation,
    valid: Vec<String>,
    chars: Vec<char>,
}
impl Lines {
    #[allow(dead_code)]
    pub fn load(dir: &str, kind: &str) -> Lines {
        let n = Notation::load(dir);
        Lines { valid: n.kinds[kind].texts(), n, chars: grammar_chars() }
    }
    #[allow(dead_code)]
    pub fn line(&self, r: &mut Sm, bad: bool) -> String {
        rand_line(r, &self.n, &self.valid, &self.chars, bad)
    }
}

pub fn c07(ctx: &'static Ctx) {
    let n = Notation::load(&ctx.args.dir);
    let rep = &ctx.rep;
    let ts = targets();
    let mut all: Vec<char> = grammar_chars();
    let core = all.clone();
    all.extend(STRANGE);
    all.sort();
    all.dedup();
    // every text of up to three characters, and of four from the grammar's own
    let longest = if ctx.args.thorough { 5 } else { 4 };
    let (n, ts, all, core) = (&n, &ts, &all, &core);
    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    for t in ts {
        for (i, first) in std::iter::once(None).chain(all.iter().map(Some)).enumerate() {
            let job = move || {
                let mut count = 0u64;
                let check = |s: &str| {
                    if let Some(w) = judge(n, t, s) {
                        rep.violation(w, json!({"text": s, "type": t.name}));
                        return rep.too_many();
                    }
                    rep.too_many()
                };
                let Some(first) = first else {
                    check("");
                    return;
                };
                let mut stack = vec![first.to_string()];
                while let Some(s) = stack.pop() {
                    count += 1;
                    if count % 4096 == 0 {
                        tick();
                    }
                    if check(&s) {
                        return;
                    }
                    let len = s.chars().count();
                    if len < 3 {
                        for c in all {
                            stack.push(format!("{s}{c}"));
                        }
                    } else if len < longest && s.chars().all(|c| core.contains(&c)) {
                        for c in core {
                            stack.push(format!("{s}{c}"));
                        }
                    }
                }
                rep.count("texts_tried", count);
                let _ = i;
            };
            jobs.push(Box::new(job));
        }
    }
    parallel(jobs);
    if rep.failed() {
        return;
    }
    // every valid text of every kind, and near misses of all lengths
    let per = if ctx.args.thorough { 3_000_000 } else { 250_000 };
    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    for (k, t) in ts.iter().enumerate() {
        jobs.push(Box::new(move || {
            let mut r = Sm::new(ctx.args.seed, 700 + k as u64);
            let valid = n.kinds[t.kind].texts();
            for s in &valid {
                if let Some(w) = judge(n, t, s) {
                    rep.violation(w, json!({"text": s, "type": t.name}));
                }
            }
            rep.count("valid_texts", valid.len() as u64);
            let (mut good, mut bad) = (0u64, 0u64);
            for i in 0..per {
                if i % 1024 == 0 {
                    tick();
                    if rep.too_many() {
                        return;
                    }
                }
                let s = match r.below(12) {
                    0 => (0..r.below(30)).map(|_| rand_char(&mut r, core)).collect(),
                    1 => format!("{}{}", near_text(&mut r, &valid, core), near_text(&mut r, &valid, core)),
                    _ => near_text(&mut r, &valid, core),
                };
                if n.read(t, &s).is_some() { good += 1 } else { bad += 1 }
                if let Some(w) = judge(n, t, &s) {
                    rep.violation(w, json!({"text": s, "type": t.name}));
                }
                // whole algs
                if t.many.is_some() && i % 4 == 0 {
                    let wrong = r.chance(1, 2);
                    let line = rand_line(&mut r, n, &valid, core, wrong);
                    rep.count(if n.read_line(t, &line).is_some() { "lines_valid" } else { "lines_invalid" }, 1);
                    if let Some(w) = judge_line(n, t, &line) {
                        rep.violation(w, json!({"line": line, "type": t.name}));
                    }
                }
            }
            rep.count("near_texts_valid", good);
            rep.count("near_texts_invalid", bad);
        }));
    }
    parallel(jobs);
    if rep.failed() {
        return;
    }
    // one bad token anywhere in a long alg, and very long algs
    let mut r = Sm::new(ctx.args.seed, 790);
    for t in ts.iter().filter(|t| t.many.is_some()) {
        let valid: Vec<String> = n.kinds[t.kind].texts().into_iter().filter(|s| n.read(t, s).is_some()).collect();
        let toks: Vec<String> = (0..64).map(|_| r.pick(&valid).clone()).collect();
        for at in 0..=64 {
            tick();
            let mut ts2 = toks.clone();
            if at < 64 {
                loop {
                    ts2[at] = near_text(&mut r, &valid, core);
                    if !ts2[at].is_empty() && n.read(t, &ts2[at]).is_none() {
                        break;
                    }
                }
            }
            if let Some(w) = judge_line(n, t, &ts2.join(" ")) {
                rep.violation(w, json!({"line": ts2.join(" "), "type": t.name}));
            }
            rep.count("long_lines", 1);
        }
        let long: Vec<String> = (0..20_000).map(|_| r.pick(&valid).clone()).collect();
        if let Some(w) = judge_line(n, t, &long.join("  ")) {
            rep.violation(w.chars().take(300).collect::<String>(), json!({"type": t.name}));
        }
    }
    // a recording for TLC
    let mut tr = Tracer::new(&ctx.args, "TraceNotation", "notation", json!({}));
    let mut r = Sm::new(ctx.args.seed, 791);
    for t in ts {
        let valid = n.kinds[t.kind].texts();
        tr.segments += 1;
        let limit = t.limit.min(1_000_000);
        for i in 0..80 {
            tick();
            let s = if i == 0 { String::new() } else { near_text(&mut r, &valid, core) };
            let Ok(got) = guarded(|| (t.one.unwrap())(&s)) else { continue };
            let v = got.as_ref().map(val_json).unwrap_or(json!([]));
            if i < 2 {
                rep.sample(json!({"type": t.name, "text": s, "read_as": v}));
            }
            tr.push(json!({"e": "read", "kind": t.kind, "limit": limit, "text": text_json(&s), "ok": got.is_some(), "value": v}));
            if let Some(f) = t.many {
                let bad = r.chance(1, 3);
                let s = rand_line(&mut r, n, &valid, core, bad);
                let Ok(got) = guarded(|| f(&s)) else { continue };
                let vs: Vec<Value> = got.iter().flatten().map(val_json).collect();
                tr.push(json!({"e": "line", "kind": t.kind, "limit": limit, "text": text_json(&s), "ok": got.is_some(), "values": vs}));
            }
        }
    }
    tr.finish(rep);
}

// --------------------------------------------------------------- C08
fn all_turns() -> Vec<AxisMove> {
    let mut v = vec![];
    for f in FACES {
        for a in AMOUNTS {
            v.push(AxisMove::new(f.clone(), a));
        }
    }
    v
}
/// The finding "print-depth": a wide turn of depth d >= 2 is printed with d + 1 in front.
fn known_print(v: &Val, got: &Result<String, String>) -> Option<&'static str> {
    if v.0 != "wide" || v.1[2] < 2 {
        return None;
    }
    let rest = format!(
        "{}w{}",
        "RUFLDB".chars().nth(crate::tables::FACE_SIGNED.iter().position(|x| *x as i64 == v.1[0])?)?,
        ["", "2", "'"][v.1[1] as usize - 1]
    );
    if v.1[2] == u32::MAX as i64 {
        // one more than the largest number
        return match got {
            Err(e) if e.contains("overflow") => Some("print-depth-max"),
            _ => None,
        };
    }
    (got.as_ref().ok()? == &format!("{}{rest}", v.1[2] + 1)).then_some("print-depth")
}

struct Printing<'a> {
    n: &'a Notation,
    ctx: &'static Ctx,
    texts: HashMap<(&'static str, String), Val>,
}
impl Printing<'_> {
    /// text printed for a value of the kind; does the specification read it back?
    fn one(&mut self, what: &'static str, kind: &'static str, v: Val, got: Result<String, String>) {
        tick();
        let rep = &self.ctx.rep;
        rep.count("values_printed", 1);
        let problem = match &got {
            Err(e) => Some(e.clone()),
            Ok(s) => {
                let back = self.n.kinds[kind].read(s, u32::MAX);
                if back.as_ref() != Some(&v) {
                    Some(format!("{s:?}, which is {back:?}"))
                } else {
                    None
                }
            }
        };
        if let Some(p) = problem {
            match known_print(&v, &got) {
                Some(key) => rep.known(key, format!("{what} {v:?} prints {p}")),
                None => rep.violation(format!("{what} {v:?} prints {p}"), json!({"value": val_json(&v), "text": p})),
            }
        }
        if let Ok(s) = got {
            if let Some(other) = self.texts.insert((what, s.clone()), v.clone()) {
                if other != v {
                    rep.violation(format!("{what}: {other:?} and {v:?} both print {s:?}"), json!({"text": s}));
                }
            }
        }
    }
}
fn wide_values<const N: u32>(p: &mut Printing, name: &'static str, back: bool) {
    let mut depths: Vec<u32> = (0..=N.min(30)).collect();
    for d in [99, 100, 1000, u32::MAX / 2, u32::MAX - 1, u32::MAX] {
        if d <= N && !depths.contains(&d) {
            depths.push(d);
        }
    }
    for d in depths {
        for m in all_turns() {
            let w = WideAxisMove::<N>::new(m.face.clone(), m.amount, d).unwrap();
            let got = guarded(|| w.to_string());
            p.one(name, "wide", v_wide(&w), got.clone());
            // and through the code's own parser, at the depths that print well
            if back && d < 2 {
                if let Ok(s) = got {
                    let r = guarded(|| WideAxisMove::<N>::parse(&s).ok());
                    if r != Ok(Some(w.clone())) {
                        p.ctx.rep.violation(format!("{name} {w:?} prints {s:?}, parsed as {r:?}"), json!({"text": s}));
                    }
                }
            }
        }
    }
}

pub fn c08(ctx: &'static Ctx) {
    let n = Notation::load(&ctx.args.dir);
    let rep = &ctx.rep;
    let mut p = Printing { n: &n, ctx, texts: HashMap::new() };
    for a in AMOUNTS {
        p.one("Amount", "amount", ("amount", vec![amount_no(a) as i64]), guarded(|| a.to_string()));
    }
    for f in FACES {
        p.one("Face", "face", ("face", vec![face_signed(&f) as i64]), guarded(|| f.to_string()));
    }
    for m in all_turns() {
        let got = guarded(|| m.to_string());
        p.one("AxisMove", "turn", v_turn(&m), got.clone());
        if let Ok(s) = got {
            let r = guarded(|| AxisMove::parse(&s).ok());
            if r != Ok(Some(m.clone())) {
                rep.violation(format!("{m:?} prints {s:?}, parsed as {r:?}"), json!({"text": s}));
            }
        }
    }
    wide_values::<0>(&mut p, "WideAxisMove<0>", true);
    wide_values::<1>(&mut p, "WideAxisMove<1>", true);
    wide_values::<2>(&mut p, "WideAxisMove<2>", true);
    wide_values::<3>(&mut p, "WideAxisMove<3>", true);
    wide_values::<9>(&mut p, "WideAxisMove<9>", true);
    wide_values::<{ u32::MAX }>(&mut p, "WideAxisMove<MAX>", true);
    rep.set("distinct_texts", p.texts.len() as u64);

    // combined moves print as the alg of their parts
    for m in NonRedundantAxisMove::all() {
        let got = guarded(|| m.to_string());
        let parts: Vec<Val> = m.moves().map(|x| v_turn(&x)).collect();
        line(ctx, &n, "NonRedundantAxisMove", "turn", &parts, got, &mut None);
    }
    // algs
    let mut tr = Tracer::new(&ctx.args, "TraceNotation", "printing", json!({}));
    let mut r = Sm::new(ctx.args.seed, 800);
    let turns = all_turns();
    let per = if ctx.args.thorough { 200_000 } else { 20_000 };
    let mut seen: HashMap<String, Vec<Val>> = HashMap::new();
    for i in 0..per {
        if i % 512 == 0 {
            tick();
            if rep.too_many() {
                break;
            }
        }
        let k = match i {
            0..=400 => i % 4,
            401 => 3000,
            _ => r.below(24),
        };
        let moves: Vec<AxisMove> = (0..k).map(|_| r.pick(&turns).clone()).collect();
        let vals: Vec<Val> = moves.iter().map(v_turn).collect();
        let alg = Alg::<AxisMove>::new(moves.clone());
        let got = guarded(|| alg.to_string());
        let mut slot = if i < 150 { Some(&mut tr) } else { None };
        line(ctx, &n, "Alg<AxisMove>", "turn", &vals, got.clone(), &mut slot);
        if let Ok(s) = got {
            let back = guarded(|| Alg::<AxisMove>::parse(&s).ok());
            if back != Ok(Some(alg.clone())) {
                rep.violation(format!("the alg {s:?} does not parse back: {back:?}"), json!({"text": s}));
            }
            if s.len() < 12 {
                if let Some(o) = seen.insert(s.clone(), vals.clone()) {
                    if o != vals {
                        rep.violation(format!("two algs print {s:?}"), json!({"text": s}));
                    }
                }
            }
        }
        // wide turns, at the depths outside the finding
        let wides: Vec<WideAxisMove<3>> =
            moves.iter().map(|m| m.clone().widen::<3>(r.below(2) as u32).unwrap()).collect();
        let vals: Vec<Val> = wides.iter().map(v_wide).collect();
        let alg = Alg::<WideAxisMove<3>>::new(wides);
        let got = guarded(|| alg.to_string());
        let mut slot = if i < 100 { Some(&mut tr) } else { None };
        line(ctx, &n, "Alg<WideAxisMove>", "wide", &vals, got.clone(), &mut slot);
        if let Ok(s) = got {
            let back = guarded(|| Alg::<WideAxisMove<3>>::parse(&s).ok());
            if back != Ok(Some(alg)) {
                rep.violation(format!("the wide alg {s:?} does not parse back: {back:?}"), json!({"text": s}));
            }
        }
        // and at all depths: the alg prints as its moves do
        let wides: Vec<WideAxisMove<7>> =
            moves.iter().map(|m| m.clone().widen::<7>(r.below(8) as u32).unwrap()).collect();
        let alg = Alg::<WideAxisMove<7>>::new(wides);
        let parts = guarded(|| alg.moves.iter().map(|m| m.to_string()).collect::<Vec<_>>().join(" "));
        let whole = guarded(|| alg.to_string());
        if parts != whole {
            rep.violation(format!("an alg prints {whole:?}, its moves {parts:?}"), json!({}));
        }
    }
    // a recording of single moves
    for m in all_turns() {
        for d in 0..2 {
            let w = m.clone().widen::<5>(d).unwrap();
            if let Ok(s) = guarded(|| w.to_string()) {
                tr.push(json!({"e": "print", "kind": "wide", "value": val_json(&v_wide(&w)), "text": text_json(&s)}));
            }
        }
        if let Ok(s) = guarded(|| m.to_string()) {
            rep.sample(json!({"value": val_json(&v_turn(&m)), "text": s}));
            tr.push(json!({"e": "print", "kind": "turn", "value": val_json(&v_turn(&m)), "text": text_json(&s)}));
        }
    }
    tr.segments = 3;
    tr.finish(rep);
}
fn line(ctx: &'static Ctx, n: &Notation, what: &str, kind: &'static str, vals: &[Val], got: Result<String, String>, tr: &mut Option<&mut Tracer>) {
    let rep = &ctx.rep;
    rep.count("algs_printed", 1);
    let s = match got {
        Ok(s) => s,
        Err(e) => {
            rep.violation(format!("printing {what} {vals:?}: {e}"), json!({}));
            return;
        }
    };
    // single spaces between the moves, nothing around them
    let toks: Vec<&str> = if s.is_empty() { vec![] } else { s.split(' ').collect() };
    let read: Vec<Option<Val>> = toks.iter().map(|x| n.kinds[kind].read(x, u32::MAX)).collect();
    let want: Vec<Option<Val>> = vals.iter().cloned().map(Some).collect();
    if read != want {
        rep.violation(format!("{what} {vals:?} prints {s:?}"), json!({"text": s, "values": vals.iter().map(val_json).collect::<Vec<_>>()}));
    } else if let Some(t) = tr {
        t.push(json!({"e": "printline", "kind": kind, "values": vals.iter().map(val_json).collect::<Vec<_>>(), "text": text_json(&s)}));
    }
}

// --------------------------------------------------------------- C25
struct Depths {
    points: Vec<u32>,
    within: Vec<Vec<bool>>,
}
/// A wide turn of any of the limits.
trait Limited {
    fn seen(&self) -> (u32, i32, usize);
    fn set_depth(&mut self, d: u32) -> bool;
    fn set_max(self: Box<Self>, m: u32) -> Option<Box<dyn Limited>>;
    fn invert(&self) -> Box<dyn Limited>;
    fn as_extended(&self) -> ExtendedAxisMove;
    fn boxed(&self) -> Box<dyn Limited>;
}
macro_rules! limits {
    ($m:expr, $L:ident => $e:expr) => {
        match $m {
            0 => { const $L: u32 = 0; $e }
            1 => { const $L: u32 = 1; $e }
            2 => { const $L: u32 = 2; $e }
            3 => { const $L: u32 = 3; $e }
            4 => { const $L: u32 = 4; $e }
            5 => { const $L: u32 = 5; $e }
            6 => { const $L: u32 = 6; $e }
            8 => { const $L: u32 = 8; $e }
            9 => { const $L: u32 = 9; $e }
            10 => { const $L: u32 = 10; $e }
            100 => { const $L: u32 = 100; $e }
            2147483647 => { const $L: u32 = 2147483647; $e }
            2147483648 => { const $L: u32 = 2147483648; $e }
            4294967294 => { const $L: u32 = 4294967294; $e }
            4294967295 => { const $L: u32 = 4294967295; $e }
            x => panic!("harness: no limit {x}"),
        }
    };
}
impl<const N: u32> Limited for WideAxisMove<N> {
    fn seen(&self) -> (u32, i32, usize) {
        (self.depth(), face_signed(self.face()), amount_no(self.amount()))
    }
    fn set_depth(&mut self, d: u32) -> bool {
        told(WideAxisMove::<N>::set_depth(self, d)).is_some()
    }
    fn set_max(self: Box<Self>, m: u32) -> Option<Box<dyn Limited>> {
        limits!(m, L => ok_told(self.set_max_depth::<L>()))
    }
    fn invert(&self) -> Box<dyn Limited> {
        Box::new(self.inverse())
    }
    fn as_extended(&self) -> ExtendedAxisMove {
        self.clone().into()
    }
    fn boxed(&self) -> Box<dyn Limited> {
        Box::new(self.clone())
    }
}
thread_local! {
    /// What the last refusal told: the depth and the limit.
    static TOLD: std::cell::Cell<Option<(u32, u32)>> = const { std::cell::Cell::new(None) };
}
fn told<T, E: std::fmt::Display>(r: Result<T, E>) -> Option<T> {
    TOLD.with(|t| t.set(None));
    match r {
        Ok(x) => Some(x),
        Err(e) => {
            // the numbers named in the message, in order
            let text = e.to_string();
            let v: Vec<u32> = text
                .split(|c: char| !c.is_ascii_digit())
                .filter_map(|x| x.parse().ok())
                .collect();
            if let [d, m] = v[..] {
                TOLD.with(|t| t.set(Some((d, m))));
            }
            None
        }
    }
}
fn ok_told<const N: u32, E: std::fmt::Display>(r: Result<WideAxisMove<N>, E>) -> Option<Box<dyn Limited>> {
    told(r).map(|x| Box::new(x) as Box<dyn Limited>)
}
fn ok_box<const N: u32, E>(r: Result<WideAxisMove<N>, E>) -> Option<Box<dyn Limited>> {
    r.ok().map(|x| Box::new(x) as Box<dyn Limited>)
}
/// the ways to make one
fn make(m: u32, how: usize, f: &Face, a: Amount, d: u32) -> Option<Box<dyn Limited>> {
    limits!(m, L => match how {
        0 => ok_told(WideAxisMove::<L>::new(f.clone(), a, d)),
        1 => ok_told(AxisMove::new(f.clone(), a).widen::<L>(d)),
        _ => ok_told(Alg::<AxisMove>::new(vec![AxisMove::new(f.clone(), a)]).widen::<L>(d).map(|mut x| x.moves.pop().expect("one move"))),
    })
}
fn parse_at(m: u32, s: &str) -> Option<Box<dyn Limited>> {
    limits!(m, L => ok_box(WideAxisMove::<L>::parse(s)))
}
fn widen_alg(m: u32, moves: &[AxisMove], d: u32) -> Option<Vec<(u32, i32, usize)>> {
    limits!(m, L => told(Alg::<AxisMove>::new(moves.to_vec()).widen::<L>(d)).map(|x| x.moves.iter().map(|w| w.seen()).collect()))
}
fn random_at(m: u32, r: &mut rand::rngs::StdRng) -> (u32, i32, usize) {
    use rand::Rng;
    limits!(m, L => r.gen::<WideAxisMove<L>>().seen())
}

pub fn c25(ctx: &'static Ctx) {
    let rep = &ctx.rep;
    let v = read_json(&format!("{}/depth.json", ctx.args.dir));
    let ds = Depths {
        points: v["points"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect(),
        within: v["within"].as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|b| b.as_bool().unwrap()).collect()).collect(),
    };
    let bad = |what: String| rep.violation(what.clone(), json!(what));
    // all limits, depths, ways to make, faces and amounts
    for (mi, &m) in ds.points.iter().enumerate() {
        for (di, &d) in ds.points.iter().enumerate() {
            tick();
            if rep.too_many() {
                return;
            }
            let fits = ds.within[mi][di];
            for f in &FACES {
                for a in AMOUNTS {
                    for how in 0..3 {
                        rep.count("made", 1);
                        let name = ["new", "widen", "widen of an alg"][how];
                        match guarded(|| make(m, how, f, a, d).map(|x| x.seen())) {
                            Err(e) => bad(format!("{name}: limit {m}, depth {d}: {e}")),
                            Ok(got) => {
                                let want = fits.then(|| (d, face_signed(f), amount_no(a)));
                                if got != want {
                                    bad(format!("{name}: limit {m}, depth {d}, {f}{a}: {got:?} instead of {want:?}"));
                                }
                                let why = TOLD.with(|t| t.get());
                                if !fits && why != Some((d, m)) {
                                    bad(format!("{name}: limit {m}, depth {d}: the error tells of {why:?}"));
                                }
                            }
                        }
                    }
                    // parsing, at the depths that can be written
                    if d <= 9 {
                        let text = match d {
                            0 => format!("{f}{a}"),
                            1 => format!("{f}w{a}"),
                            _ => format!("{d}{f}w{a}"),
                        };
                        let small = format!("{}{}{a}", d.max(1), f.to_string().to_lowercase());
                        for (text, deep) in [(text, d), (small, d.max(1))] {
                            let fits = deep <= m;
                            rep.count("parsed", 1);
                            match guarded(|| parse_at(m, &text).map(|x| x.seen())) {
                                Err(e) => bad(format!("parsing {text:?} with limit {m}: {e}")),
                                Ok(got) => {
                                    let want = fits.then(|| (deep, face_signed(f), amount_no(a)));
                                    if got != want {
                                        bad(format!("parsing {text:?} with limit {m}: {got:?} instead of {want:?}"));
                                    }
                                }
                            }
                        }
                    }
                    // changes to an existing one
                    if !fits {
                        continue;
                    }
                    let Ok(Some(w)) = guarded(|| make(m, 0, f, a, d)) else { continue };
                    for (ei, &e) in ds.points.iter().enumerate() {
                        rep.count("changed", 2);
                        let fits2 = ds.within[mi][ei];
                        let got = guarded(|| {
                            let mut x = w.boxed();
                            let ok = x.set_depth(e);
                            (ok, x.seen())
                        });
                        let want = (fits2, (if fits2 { e } else { d }, face_signed(f), amount_no(a)));
                        if got != Ok(want) {
                            bad(format!("limit {m}, {f}{a} of depth {d} set to depth {e}: {got:?} instead of {want:?}"));
                        }
                        let got = guarded(|| {
                            w.boxed().set_max(e).map(|mut x| {
                                let s = x.seen();
                                // the new limit is in force
                                (s, x.set_depth(e), e == u32::MAX || !x.set_depth(e + 1))
                            })
                        });
                        let want = ds.within[ei][di].then(|| ((d, face_signed(f), amount_no(a)), true, true));
                        if got != Ok(want) {
                            bad(format!("limit {m}, {f}{a} of depth {d} to limit {e}: {got:?} instead of {want:?}"));
                        }
                    }
                    let got = guarded(|| w.invert().seen());
                    if got != Ok((d, face_signed(f), 4 - amount_no(a))) {
                        bad(format!("inverse of {f}{a} of depth {d}: {got:?}"));
                    }
                    match guarded(|| w.as_extended()) {
                        Ok(ExtendedAxisMove::Wide(x)) if x.seen() == w.seen() => (),
                        other => bad(format!("{f}{a} of depth {d}, limit {m} as an extended move: {other:?}")),
                    }
                }
            }
        }
    }
    // every small depth against every small limit, through set_depth one by one
    for &m in &ds.points {
        for d in 0..300u32 {
            rep.count("made", 1);
            let got = guarded(|| make(m, 0, &Face::R, Amount::Single, d).is_some());
            if got != Ok(d <= m) {
                bad(format!("limit {m}, depth {d}: {got:?}"));
            }
        }
        // random ones
        use rand::SeedableRng;
        let mut r = rand::rngs::StdRng::seed_from_u64(ctx.args.seed ^ 25);
        let mut seen = HashSet::new();
        for _ in 0..400 {
            match guarded(|| random_at(m, &mut r)) {
                Ok(s) if s.0 <= m => {
                    seen.insert(s.0);
                }
                other => bad(format!("random turn with limit {m}: {other:?}")),
            }
        }
        rep.count("random", 400);
    }
    if rep.failed() {
        return;
    }
    // lives of wide turns, for TLC
    let mut tr = Tracer::new(&ctx.args, "TraceDepth", "depth", json!({}));
    let mut r = Sm::new(ctx.args.seed, 2500);
    let ordinal = |d: u32| ds.points.iter().position(|x| *x == d).map(|i| i + 1);
    // what the last refusal told, as ordinals
    let told_of = |ok: bool| match TOLD.with(|t| t.get()) {
        _ if ok => json!([]),
        None => json!([]),
        Some((d, m)) => json!([ordinal(d).unwrap_or(0), ordinal(m).unwrap_or(0)]),
    };
    let steps = if ctx.args.thorough { 12_000 } else { 2_500 };
    let mut cur: Option<(usize, Box<dyn Limited>)> = None;
    tr.segments = 1;
    for i in 0..steps {
        tick();
        let p = ds.points.len();
        let pi = r.below(p);
        // mostly around the limit at hand
        let di = match &cur {
            Some((m, _)) if r.chance(1, 2) => (m + r.below(3)).saturating_sub(1).min(p - 1),
            _ => r.below(p),
        };
        let mut e;
        let ok;
        match (r.below(6), cur.take()) {
            (0, old) | (1, old @ None) | (2, old @ None) | (3, old @ None) => {
                let (f, a) = (r.pick(&FACES).clone(), *r.pick(&AMOUNTS));
                let made = guarded(|| make(ds.points[pi], i % 3, &f, a, ds.points[di])).unwrap_or(None);
                ok = made.is_some();
                cur = made.map(|x| (pi, x)).or(old);
                e = json!({"e": "new", "m": pi + 1, "d": di + 1, "f": face_signed(&f), "a": amount_no(a)});
            }
            (1, Some((m, mut x))) => {
                ok = guarded(|| x.set_depth(ds.points[di])).unwrap_or(false);
                cur = Some((m, x));
                e = json!({"e": "setdepth", "d": di + 1});
            }
            (2, Some((_, x))) => {
                let y = guarded(|| x.set_max(ds.points[di])).unwrap_or(None);
                ok = y.is_some();
                cur = y.map(|y| (di, y));
                e = json!({"e": "setmax", "m": di + 1});
            }
            (3, Some((m, x))) => {
                cur = Some((m, x.invert()));
                ok = true;
                e = json!({"e": "invert"});
            }
            (4, old) => {
                cur = old;
                let moves: Vec<AxisMove> = (0..r.below(5)).map(|_| AxisMove::new(r.pick(&FACES).clone(), *r.pick(&AMOUNTS))).collect();
                let got = guarded(|| widen_alg(ds.points[pi], &moves, ds.points[di])).unwrap_or(None);
                let turns: Vec<Value> = got.iter().flatten().map(|(d, f, a)| json!([pi + 1, ordinal(*d).unwrap_or(0), f, a])).collect();
                let mv: Vec<Value> = moves.iter().map(|m| json!([face_signed(&m.face), amount_no(m.amount)])).collect();
                tr.push(json!({"e": "widen", "m": pi + 1, "d": di + 1, "moves": mv, "ok": got.is_some(), "turns": turns, "told": told_of(got.is_some())}));
                continue;
            }
            (_, _) => {
                tr.segments += 1;
                tr.push(json!({"e": "drop"}));
                continue;
            }
        }
        let turn = match &cur {
            None => json!([]),
            Some((m, x)) => {
                let (d, f, a) = x.seen();
                json!([m + 1, ordinal(d).unwrap_or(0), f, a])
            }
        };
        e["ok"] = json!(ok);
        e["turn"] = turn;
        e["told"] = told_of(ok);
        rep.sample(e.clone());
        tr.push(e);
    }
    tr.finish(rep);
}
