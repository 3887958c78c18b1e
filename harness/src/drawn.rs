//! C33: turns and algs drawn at random (Drawn.tla), many of them, counted.
use crate::observe::*;
use crate::turns::OddRng;
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::moves::{Amount, QuarterAxisMove};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::{AxisMove, WideAxisMove};
use barbarosa::generic::Alg;
use rand::{Rng, RngCore, SeedableRng};
use serde_json::{json, Value};
use std::collections::BTreeMap;

type Key = Vec<i32>;
type Counts = BTreeMap<Key, u64>;

/// What every source of chance used here offers, at once.
pub enum Source {
    Long(OddRng),
    Std(Box<rand::rngs::StdRng>),
    Thread(rand::rngs::ThreadRng),
}
impl RngCore for Source {
    fn next_u32(&mut self) -> u32 {
        match self {
            Source::Long(r) => r.next_u32(),
            Source::Std(r) => r.next_u32(),
            Source::Thread(r) => r.next_u32(),
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self {
            Source::Long(r) => r.next_u64(),
            Source::Std(r) => r.next_u64(),
            Source::Thread(r) => r.next_u64(),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        match self {
            Source::Long(r) => r.fill_bytes(d),
            Source::Std(r) => r.fill_bytes(d),
            Source::Thread(r) => r.fill_bytes(d),
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// One stream for everything, or a short one for each draw.
struct Sources {
    seed: u64,
    long: Source,
    std: Source,
    k: u64,
}
impl Sources {
    fn new(seed: u64, stream: u64) -> Sources {
        let seed = seed.wrapping_mul(7919).wrapping_add(stream);
        Sources {
            seed,
            long: Source::Long(OddRng { kind: 99, i: 0, sm: Sm::new(seed, 330) }),
            std: Source::Std(Box::new(rand::rngs::StdRng::seed_from_u64(seed ^ 0xd1ce))),
            k: 0,
        }
    }
    fn with<T>(&mut self, f: impl FnOnce(&mut Source) -> T) -> T {
        self.k += 1;
        match self.k / 500 % 4 {
            0 => f(&mut self.long),
            1 => f(&mut self.std),
            2 => f(&mut Source::Std(Box::new(rand::rngs::StdRng::seed_from_u64(self.seed.wrapping_add(self.k << 20))))),
            _ => f(&mut Source::Thread(rand::thread_rng())),
        }
    }
}
fn axis(a: Axis) -> i32 {
    face_signed(&Face::new(a, Direction::Positive))
}
fn dir(d: Direction) -> i32 {
    if d == Direction::Positive { 1 } else { -1 }
}
fn turn(m: &AxisMove) -> Key {
    vec![face_signed(&m.face), amount_no(m.amount) as i32]
}
fn quarter(m: &QuarterAxisMove) -> Key {
    // what it does, not how it is spelled
    let t = AxisMove::from(m);
    vec![face_signed(&t.face), [1, 2, -1][amount_no(t.amount) - 1]]
}
fn wide<const N: u32>(m: &WideAxisMove<N>) -> Key {
    vec![face_signed(m.face()), amount_no(m.amount()) as i32, m.depth() as i32]
}
/// Each of these is to be counted, even if it never comes.
fn values(kind: &str, depth: i32) -> Vec<Key> {
    let mut v = vec![];
    let faces = [-3, -2, -1, 1, 2, 3];
    match kind {
        "turn" => faces.iter().for_each(|f| (1..4).for_each(|a| v.push(vec![*f, a]))),
        "quarter" => faces.iter().for_each(|f| [1, -1].iter().for_each(|a| v.push(vec![*f, *a]))),
        "wide" => faces.iter().for_each(|f| (1..4).for_each(|a| (0..=depth).for_each(|d| v.push(vec![*f, a, d])))),
        "face" => faces.iter().for_each(|f| v.push(vec![*f])),
        "axis" | "amount" => (1..4).for_each(|a| v.push(vec![a])),
        _ => v.extend([vec![1], vec![-1]]),
    }
    v
}
fn zeros(keys: impl IntoIterator<Item = Key>) -> Counts {
    keys.into_iter().map(|k| (k, 0)).collect()
}
fn pairs(v: &[Key]) -> Counts {
    zeros(v.iter().flat_map(|a| v.iter().map(move |b| [a.clone(), b.clone()].concat())))
}
fn add(to: &mut Counts, from: Counts) {
    for (k, c) in from {
        *to.entry(k).or_default() += c;
    }
}
fn told(mut e: Value, c: &Counts) -> Value {
    e["n"] = json!(c.values().sum::<u64>());
    e["keys"] = json!(c.keys().collect::<Vec<_>>());
    e["counts"] = json!(c.values().collect::<Vec<_>>());
    e
}

type One = Box<dyn Fn(&mut Source) -> Key + Sync + Send>;
struct Kind {
    name: &'static str,
    depth: i32,
    /// also whether one draw tells something of the next
    two: bool,
    draw: One,
    /// many at once
    alg: Option<Box<dyn Fn(&mut Source, usize) -> Vec<Key> + Sync + Send>>,
}
fn kinds() -> Vec<Kind> {
    macro_rules! w {
        ($n:literal, $two:literal) => {
            Kind {
                name: "wide",
                depth: $n,
                two: $two,
                draw: Box::new(|r| wide::<$n>(&r.gen())),
                alg: Some(Box::new(|r, n| Alg::<WideAxisMove<$n>>::random_unnormalized_with_rng(n, r).moves.iter().map(wide::<$n>).collect())),
            }
        };
    }
    vec![
        Kind {
            name: "turn",
            depth: 0,
            two: true,
            draw: Box::new(|r| turn(&r.gen())),
            alg: Some(Box::new(|r, n| Alg::<AxisMove>::random_unnormalized_with_rng(n, r).moves.iter().map(turn).collect())),
        },
        Kind {
            name: "quarter",
            depth: 0,
            two: true,
            draw: Box::new(|r| quarter(&r.gen())),
            alg: Some(Box::new(|r, n| Alg::<QuarterAxisMove>::random_unnormalized_with_rng(n, r).moves.iter().map(quarter).collect())),
        },
        w!(0, true),
        w!(1, true),
        w!(2, false),
        w!(3, false),
        w!(7, false),
        w!(40, false),
        Kind { name: "face", depth: 0, two: true, draw: Box::new(|r| vec![face_signed(&r.gen())]), alg: None },
        Kind { name: "axis", depth: 0, two: true, draw: Box::new(|r| vec![axis(r.gen())]), alg: None },
        Kind { name: "direction", depth: 0, two: true, draw: Box::new(|r| vec![dir(r.gen())]), alg: None },
        Kind { name: "amount", depth: 0, two: true, draw: Box::new(|r| vec![amount_no(r.gen::<Amount>()) as i32]), alg: None },
    ]
}
/// Values of one kind: alone, one after the other, and in algs.
fn of_kind(ctx: &Ctx, k: &Kind, job: u64, n: usize) -> Option<(Counts, Counts, Counts)> {
    let mut src = Sources::new(ctx.args.seed, job);
    let (mut one, mut two, mut apart) = (Counts::new(), Counts::new(), Counts::new());
    now(format!("drawing {} {}", k.name, k.depth));
    let long = 40;
    for i in 0..n / long {
        tick();
        let got = guarded(|| {
            src.with(|r| match &k.alg {
                Some(alg) if i % 2 == 1 => alg(r, long),
                _ => (0..long).map(|_| (k.draw)(r)).collect(),
            })
        });
        let v = match got {
            Ok(v) => v,
            Err(e) => {
                ctx.rep.violation(format!("drawing a random {}: {e}", k.name), json!({"kind": k.name, "depth": k.depth, "seed": ctx.args.seed, "draw": i}));
                return None;
            }
        };
        if v.len() != long {
            ctx.rep.violation(format!("an alg of {long} random {}s has {}", k.name, v.len()), json!({"kind": k.name}));
            return None;
        }
        for x in &v {
            *one.entry(x.clone()).or_default() += 1;
        }
        if k.two {
            for w in v.chunks_exact(2) {
                *two.entry([w[0].clone(), w[1].clone()].concat()).or_default() += 1;
            }
            for w in v.chunks_exact(4) {
                *apart.entry([w[0].clone(), w[2].clone()].concat()).or_default() += 1;
                *apart.entry([w[1].clone(), w[3].clone()].concat()).or_default() += 1;
            }
        }
    }
    Some((one, two, apart))
}
/// The turns about one axis after another, and where each begins.
fn groups(w: &[AxisMove]) -> Vec<(usize, [i32; 3])> {
    let mut v: Vec<(usize, [i32; 3])> = vec![];
    for (i, m) in w.iter().enumerate() {
        let f = face_signed(&m.face);
        if v.last().map(|g| g.1[0]) != Some(f.abs()) {
            v.push((i, [f.abs(), 0, 0]));
        }
        let g = v.last_mut().unwrap();
        let at = if f > 0 { 1 } else { 2 };
        g.1[at] = (g.1[at] + amount_no(m.amount) as i32) % 4;
    }
    v
}
fn combined() -> Vec<Key> {
    let mut v = vec![];
    for x in 1..4 {
        for p in 0..4 {
            for n in 0..4 {
                if (p, n) != (0, 0) {
                    v.push(vec![x, p, n]);
                }
            }
        }
    }
    v
}
#[derive(Default)]
struct Algs {
    first: Counts,
    after: BTreeMap<Key, Counts>,
    axes: Counts,
    n: u64,
}
fn random_algs(ctx: &Ctx, job: u64, n: usize) -> Option<Algs> {
    let mut src = Sources::new(ctx.args.seed, 1000 + job);
    let mut t = Algs::default();
    now("random algs");
    for i in 0..n {
        tick();
        let long = 2 + i % 19;
        let own = src.k / 500 % 4 == 3 && i % 2 == 0;
        let got = guarded(|| src.with(|r| if own { Alg::<AxisMove>::random(long) } else { Alg::<AxisMove>::random_with_rng(long, r) }));
        let w = match got {
            Ok(a) => a.moves,
            Err(e) => {
                ctx.rep.violation(format!("a random alg of length {long}: {e}"), json!({"seed": ctx.args.seed, "draw": i}));
                return None;
            }
        };
        if w.len() != long {
            ctx.rep.violation(format!("a random alg of length {long} has {} turns", w.len()), json!({"seed": ctx.args.seed, "draw": i}));
            return None;
        }
        t.n += 1;
        let g = groups(&w);
        for k in 0..g.len() {
            // what begins at the last turn may be cut short
            if g[k].0 + 2 <= long {
                let c = g[k].1.to_vec();
                if k == 0 {
                    *t.first.entry(c).or_default() += 1;
                } else {
                    *t.after.entry(g[k - 1].1.to_vec()).or_default().entry(c).or_default() += 1;
                }
            }
            if k >= 2 {
                *t.axes.entry((k - 2..=k).map(|j| g[j].1[0]).collect()).or_default() += 1;
            }
        }
    }
    Some(t)
}
pub fn c33(ctx: &'static Ctx) {
    let times = if ctx.args.thorough { 4 } else { 1 };
    let kinds: &'static Vec<Kind> = Box::leak(Box::new(kinds()));
    let mut tr = Tracer::new(&ctx.args, "TraceDrawn", "drawn", json!({}));
    for (at, k) in kinds.iter().enumerate() {
        let each = 240_000 * times;
        let jobs: Vec<Box<dyn FnOnce() -> Option<(Counts, Counts, Counts)> + Send>> =
            (0..8).map(|j| Box::new(move || of_kind(ctx, k, (at * 8 + j) as u64, each)) as _).collect();
        let vs = values(k.name, k.depth);
        let (mut one, mut two, mut apart) = (zeros(vs.clone()), Counts::new(), Counts::new());
        if k.two {
            two = pairs(&vs);
            apart = two.clone();
        }
        for p in parallel(jobs) {
            let Some((a, b, c)) = p else { return };
            add(&mut one, a);
            add(&mut two, b);
            add(&mut apart, c);
        }
        ctx.rep.count("values_drawn", one.values().sum());
        let e = told(json!({"e": "values", "kind": k.name, "depth": k.depth}), &one);
        if vs.len() < 13 {
            ctx.rep.sample(e.clone());
        }
        tr.push(e);
        if k.two {
            tr.push(told(json!({"e": "two", "kind": k.name, "depth": k.depth}), &two));
            tr.push(told(json!({"e": "two", "kind": k.name, "depth": k.depth}), &apart));
        }
    }
    let jobs: Vec<Box<dyn FnOnce() -> Option<Algs> + Send>> =
        (0..8).map(|j| Box::new(move || random_algs(ctx, j, 60_000 * times)) as _).collect();
    let mut all = Algs { first: zeros(combined()), ..Algs::default() };
    for c in combined() {
        all.after.insert(c.clone(), zeros(combined().into_iter().filter(|d| d[0] != c[0])));
    }
    let three = |a: i32| (1..4).filter(move |b| *b != a);
    all.axes = zeros((1..4).flat_map(|a| three(a).flat_map(move |b| three(b).map(move |c| vec![a, b, c]))));
    for p in parallel(jobs) {
        let Some(p) = p else { return };
        add(&mut all.first, p.first);
        for (k, c) in p.after {
            add(all.after.entry(k).or_default(), c);
        }
        add(&mut all.axes, p.axes);
        all.n += p.n;
    }
    ctx.rep.count("random_algs", all.n);
    let e = told(json!({"e": "axes"}), &all.axes);
    ctx.rep.sample(e.clone());
    tr.push(e);
    tr.push(told(json!({"e": "first"}), &all.first));
    for (k, c) in &all.after {
        tr.push(told(json!({"e": "after", "c": k}), c));
    }
    tr.segments = 1;
    tr.finish(&ctx.rep);
}
