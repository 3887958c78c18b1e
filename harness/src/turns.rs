//! C01 to C06: turns of whole cubes against NCube and Legal.
use crate::observe::*;
use crate::tables::*;
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::moves::rotation::{AxisRotation, Rotatable};
use barbarosa::cube_n::moves::{Amount, ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::{AxisMove, Corner, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, CubeN, Edge, Orientable, WideAxisMove, Wing};
use barbarosa::cube_n::center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Alg, Cube, Movable, Move, Piece};
use rand::{RngCore, SeedableRng};
use serde_json::{json, Value};

type Job<'a> = Box<dyn FnOnce() + Send + 'a>;

fn rand_turn(r: &mut Sm, maxdepth: usize) -> Turn {
    Turn { face: r.below(6), amount: 1 + r.below(3), depth: r.below(maxdepth + 1) }
}
pub fn rand_alg(r: &mut Sm, maxdepth: usize, len: usize) -> Vec<Turn> {
    (0..len).map(|_| rand_turn(r, maxdepth)).collect()
}
fn algs_json(a: &[Turn]) -> Value {
    Value::Array(a.iter().map(|t| t.json()).collect())
}
fn obs_json(o: &[[i32; 4]]) -> Value {
    json!(o)
}

/// A real cube next to the specification's state.
pub struct Pair<'a, C: Sut> {
    ctx: &'a Ctx,
    s: &'a SizeT,
    proj: &'a Projection,
    pub c: C,
    pub m: Model,
    pub path: Vec<Turn>,
}

impl<'a, C: Sut> Pair<'a, C> {
    pub fn new(ctx: &'a Ctx, proj: &'a Projection) -> Self {
        let s = ctx.t.size(C::SIZE);
        Pair { ctx, s, proj, c: C::SOLVED, m: Model::solved(s), path: vec![] }
    }
    fn replay(&self, extra: Value) -> Value {
        json!({"size": C::SIZE, "from": "solved", "turns": show_alg(&self.path), "detail": extra})
    }
    /// Applies without looking.
    fn apply(&mut self, t: Turn, carrier: usize) -> bool {
        self.path.push(t);
        self.m.turn(&self.ctx.t, self.s, t);
        let r = guarded(|| self.c.turn(t, carrier));
        tick();
        if let Err(e) = r {
            let v = self.replay(json!({"carrier": carrier}));
            self.ctx.rep.violation(format!("{}x{} cube: turning {} (carrier {carrier}): {e}", C::SIZE, C::SIZE, t.show()), v);
            return false;
        }
        true
    }
    /// Is the real cube what the specification says?
    fn look(&self) -> Option<String> {
        match guarded(|| self.proj.observe(self.s, &self.c)) {
            Err(e) => Some(e),
            Ok(Err(e)) => Some(e),
            Ok(Ok(o)) => diff(self.s, &self.m.obs(self.s), &o),
        }
    }
    fn seen(&self) -> Vec<[i32; 4]> {
        match guarded(|| self.proj.observe(self.s, &self.c)) {
            Ok(Ok(o)) => o,
            _ => vec![],
        }
    }
    fn solved(&self) -> Result<bool, String> {
        guarded(|| self.c.is_solved())
    }
    fn check(&self, carrier: usize) -> bool {
        let Some(d) = self.look() else { return true };
        // the shortest history that shows it: this turn alone, if that is enough
        let last = *self.path.last().unwrap_or(&Turn { face: 0, amount: 1, depth: 0 });
        let mut alone = Pair::<C>::new(self.ctx, self.proj);
        alone.path.push(last);
        alone.m.turn(&self.ctx.t, self.s, last);
        let _ = guarded(|| alone.c.turn(last, carrier));
        let (path, d) = match alone.look() {
            Some(d2) => (vec![last], d2),
            None => (self.path.clone(), d),
        };
        self.ctx.rep.violation(
            format!("{n}x{n}x{n} after {} turns ending in {} (carrier {carrier}): {d}", path.len(), last.show(), n = C::SIZE),
            json!({"size": C::SIZE, "from": "solved", "turns": show_alg(&path), "carrier": carrier, "difference": d}),
        );
        false
    }
}

pub fn project<C: Sut>(ctx: &Ctx) -> Option<Projection> {
    let p = Projection::of::<C>(ctx.t.size(C::SIZE));
    if let Some(e) = &p.problem {
        ctx.rep.violation(format!("{n}x{n}x{n}: {e}", n = C::SIZE), json!({"size": C::SIZE, "state": "solved", "problem": e}));
    }
    if p.home_of.is_empty() {
        return None;
    }
    Some(p)
}

/// Random walk comparing every step, until every (piece, state, turn) triple was seen.
fn walk<C: Sut>(ctx: &Ctx, proj: &Projection, stream: u64, steps: usize) {
    let s = ctx.t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, 1000 * C::SIZE as u64 + stream);
    let nd = s.maxdepth + 1;
    let cells = s.homes.len() * 24 * 18 * nd;
    let mut seen = vec![false; cells];
    let mut left = cells;
    let mut carriers_used = std::collections::HashSet::new();
    let mut p = Pair::<C>::new(ctx, proj);
    now(format!("walk on size {}", C::SIZE));
    let mut done = 0u64;
    for step in 0..steps {
        if step % 400 == 399 {
            // start afresh now and then: short histories, long histories
            p = Pair::<C>::new(ctx, proj);
        }
        let t = rand_turn(&mut r, s.maxdepth);
        let tix = (t.face * 3 + t.amount - 1) * nd + t.depth;
        for (i, g) in p.m.g.iter().enumerate() {
            let cell = (i * 24 + *g as usize) * 18 * nd + tix;
            if !seen[cell] {
                seen[cell] = true;
                left -= 1;
            }
        }
        let k = r.below(C::carriers(t.depth));
        carriers_used.insert((t.face, t.amount, t.depth, k));
        if !p.apply(t, k) || !p.check(k) {
            break;
        }
        done += 1;
        if ctx.rep.too_many() {
            break;
        }
        if left == 0 && step > steps / 4 {
            break;
        }
    }
    ctx.rep.count("turns_replayed", done);
    ctx.rep.count("distinct_piece_state_turn_triples", (cells - left) as u64);
    ctx.rep.count("possible_piece_state_turn_triples", cells as u64);
    ctx.rep.count("distinct_turn_and_move_type_pairs", carriers_used.len() as u64);
    ctx.rep.sample(json!({"size": C::SIZE, "walk_tail": show_alg(&p.path[p.path.len().saturating_sub(12)..])}));
}

/// Every turn through every carrier from a few states.
fn all_carriers<C: Sut>(ctx: &Ctx, proj: &Projection, states: usize) {
    let s = ctx.t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, 50 + C::SIZE as u64);
    for st in 0..states {
        let mut base = Pair::<C>::new(ctx, proj);
        for t in rand_alg(&mut r, s.maxdepth, st * 12) {
            if !base.apply(t, 0) {
                return;
            }
        }
        for depth in 0..=s.maxdepth {
            for face in 0..6 {
                for amount in 1..=3 {
                    let t = Turn { face, amount, depth };
                    for k in 0..C::carriers(depth) {
                        let mut p = Pair::<C> { ctx, s, proj, c: base.c.clone(), m: base.m.clone(), path: base.path.clone() };
                        if !p.apply(t, k) || !p.check(k) {
                            return;
                        }
                        ctx.rep.count("turns_replayed", 1);
                    }
                }
            }
        }
    }
}

/// Records a run for TLC.
fn record<C: Sut>(ctx: &Ctx, proj: &Projection, name: &str, segments: usize, len: usize, given: Option<&dyn Fn(&mut Sm) -> C>) {
    let s = ctx.t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, 77 + 10 * C::SIZE as u64);
    let mut tr = Tracer::new(&ctx.args, "TraceTurns", &format!("{name}_{}", C::SIZE), json!({"N": C::SIZE}));
    now(format!("recording {name} on size {}", C::SIZE));
    'seg: for seg in 0..segments {
        tr.segments += 1;
        let mut p = Pair::<C>::new(ctx, proj);
        let mut kept: Vec<C> = vec![];
        let bad = |p: &Pair<C>, what: &str, e: String| {
            ctx.rep.violation(format!("{n}x{n}x{n}: {what}: {e}", n = C::SIZE), p.replay(json!(e)));
        };
        macro_rules! ev {
            ($e:expr, $fields:expr) => {{
                let so = match p.solved() {
                    Ok(x) => x,
                    Err(e) => {
                        bad(&p, "is_solved", e);
                        break 'seg;
                    }
                };
                let mut v = json!({"e": $e, "obs": obs_json(&p.seen()), "solved": so});
                for (k, x) in $fields.as_object().unwrap() {
                    v[k] = x.clone();
                }
                tr.push(v);
            }};
        }
        ev!("reset", json!({}));
        if let (Some(g), true) = (given, seg % 2 == 1) {
            match guarded(|| g(&mut r)) {
                Ok(c) => p.c = c,
                Err(e) => {
                    bad(&p, "making a cube", e);
                    break 'seg;
                }
            }
            ev!("given", json!({}));
        }
        let mut done: Vec<Vec<Turn>> = vec![];
        for _ in 0..len {
            match r.below(10) {
                0..=5 => {
                    let t = rand_turn(&mut r, s.maxdepth);
                    let k = r.below(C::carriers(t.depth));
                    if let Err(e) = guarded(|| p.c.turn(t, k)) {
                        bad(&p, &format!("turning {}", t.show()), e);
                        break 'seg;
                    }
                    p.path.push(t);
                    done.push(vec![t]);
                    ev!("turn", t.json());
                }
                6 => {
                    let n = r.below(6);
                    let a = rand_alg(&mut r, 0, n);
                    let alg: Alg<AxisMove> = Alg::new(a.iter().map(|t| axis_move(*t)).collect());
                    if let Err(e) = guarded(|| p.c.apply_alg(&alg)) {
                        bad(&p, &format!("applying {}", show_alg(&a)), e);
                        break 'seg;
                    }
                    p.path.extend(&a);
                    ev!("alg", json!({"ms": algs_json(&a)}));
                    done.push(a);
                }
                7 => {
                    // undo the last step, through the reversed alg where it is made of face turns
                    if let Some(a) = done.pop() {
                        if a.iter().all(|t| t.depth == 0) {
                            let alg: Alg<AxisMove> = Alg::new(a.iter().map(|t| axis_move(*t)).collect());
                            if let Err(e) = guarded(|| p.c.apply_alg(&alg.reversed())) {
                                bad(&p, &format!("undoing {}", show_alg(&a)), e);
                                break 'seg;
                            }
                            p.path.extend(inverse_alg(&a));
                            ev!("undo", json!({"ms": algs_json(&a)}));
                        }
                    }
                }
                8 => {
                    if kept.len() < 6 {
                        kept.push(p.c.clone());
                        tr.push(json!({"e": "save", "k": kept.len()}));
                    }
                }
                _ => {
                    if !kept.is_empty() {
                        let k = r.below(kept.len());
                        match guarded(|| (p.c == kept[k], p.c.hash_of() == kept[k].hash_of())) {
                            Ok((eq, heq)) => tr.push(json!({"e": "cmp", "k": k + 1, "eq": eq, "heq": heq})),
                            Err(e) => {
                                bad(&p, "comparing", e);
                                break 'seg;
                            }
                        }
                    }
                }
            }
        }
    }
    tr.finish(&ctx.rep);
}

macro_rules! jobs {
    ($ctx:ident, $v:ident, [$($t:ty),*], |$proj:ident, $ty:ident| $body:expr) => {
        $({
            type $ty = $t;
            if let Some($proj) = project::<$t>($ctx) {
                let $proj: &'static Projection = Box::leak(Box::new($proj));
                $body;
            }
        })*
    };
}

pub fn c01(ctx: &'static Ctx) {
    let mut v: Vec<Job> = vec![];
    let steps = if ctx.args.thorough { 400_000 } else { 40_000 };
    jobs!(ctx, v, [Cube2, Cube3], |p, C| {
        for st in 0..4 {
            v.push(Box::new(move || walk::<C>(ctx, p, st, steps)));
        }
        v.push(Box::new(move || all_carriers::<C>(ctx, p, 6)));
        v.push(Box::new(move || record::<C>(ctx, p, "turns", if ctx.args.thorough { 60 } else { 12 }, 60, None)));
    });
    v.push(Box::new(|| loose_pieces(ctx)));
    parallel(v);
}

/// Arrays of loose corners and edges turn as they do on the cube.
fn loose_pieces(ctx: &Ctx) {
    let s = ctx.t.size(3);
    let mut r = Sm::new(ctx.args.seed, 5);
    let mut m = Model::solved(s);
    let mut cs = <Corner as PieceSetDescriptor<8>>::SOLVED;
    let mut es = <Edge as PieceSetDescriptor<12>>::SOLVED;
    let homes_c: Vec<usize> = cs.iter().map(|c| s.home_idx[&see_corner(3, c).place]).collect();
    let homes_e: Vec<usize> = es.iter().map(|c| s.home_idx[&see_edge(3, c).place]).collect();
    let mut path = vec![];
    for _ in 0..5000 {
        let t = rand_turn(&mut r, 0);
        path.push(t);
        m.turn(&ctx.t, s, t);
        let mv = axis_move(t);
        if let Err(e) = guarded(|| {
            cs.apply(&mv);
            es.apply(&mv);
        }) {
            ctx.rep.violation(format!("loose pieces: {} {e}", t.show()), json!({"turns": show_alg(&path)}));
            return;
        }
        let seen = cs.iter().map(|c| see_corner(3, c)).zip(&homes_c).chain(es.iter().map(|c| see_edge(3, c)).zip(&homes_e));
        for (x, h) in seen {
            let e = s.obs[*h][m.g[*h] as usize];
            if e != [x.place[0], x.place[1], x.place[2], x.mark] {
                ctx.rep.violation(
                    format!("array of pieces: piece from {:?} should be at {:?}, is {:?}", s.homes[*h], e, x),
                    json!({"turns": show_alg(&path)}),
                );
                return;
            }
        }
        ctx.rep.count("turns_replayed_on_loose_pieces", 1);
    }
}

pub fn c02(ctx: &'static Ctx) {
    let mut v: Vec<Job> = vec![];
    let steps = if ctx.args.thorough { 300_000 } else { 20_000 };
    jobs!(ctx, v, [Cube7, Cube6, Cube5, Cube4], |p, C| {
        for st in 0..2 {
            v.push(Box::new(move || walk::<C>(ctx, p, st, steps)));
        }
        v.push(Box::new(move || all_carriers::<C>(ctx, p, if ctx.args.thorough { 20 } else { 4 })));
        v.push(Box::new(move || record::<C>(ctx, p, "turns", if ctx.args.thorough { 30 } else { 6 }, 50, None)));
    });
    v.reverse();
    parallel(v);
}

// ---------------------------------------------------------------- C03, C05

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// Order of the effect of a word on the pieces of one orbit.
fn order_on(t: &Tables, s: &SizeT, m: &Model, pieces: &[usize]) -> u64 {
    let mut ord = 1u64;
    for &i in pieces {
        let (mut at, mut g, mut len) = (i, 0usize, 0u64);
        loop {
            let step = m.g[at] as usize;
            g = t.mult[step][g];
            at = s.wher[at][step];
            len += 1;
            if at == i && g == 0 {
                break;
            }
            if len > 5000 {
                break;
            }
        }
        ord = ord / gcd(ord, len) * len;
        if ord > 1_000_000_000 {
            return ord;
        }
    }
    ord
}

fn orbits(s: &SizeT) -> Vec<(String, Vec<usize>)> {
    let mut v: Vec<(String, Vec<usize>)> = vec![];
    for (i, o) in s.orbits.iter().enumerate() {
        match v.iter_mut().find(|x| x.0 == *o) {
            Some(x) => x.1.push(i),
            None => v.push((o.clone(), vec![i])),
        }
    }
    v
}

fn power(t: &Tables, s: &SizeT, m: &Model, mut k: u64) -> Model {
    let mut acc = Model::solved(s);
    let mut b = m.clone();
    while k > 0 {
        if k & 1 == 1 {
            acc = acc.then(t, s, &b);
        }
        b = b.then(t, s, &b);
        k >>= 1;
    }
    acc
}

/// Words whose effect is confined to a single orbit of pieces, found by raising
/// random words to the order they have everywhere else.
pub fn isolated(ctx: &Ctx, s: &SizeT, r: &mut Sm, per_orbit: usize, tries: usize) -> Vec<(String, Vec<Turn>, Model)> {
    let t = &ctx.t;
    let obs = orbits(s);
    let mut out: Vec<(String, Vec<Turn>, Model)> = vec![];
    let mut have = vec![0usize; obs.len()];
    // of identical pieces, exchanges of a few are wanted too
    let mut small = vec![false; obs.len()];
    for _ in 0..tries {
        tick();
        if have.iter().all(|h| *h >= per_orbit) && (0..obs.len()).all(|k| small[k] || !alike(s, obs[k].1[0])) {
            break;
        }
        let len = 2 + r.below(6);
        let w = if s.maxdepth > 0 && r.chance(1, 3) {
            // a single inner layer against a face turn between two of another: few pieces
            let layer = |r: &mut Sm| {
                let (face, amount, depth) = (r.below(6), 1 + r.below(3), 1 + r.below(s.maxdepth));
                vec![Turn { face, amount, depth }, Turn { face, amount: 4 - amount, depth: depth - 1 }]
            };
            let (a, b) = (layer(r), layer(r));
            let f = Turn { face: r.below(6), amount: 1 + r.below(3), depth: 0 };
            let a = [a.clone(), vec![f], inverse_alg(&a)].concat();
            [a.clone(), b.clone(), inverse_alg(&a), inverse_alg(&b)].concat()
        } else if r.chance(1, 2) {
            // a commutator: small support
            let (la, lb) = (1 + r.below(3), 1 + r.below(2));
            let (a, b) = (rand_alg(r, s.maxdepth, la), rand_alg(r, s.maxdepth, lb));
            [a.clone(), b.clone(), inverse_alg(&a), inverse_alg(&b)].concat()
        } else {
            rand_alg(r, s.maxdepth, len)
        };
        let mut m = Model::solved(s);
        m.alg(t, s, &w);
        let orders: Vec<u64> = obs.iter().map(|o| order_on(t, s, &m, &o.1)).collect();
        for k in 0..obs.len() {
            if have[k] >= per_orbit && (small[k] || !alike(s, obs[k].1[0])) {
                continue;
            }
            let mut l = 1u64;
            for (j, o) in orders.iter().enumerate() {
                if j != k {
                    l = (l / gcd(l, *o)).saturating_mul(*o);
                }
            }
            if l > 360 || l % orders[k] == 0 {
                continue;
            }
            let e = power(t, s, &m, l);
            debug_assert!(!e.is_identity());
            let few = support(&e).len() <= 4;
            if have[k] >= per_orbit && !few {
                continue;
            }
            small[k] |= few;
            let mut word = vec![];
            for _ in 0..l {
                word.extend(&w);
            }
            have[k] += 1;
            out.push((obs[k].0.clone(), word, e));
        }
    }
    out
}

/// Does the piece look solved in more than one state, as centres do?
fn alike(s: &SizeT, piece: usize) -> bool {
    s.solved[piece].iter().filter(|x| **x).count() > 1
}
fn support(m: &Model) -> Vec<usize> {
    (0..m.g.len()).filter(|i| m.g[*i] != 0).collect()
}
/// The turns that bring these places to places where exchanging their pieces cannot be seen.
fn gather(t: &Tables, s: &SizeT, places: &[usize]) -> Option<Vec<Turn>> {
    let alike = |v: &[usize]| v.iter().all(|a| v.iter().all(|b| (0..24).any(|g| s.wher[*a][g] == *b && s.solved[*a][g])));
    let turns: Vec<Turn> =
        (0..6).flat_map(|face| (1..4).flat_map(move |amount| (0..=s.maxdepth).map(move |depth| Turn { face, amount, depth }))).collect();
    let mut seen: std::collections::HashMap<Vec<usize>, (Vec<usize>, Turn)> = Default::default();
    let mut queue = std::collections::VecDeque::from([places.to_vec()]);
    let start = places.to_vec();
    while let Some(v) = queue.pop_front() {
        if alike(&v) {
            let mut w = vec![];
            let mut at = v;
            while at != start {
                let (before, m) = seen[&at].clone();
                w.push(m);
                at = before;
            }
            w.reverse();
            return Some(w);
        }
        if seen.len() > 60_000 {
            return None;
        }
        for m in &turns {
            let r = t.facerot[m.face][m.amount - 1];
            let layer = &s.inturn[m.depth][m.face];
            let n: Vec<usize> = v.iter().map(|p| if layer[*p] { s.wher[*p][r] } else { *p }).collect();
            if n != start && !seen.contains_key(&n) {
                seen.insert(n.clone(), (v.clone(), *m));
                queue.push_back(n);
            }
        }
    }
    None
}

/// Conjugates of an isolated word, looking for one that looks solved although
/// pieces moved (same-coloured centres), and others that nearly do.
pub fn conjugates(ctx: &Ctx, s: &SizeT, r: &mut Sm, word: &[Turn], e: &Model, tries: usize) -> Vec<(Vec<Turn>, Model)> {
    let t = &ctx.t;
    let mut best: Option<(usize, Vec<Turn>, Model)> = None;
    let mut out = vec![];
    let mut looks = 0;
    let moved = support(e);
    if moved.len() <= 4 && alike(s, moved[0]) {
        if let Some(w) = gather(t, s, &moved) {
            let su = inverse_alg(&w);
            let mut a = Model::solved(s);
            a.alg(t, s, &su);
            out.push(([su, word.to_vec(), w].concat(), a.then(t, s, e).then(t, s, &a.inverse(t, s))));
        }
    }
    for _ in 0..tries {
        let n = r.below(4);
        let su = rand_alg(r, s.maxdepth, n);
        let mut a = Model::solved(s);
        a.alg(t, s, &su);
        let c = a.then(t, s, e).then(t, s, &a.inverse(t, s));
        let wrong = c.g.iter().enumerate().filter(|(i, g)| !s.solved[*i][**g as usize]).count();
        let w = [su.clone(), word.to_vec(), inverse_alg(&su)].concat();
        if wrong == 0 {
            if looks < 2 {
                out.push((w, c));
            }
            looks += 1;
        } else if best.as_ref().map_or(true, |b| wrong < b.0) {
            best = Some((wrong, w, c));
        }
    }
    if let Some((_, w, c)) = best {
        out.push((w, c));
    }
    out
}

fn near_solved<C: Sut>(ctx: &Ctx, proj: &Projection, check_solved: bool, per_orbit: usize) {
    let s = ctx.t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, 300 + C::SIZE as u64);
    now(format!("isolated effects on size {}", C::SIZE));
    let iso = isolated(ctx, s, &mut r, per_orbit, 4000 * per_orbit);
    let mut orbits_hit = std::collections::BTreeMap::<String, (u64, u64)>::new();
    for (orbit, word, e) in &iso {
        let mut cases = vec![(word.clone(), e.clone())];
        cases.extend(conjugates(ctx, s, &mut r, word, e, 120));
        for (w, m) in cases {
            if ctx.rep.too_many() {
                return;
            }
            let mut p = Pair::<C>::new(ctx, proj);
            let ok = w.iter().all(|t| p.apply(*t, 0));
            if !ok {
                return;
            }
            let entry = orbits_hit.entry(orbit.clone()).or_default();
            let looks = m.looks_solved(s);
            if looks {
                entry.1 += 1;
            } else {
                entry.0 += 1;
            }
            if check_solved {
                match p.solved() {
                    Ok(x) if x == looks => ctx.rep.count("solved_checks", 1),
                    got => ctx.rep.violation(
                        format!("{n}x{n}x{n} where only {orbit} pieces moved: solved check says {got:?}, every sticker on its own face: {looks}", n = C::SIZE),
                        json!({"size": C::SIZE, "turns": show_alg(&w), "orbit": orbit}),
                    ),
                }
            } else {
                // equality: differs from solved, equals itself undone
                let Ok((eq, eq2)) = guarded(|| (p.c == C::SOLVED, C::SOLVED == p.c)) else {
                    ctx.rep.violation("comparing panics", json!({"size": C::SIZE, "turns": show_alg(&w)}));
                    return;
                };
                if eq || eq2 {
                    ctx.rep.violation(
                        format!("{n}x{n}x{n} where {orbit} pieces moved compares equal to the solved cube", n = C::SIZE),
                        json!({"size": C::SIZE, "turns": show_alg(&w), "orbit": orbit}),
                    );
                }
                // and the same difference on top of another state
                let a = rand_alg(&mut r, s.maxdepth, 15);
                let (mut x, mut y) = (C::SOLVED, p.c.clone());
                let _ = guarded(|| {
                    for t in &a {
                        x.turn(*t, 0);
                        y.turn(*t, 0);
                    }
                });
                if x == y {
                    ctx.rep.violation(
                        format!("{n}x{n}x{n}: two states differing in {orbit} pieces only compare equal", n = C::SIZE),
                        json!({"size": C::SIZE, "turns": show_alg(&w), "then_both": show_alg(&a)}),
                    );
                }
                ctx.rep.count("unequal_pairs", 2);
            }
        }
    }
    for (o, _) in orbits(s) {
        let (a, b) = orbits_hit.get(&o).copied().unwrap_or_default();
        ctx.rep.count(&format!("size{}_{}_moved_only", C::SIZE, o.replace(['[', ']', '"'], "").replace(',', "_")), a);
        ctx.rep.count(&format!("size{}_{}_moved_but_looks_solved", C::SIZE, o.replace(['[', ']', '"'], "").replace(',', "_")), b);
    }
    if let Some((o, w, _)) = iso.first() {
        ctx.rep.sample(json!({"size": C::SIZE, "only_orbit_moved": o, "length": w.len(), "head": show_alg(&w[..w.len().min(8)])}));
    }
}

fn solved_walk<C: Sut>(ctx: &Ctx, proj: &Projection, rounds: usize) {
    let s = ctx.t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, 400 + C::SIZE as u64);
    for round in 0..rounds {
        if ctx.rep.too_many() {
            return;
        }
        let len = 1 + r.below(if round % 3 == 0 { 3 } else { 25 });
        let a = if C::SIZE % 2 == 0 && round % 5 == 0 {
            // a rotated cube: both halves of an even cube turned the same way
            let f = r.below(3);
            let k = 1 + r.below(3);
            vec![
                Turn { face: f, amount: k, depth: s.maxdepth },
                Turn { face: f + 3, amount: 4 - k, depth: s.maxdepth },
            ]
        } else {
            rand_alg(&mut r, s.maxdepth, len)
        };
        let back = inverse_alg(&a);
        let mut p = Pair::<C>::new(ctx, proj);
        // forth and back again: solved exactly at the end (or wherever the model says)
        for t in a.iter().chain(back.iter()) {
            if !p.apply(*t, 0) {
                return;
            }
            let looks = p.m.looks_solved(s);
            match p.solved() {
                Ok(x) if x == looks => ctx.rep.count("solved_checks", 1),
                got => {
                    ctx.rep.violation(
                        format!("{n}x{n}x{n}: solved check says {got:?}, every sticker on its own face: {looks}", n = C::SIZE),
                        p.replay(json!({"expected": looks})),
                    );
                    break;
                }
            }
            ctx.rep.count(if looks { "states_that_look_solved" } else { "states_that_do_not" }, 1);
        }
    }
}

/// Rotations (as words of axis rotations) reaching each element of the group.
pub fn rotation_words(t: &Tables) -> Vec<Vec<(usize, usize)>> {
    let mut w: Vec<Option<Vec<(usize, usize)>>> = vec![None; 24];
    w[0] = Some(vec![]);
    let mut queue = std::collections::VecDeque::from([0usize]);
    while let Some(g) = queue.pop_front() {
        for a in 0..3 {
            for k in 1..=3 {
                let h = t.mult[t.axisrot[a][k - 1]][g];
                if w[h].is_none() {
                    let mut x = w[g].clone().unwrap();
                    x.push((a, k));
                    w[h] = Some(x);
                    queue.push_back(h);
                }
            }
        }
    }
    w.into_iter().map(|x| x.unwrap()).collect()
}
pub fn axis_rotation(a: usize, k: usize) -> AxisRotation {
    AxisRotation::new(AXES[a], AMOUNTS[k - 1])
}

fn piece_solved<P, const M: usize>(ctx: &Ctx, n: usize, name: &str, see: fn(usize, &P) -> Result<Seen, String>, extra: Option<fn(&P, &P::Position) -> bool>)
where
    P: Piece + Rotatable + PieceSetDescriptor<M>,
{
    let s = ctx.t.size(n);
    let words = rotation_words(&ctx.t);
    let refs = P::REFERENCE_POSITIONS;
    let homes: Vec<Option<usize>> = P::SOLVED
        .iter()
        .map(|p| see(n, p).ok().and_then(|x| s.home_idx.get(&x.place).copied()))
        .collect();
    for p in P::SOLVED.iter() {
        for w in &words {
            let mut v = p.clone();
            if let Err(e) = guarded(|| w.iter().for_each(|(a, k)| v.rotate(&axis_rotation(*a, *k)))) {
                ctx.rep.violation(format!("rotating {p:?}: {e}"), json!({"piece": name}));
                return;
            }
            let Ok(o) = see(n, &v) else { continue };
            let o = [o.place[0], o.place[1], o.place[2], o.mark];
            for (j, rp) in refs.iter().enumerate() {
                let Some(h) = homes[j] else {
                    ctx.rep.violation(format!("{name} {:?} has no home on size {n}", P::SOLVED[j]), json!({}));
                    return;
                };
                let Some(g) = s.obs[h].iter().position(|x| *x == o) else { continue };
                let expect = s.solved[h][g];
                let got = guarded(|| v.is_solved(rp));
                let inh = extra.map(|f| guarded(|| f(&v, rp)));
                ctx.rep.count("piece_solved_checks", 1);
                for got in std::iter::once(got).chain(inh) {
                    if got != Ok(expect) {
                        ctx.rep.violation(
                            format!("{name} {v:?} against home {rp:?}: is_solved says {got:?}, its stickers on their own faces: {expect}"),
                            json!({"piece": format!("{v:?}"), "home": format!("{rp:?}")}),
                        );
                        if ctx.rep.too_many() {
                            return;
                        }
                    }
                }
            }
        }
    }
}

fn see_any<P: std::fmt::Debug>(n: usize, p: &P) -> Result<Seen, String> {
    see_debug(n, &format!("{p:?}"))?.into_iter().next().ok_or_else(|| "unreadable piece".to_string())
}

pub fn c03(ctx: &'static Ctx) {
    let mut v: Vec<Job> = vec![];
    let k = if ctx.args.thorough { 12 } else { 2 };
    jobs!(ctx, v, [Cube7, Cube6, Cube5, Cube4, Cube3, Cube2], |p, C| {
        v.push(Box::new(move || near_solved::<C>(ctx, p, true, k)));
        v.push(Box::new(move || everywhere::<C>(ctx, p, true)));
        v.push(Box::new(move || solved_walk::<C>(ctx, p, 150 * k)));
        v.push(Box::new(move || record::<C>(ctx, p, "solved", 4, 40, None)));
    });
    v.push(Box::new(|| {
        piece_solved::<Corner, 8>(ctx, 3, "corner", |n, c| Ok(see_corner(n, c)), None);
        piece_solved::<Edge, 12>(ctx, 3, "edge", |n, c| Ok(see_edge(n, c)), None);
        piece_solved::<Wing, 24>(ctx, 4, "wing", see_any, None);
        piece_solved::<CenterCorner, 24>(ctx, 4, "centre corner", see_any, Some(|a, b| CenterCorner::is_solved(a, b)));
        piece_solved::<CenterEdge, 24>(ctx, 5, "centre edge", see_any, None);
        piece_solved::<CenterWing, 48>(ctx, 6, "centre wing", see_any, None);
        set_solved(ctx);
    }));
    v.reverse();
    parallel(v);
}

/// The piece sets' own solved check on the small cubes.
fn set_solved(ctx: &Ctx) {
    let s = ctx.t.size(3);
    let mut r = Sm::new(ctx.args.seed, 31);
    for i in 0..3000 {
        let len = r.below(4);
        let mut a = rand_alg(&mut r, 0, len);
        if i % 3 == 0 {
            // corner-only and edge-only effects
            let w: Vec<Turn> = [(0, 1), (1, 1), (0, 3), (1, 3)].iter().map(|(f, k)| Turn { face: *f, amount: *k, depth: 0 }).collect();
            let su = rand_alg(&mut r, 0, len);
            let k = if i % 2 == 0 { 2 } else { 3 };
            a = su.clone();
            for _ in 0..k {
                a.extend(&w);
            }
            a.extend(inverse_alg(&su));
        }
        let mut m = Model::solved(s);
        m.alg(&ctx.t, s, &a);
        let mut c = Cube3::SOLVED_CUBE;
        let got = guarded(|| {
            for t in &a {
                c.apply(&axis_move(*t));
            }
            (c.edges.is_solved(), c.corners.is_solved())
        });
        let part = |kind: &str| (0..m.g.len()).filter(|i| s.kinds[*i] == kind).all(|i| s.solved[i][m.g[i] as usize]);
        let expect = (part("edge"), part("corner"));
        if got != Ok(expect) {
            ctx.rep.violation(format!("piece sets solved (edges, corners): {got:?}, should be {expect:?}"), json!({"turns": show_alg(&a)}));
            return;
        }
        ctx.rep.count("set_solved_checks", 1);
    }
}

pub trait SolvedCube {
    const SOLVED_CUBE: Self;
}
impl<C: barbarosa::generic::Cube> SolvedCube for C {
    const SOLVED_CUBE: Self = C::SOLVED;
}

/// Every way these pieces can be placed, with the turns that bring them there.
struct Spread {
    turns: std::collections::HashMap<Vec<usize>, Option<(Vec<usize>, Turn)>>,
    /// one for every set of places, nearest first
    sets: Vec<Vec<usize>>,
}
impl Spread {
    fn of(t: &Tables, s: &SizeT, places: &[usize], most: usize) -> Spread {
        let turns: Vec<Turn> =
            (0..6).flat_map(|face| (1..4).flat_map(move |amount| (0..=s.maxdepth).map(move |depth| Turn { face, amount, depth }))).collect();
        let start = places.to_vec();
        let mut known: std::collections::HashSet<Vec<usize>> = Default::default();
        let mut out = Spread { turns: Default::default(), sets: vec![] };
        out.turns.insert(start.clone(), None);
        let mut queue = std::collections::VecDeque::from([start]);
        while let Some(v) = queue.pop_front() {
            tick();
            let mut set = v.clone();
            set.sort();
            if known.insert(set) {
                out.sets.push(v.clone());
            }
            if out.turns.len() > most {
                continue;
            }
            for m in &turns {
                let r = t.facerot[m.face][m.amount - 1];
                let layer = &s.inturn[m.depth][m.face];
                let n: Vec<usize> = v.iter().map(|p| if layer[*p] { s.wher[*p][r] } else { *p }).collect();
                if !out.turns.contains_key(&n) {
                    out.turns.insert(n.clone(), Some((v.clone(), *m)));
                    queue.push_back(n);
                }
            }
        }
        out
    }
    fn to(&self, places: &[usize]) -> Option<Vec<Turn>> {
        let mut w = vec![];
        let mut at = self.turns.get(places)?;
        while let Some((before, m)) = at {
            w.push(*m);
            at = &self.turns[before];
        }
        w.reverse();
        Some(w)
    }
}

/// Adds to a word what puts the pieces of one orbit back, with a word that cycles three of them.
fn settle(t: &Tables, s: &SizeT, word: &[Turn], orbit: &str, three: &(Vec<Turn>, Model)) -> Option<Vec<Turn>> {
    let moved = support(&three.1);
    if moved.len() != 3 {
        return None;
    }
    let to = |i: usize, m: &Model| s.wher[i][m.g[i] as usize];
    let p = [moved[0], to(moved[0], &three.1), to(to(moved[0], &three.1), &three.1)];
    let spread = Spread::of(t, s, &p, 60_000);
    let mut w = word.to_vec();
    let mut m = Model::solved(s);
    m.alg(t, s, &w);
    for _ in 0..30 {
        let astray: Vec<usize> = (0..s.homes.len()).filter(|i| s.orbits[*i] == orbit && to(*i, &m) != *i).collect();
        let Some(&i) = astray.first() else { return Some(w) };
        // the piece of i is at j: j to i to k
        let j = to(i, &m);
        let k = *astray.iter().find(|k| **k != i && **k != j)?;
        let away = spread.to(&[j, i, k])?;
        let step = [inverse_alg(&away), three.0.clone(), away].concat();
        m.alg(t, s, &step);
        w.extend(step);
    }
    None
}

/// Words known to exchange few pieces: two corners and two edges, two wings next to each other.
fn exchanges(s: &SizeT) -> Vec<Vec<Turn>> {
    let f = |face: usize, amount: usize| Turn { face, amount, depth: 0 };
    // faces are R U F L D B
    let mut v = vec![vec![
        f(0, 1), f(1, 1), f(0, 3), f(2, 3), f(0, 1), f(1, 1), f(0, 3), f(1, 3), f(0, 3), f(2, 1), f(0, 2), f(1, 3), f(0, 3), f(1, 3),
    ]];
    // flips one edge of the upper layer and leaves the rest of it alone
    let flip = vec![f(1, 1), f(3, 1), f(1, 1), f(4, 3), f(5, 2), f(4, 2), f(1, 2), f(2, 1)];
    // twists one corner of the upper layer
    let twist = vec![f(0, 3), f(4, 3), f(0, 1), f(4, 1), f(0, 3), f(4, 3), f(0, 1), f(4, 1)];
    for one in [flip, twist] {
        let back = inverse_alg(&one);
        v.push([one, vec![f(1, 1)], back, vec![f(1, 3)]].concat());
    }
    for depth in 1..=s.maxdepth {
        let inner = |face: usize, amount: usize| vec![Turn { face, amount, depth }, Turn { face, amount: 4 - amount, depth: depth - 1 }];
        let one = |face: usize, amount: usize| vec![f(face, amount)];
        v.push(
            [
                inner(0, 2), one(5, 2), one(1, 2), inner(3, 1), one(1, 2), inner(0, 3), one(1, 2), inner(0, 1), one(1, 2), one(2, 2),
                inner(0, 1), one(2, 2), inner(3, 3), one(5, 2), inner(0, 2),
            ]
            .concat(),
        );
    }
    v
}

/// The smallest differences there are, of every kind of piece and at every set of places
/// they can be brought to: never solved (C03), never equal to solved (C05).
fn everywhere<C: Sut>(ctx: &Ctx, proj: &Projection, check_solved: bool) {
    let (s, t) = (ctx.t.size(C::SIZE), &ctx.t);
    let mut r = Sm::new(ctx.args.seed, 350 + C::SIZE as u64);
    now(format!("smallest differences on size {}", C::SIZE));
    let mut best = std::collections::BTreeMap::<(String, usize, bool), (Vec<Turn>, Vec<usize>)>::new();
    let mut words: Vec<(Vec<Turn>, Model)> = isolated(ctx, s, &mut r, 8, 2500).into_iter().map(|x| (x.1, x.2)).collect();
    for mut w in exchanges(s) {
        let mut m = Model::solved(s);
        m.alg(t, s, &w);
        if support(&m).len() > 4 {
            // what it does to centres besides is put back
            for (orbit, pieces) in orbits(s) {
                if !alike(s, pieces[0]) {
                    continue;
                }
                let three = words.iter().filter(|x| support(&x.1).len() == 3 && s.orbits[support(&x.1)[0]] == orbit).min_by_key(|x| x.0.len());
                if let Some(settled) = three.and_then(|x| settle(t, s, &w, &orbit, x)) {
                    w = settled;
                }
            }
            m = Model::solved(s);
            m.alg(t, s, &w);
        }
        words.push((w, m));
    }
    for (w, m) in words {
        let moved = support(&m);
        if moved.is_empty() || moved.len() > 4 || w.len() > 1_500 {
            continue;
        }
        let mut kinds: Vec<&str> = moved.iter().map(|i| s.orbits[*i].as_str()).collect();
        kinds.dedup();
        let still = moved.iter().all(|i| s.wher[*i][m.g[*i] as usize] == *i);
        let key = (kinds.join("_and_").replace(['[', ']', '"'], "").replace(',', "_"), moved.len(), still);
        if best.get(&key).map_or(true, |b| w.len() < b.0.len()) {
            best.insert(key, (w, moved));
        }
    }
    let most = if ctx.args.thorough { usize::MAX } else { 2_200 };
    for ((kind, k, still), (w, moved)) in &best {
        let mut done = 0u64;
        let spread = Spread::of(t, s, moved, 60_000);
        for places in spread.sets.iter().take(most) {
            let away = spread.to(places).unwrap_or_default();
            tick();
            if ctx.rep.too_many() {
                return;
            }
            let word = [inverse_alg(&away), w.clone(), away].concat();
            let mut m = Model::solved(s);
            m.alg(t, s, &word);
            let looks = m.looks_solved(s);
            let got = guarded(|| {
                let mut c = C::SOLVED;
                for x in &word {
                    c.turn(*x, 0);
                }
                (c.is_solved(), c == C::SOLVED, C::SOLVED == c)
            });
            done += 1;
            let at: Vec<[i32; 3]> = support(&m).iter().map(|i| s.homes[*i]).collect();
            let detail = json!({"size": C::SIZE, "turns": show_alg(&word), "pieces": at});
            match got {
                Ok((x, _, _)) if check_solved && x != looks => ctx.rep.violation(
                    format!("{n}x{n}x{n} where only the {kind} pieces of {at:?} moved: solved check says {x}, every sticker on its own face: {looks}", n = C::SIZE),
                    detail,
                ),
                Ok((_, a, b)) if !check_solved && (a || b) => {
                    ctx.rep.violation(format!("{n}x{n}x{n} where the {kind} pieces of {at:?} moved compares equal to the solved cube", n = C::SIZE), detail)
                }
                Ok(_) => (),
                Err(e) => ctx.rep.violation(format!("{n}x{n}x{n}: {e}", n = C::SIZE), detail),
            }
        }
        ctx.rep.count(&format!("size{}_{k}_{kind}_{}", C::SIZE, if *still { "in_place" } else { "exchanged" }), done);
    }
}

// ------------------------------------------------------------------ C05

pub fn c05(ctx: &'static Ctx) {
    let mut v: Vec<Job> = vec![];
    let k = if ctx.args.thorough { 12 } else { 2 };
    jobs!(ctx, v, [Cube7, Cube6, Cube5, Cube4, Cube3, Cube2], |p, C| {
        v.push(Box::new(move || near_solved::<C>(ctx, p, false, k)));
        v.push(Box::new(move || everywhere::<C>(ctx, p, false)));
        v.push(Box::new(move || pairs::<C>(ctx, p, 400 * k)));
        v.push(Box::new(move || record::<C>(ctx, p, "equal", 4, 60, None)));
    });
    v.push(Box::new(|| {
        piece_equality::<Corner, 8>(ctx, 3, |n, c| Ok(see_corner(n, c)));
        piece_equality::<Edge, 12>(ctx, 3, |n, c| Ok(see_edge(n, c)));
        piece_equality::<Wing, 24>(ctx, 4, see_any);
        piece_equality::<CenterCorner, 24>(ctx, 4, see_any);
        piece_equality::<CenterEdge, 24>(ctx, 5, see_any);
        piece_equality::<CenterWing, 48>(ctx, 6, see_any);
    }));
    v.reverse();
    parallel(v);
}

/// Rewrites a word by relations of the group: same state, other history.
fn same_effect(r: &mut Sm, w: &[Turn], maxdepth: usize) -> Vec<Turn> {
    let mut out: Vec<Turn> = vec![];
    for t in w {
        match r.below(6) {
            0 => {
                // split
                let a = 1 + r.below(3);
                out.push(Turn { amount: a, ..*t });
                let b = (t.amount + 4 - a) % 4;
                if b != 0 {
                    out.push(Turn { amount: b, ..*t });
                }
            }
            1 => {
                // cancelling detour, through a commuting turn of the opposite side
                let o = Turn { face: (t.face + 3) % 6, amount: 1 + r.below(3), depth: r.below(maxdepth + 1) };
                out.push(o);
                out.push(*t);
                out.push(o.inverse());
            }
            2 => {
                let d = Turn { face: r.below(6), amount: 1 + r.below(3), depth: r.below(maxdepth + 1) };
                out.push(d);
                out.push(d.inverse());
                out.push(*t);
            }
            3 => {
                // (R U R' U')^6 = 1 on the outer layers
                let (a, b) = (r.below(3), r.below(2));
                let b = (a + 1 + b) % 3;
                for _ in 0..6 {
                    for (f, k) in [(a, 1), (b, 1), (a, 3), (b, 3)] {
                        out.push(Turn { face: f, amount: k, depth: 0 });
                    }
                }
                out.push(*t);
            }
            _ => out.push(*t),
        }
    }
    // commute neighbours about the same axis
    for i in 1..out.len() {
        if out[i].face % 3 == out[i - 1].face % 3 && r.chance(1, 2) {
            out.swap(i, i - 1);
        }
    }
    out
}

fn pairs<C: Sut>(ctx: &Ctx, proj: &Projection, rounds: usize) {
    let s = ctx.t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, 500 + C::SIZE as u64);
    now(format!("pairs on size {}", C::SIZE));
    for _ in 0..rounds {
        if ctx.rep.too_many() {
            return;
        }
        let len = r.below(20);
        let w = rand_alg(&mut r, s.maxdepth, len);
        let other = match r.below(4) {
            0 => rand_alg(&mut r, s.maxdepth, len),
            1 => {
                let mut o = same_effect(&mut r, &w, s.maxdepth);
                if !o.is_empty() {
                    let i = r.below(o.len());
                    o[i].amount = 1 + o[i].amount % 3;
                }
                o
            }
            _ => same_effect(&mut r, &w, s.maxdepth),
        };
        let (mut a, mut b) = (Pair::<C>::new(ctx, proj), Pair::<C>::new(ctx, proj));
        for t in &w {
            let k = r.below(C::carriers(t.depth));
            if !a.apply(*t, k) {
                return;
            }
        }
        for t in &other {
            let k = r.below(C::carriers(t.depth));
            if !b.apply(*t, k) {
                return;
            }
        }
        let same = a.m == b.m;
        let got = guarded(|| (a.c == b.c, b.c == a.c, a.c.hash_of(), b.c.hash_of()));
        let detail = json!({"size": C::SIZE, "one": show_alg(&w), "other": show_alg(&other)});
        match got {
            Ok((x, y, h1, h2)) => {
                if x != same || y != same {
                    ctx.rep.violation(
                        format!("{n}x{n}x{n}: cubes compare {x}/{y}, their pieces are in the same state: {same}", n = C::SIZE),
                        detail,
                    );
                } else if same && h1 != h2 {
                    ctx.rep.violation(format!("{n}x{n}x{n}: equal cubes hash differently", n = C::SIZE), detail);
                }
            }
            Err(e) => ctx.rep.violation(format!("comparing: {e}"), detail),
        }
        ctx.rep.count(if same { "equal_pairs" } else { "unequal_pairs" }, 1);
    }
}

fn piece_equality<P, const M: usize>(ctx: &Ctx, n: usize, see: fn(usize, &P) -> Result<Seen, String>)
where
    P: Piece + Rotatable + PieceSetDescriptor<M>,
{
    let words = rotation_words(&ctx.t);
    let mut all: Vec<(P, Seen)> = vec![];
    for p in P::SOLVED.iter() {
        for w in &words {
            let mut v = p.clone();
            let _ = guarded(|| w.iter().for_each(|(a, k)| v.rotate(&axis_rotation(*a, *k))));
            if let Ok(o) = see(n, &v) {
                all.push((v, o));
            }
        }
    }
    all.truncate(24 * 12);
    for (a, oa) in &all {
        for (b, ob) in &all {
            let same = oa == ob;
            ctx.rep.count("piece_equality_checks", 1);
            if guarded(|| a == b) != Ok(same) {
                ctx.rep.violation(format!("pieces {a:?} and {b:?}: equal should be {same}"), json!({}));
                return;
            }
        }
    }
}

// ------------------------------------------------------------------ C04

fn wide_all<const N: u32>() -> Vec<WideAxisMove<N>> {
    let mut v = vec![];
    for f in FACES.iter() {
        for a in AMOUNTS {
            for d in 0..=N {
                v.push(WideAxisMove::new(f.clone(), a, d).unwrap());
            }
        }
    }
    v
}
fn quarter_all() -> Vec<QuarterAxisMove> {
    use barbarosa::cube_n::space::Direction::*;
    FACES.iter().flat_map(|f| [QuarterAxisMove::new(f.clone(), Positive), QuarterAxisMove::new(f.clone(), Negative)]).collect()
}
pub fn extended_all(r: &mut Sm) -> Vec<ExtendedAxisMove> {
    let mut v: Vec<ExtendedAxisMove> = vec![];
    for f in FACES.iter() {
        for a in AMOUNTS {
            v.push(ExtendedAxisMove::Regular(AxisMove::new(f.clone(), a)));
            for d in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1000, u32::MAX - 1, u32::MAX, r.next() as u32] {
                v.push(ExtendedAxisMove::Wide(WideAxisMove::new(f.clone(), a, d).unwrap()));
            }
        }
    }
    for ax in AXES {
        for a in AMOUNTS {
            v.push(ExtendedAxisMove::Rotation(AxisRotation::new(ax, a)));
            for wide in [false, true] {
                v.push(ExtendedAxisMove::Slice { rot: AxisRotation::new(ax, a), wide });
            }
        }
    }
    v
}

fn by<C: Movable<M> + Clone, M: ?Sized>(c: &C, m: &M) -> C {
    c.clone().moved(m)
}

/// For every move of a type from random states: there and back, both ways, and algs.
fn undo<C, M>(ctx: &Ctx, name: &str, moves: &[M], start: &dyn Fn(&mut Sm) -> C, states: usize, stream: u64)
where
    C: Clone + PartialEq + std::fmt::Debug + Movable<M>,
    M: Move + PartialEq + std::fmt::Debug,
{
    let mut r = Sm::new(ctx.args.seed, stream);
    now(format!("undo {name}"));
    for state in 0..states {
        let Ok(c) = guarded(|| start(&mut r)) else {
            ctx.rep.violation(format!("{name}: making a start state panics"), json!({}));
            return;
        };
        for m in moves {
            tick();
            let got = guarded(|| {
                let i = m.inverse();
                (c.clone().moved(m).moved(&i) == c, c.clone().moved(&i).moved(m) == c, i.inverse() == *m)
            });
            ctx.rep.count("moves_undone", 1);
            if got != Ok((true, true, true)) {
                ctx.rep.violation(
                    format!("{name}: {m:?} then its inverse restores / inverse then move restores / double inverse: {got:?}"),
                    json!({"cube": name, "move": format!("{m:?}"), "state": format!("{c:?}")}),
                );
                if ctx.rep.too_many() {
                    return;
                }
                break;
            }
        }
        // some algs are very long
        let long: &[usize] = match state {
            0 => &[65, 130, 257, 600, 1100, 2500],
            1 if moves.len() == 18 => &[5000, 20_000, 66_000],
            _ => &[],
        };
        for k in 0..8 + long.len() {
            let len = if k < 8 { r.below(12) } else { long[k - 8] };
            tick();
            let alg: Alg<M> = Alg::new((0..len).map(|_| r.pick(moves).clone()).collect());
            let got = guarded(|| {
                let rev = alg.reversed();
                let done = by::<C, Alg<M>>(&c, &alg);
                let mut by_one = c.clone();
                for m in &alg.moves {
                    by_one.apply(m);
                }
                let slice = by::<C, [M]>(&c, &alg.moves[..]);
                (
                    by::<C, Alg<M>>(&done, &rev) == c,
                    by::<C, Alg<M>>(&by::<C, Alg<M>>(&c, &rev), &alg) == c,
                    rev.reversed().moves == alg.moves,
                    by_one == done && slice == done,
                    rev.moves.len() == alg.moves.len(),
                )
            });
            ctx.rep.count("algs_undone", 1);
            if got != Ok((true, true, true, true, true)) {
                ctx.rep.violation(
                    format!("{name}: alg undone / reverse first / reversed twice / one by one / length: {got:?}"),
                    json!({"cube": name, "turns": len, "alg": format!("{:?}", &alg.moves[..len.min(40)]), "state": format!("{c:?}")}),
                );
                if ctx.rep.too_many() {
                    return;
                }
                break;
            }
        }
    }
}

pub fn turned<C: Sut>(r: &mut Sm, maxdepth: usize, len: usize) -> C {
    let mut c = C::SOLVED;
    for t in rand_alg(r, maxdepth, len) {
        c.turn(t, 0);
    }
    c
}

/// The observation of the real cube must come back too, not only equality.
fn undo_seen<C: Sut>(ctx: &Ctx, proj: &Projection, rounds: usize) {
    let s = ctx.t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, 600 + C::SIZE as u64);
    for _ in 0..rounds {
        let mut p = Pair::<C>::new(ctx, proj);
        for t in rand_alg(&mut r, s.maxdepth, 10) {
            if !p.apply(t, 0) {
                return;
            }
        }
        let before = p.seen();
        let len = r.below(9);
        let w = rand_alg(&mut r, s.maxdepth, len);
        for t in w.iter().chain(inverse_alg(&w).iter()) {
            let k = r.below(C::carriers(t.depth));
            if !p.apply(*t, k) {
                return;
            }
        }
        ctx.rep.count("words_undone_by_observation", 1);
        if let Some(d) = diff(s, &before, &p.seen()) {
            ctx.rep.violation(format!("{n}x{n}x{n}: undoing {} leaves: {d}", show_alg(&w), n = C::SIZE), p.replay(json!(show_alg(&w))));
            return;
        }
    }
}

fn orientable_start<C: Sut + CubeN>(r: &mut Sm, maxdepth: usize) -> Orientable<C>
where
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let len = r.below(15);
    let mut o = Orientable::new(turned::<C>(r, maxdepth, len));
    for _ in 0..r.below(4) {
        o.orientation.rotate(&AxisRotation::new(AXES[r.below(3)], AMOUNTS[r.below(3)]));
    }
    o
}

pub fn c04(ctx: &'static Ctx) {
    let mut v: Vec<Job> = vec![];
    let k = if ctx.args.thorough { 20 } else { 3 };
    let mut r0 = Sm::new(ctx.args.seed, 9);
    let ext: &'static Vec<ExtendedAxisMove> = Box::leak(Box::new(extended_all(&mut r0)));
    jobs!(ctx, v, [Cube7, Cube6, Cube5, Cube4, Cube3, Cube2], |p, C| {
        v.push(Box::new(move || {
            let md = ctx.t.size(C::SIZE).maxdepth;
            let st = |r: &mut Sm| turned::<C>(r, md, 20);
            undo::<C, AxisMove>(ctx, &format!("{0}x{0}x{0}, face turns", C::SIZE), &AxisMove::all(), &st, 8 * k, 1);
            undo::<C, QuarterAxisMove>(ctx, &format!("{0}x{0}x{0}, quarter turns", C::SIZE), &quarter_all(), &st, 8 * k, 2);
            undo::<C, NonRedundantAxisMove>(
                ctx,
                &format!("{0}x{0}x{0}, combined turns", C::SIZE),
                &NonRedundantAxisMove::all().collect::<Vec<_>>(),
                &st,
                8 * k,
                3,
            );
            undo::<C, WideAxisMove<0>>(ctx, &format!("{0}x{0}x{0}, depth-0 wide turns", C::SIZE), &wide_all::<0>(), &st, 4 * k, 4);
            undo_seen::<C>(ctx, p, 100 * k);
            record::<C>(ctx, p, "undo", 3, 50, None);
        }));
        v.push(Box::new(move || {
            let md = ctx.t.size(C::SIZE).maxdepth;
            undo::<Orientable<C>, ExtendedAxisMove>(
                ctx,
                &format!("held {0}x{0}x{0}, extended moves", C::SIZE),
                ext,
                &|r: &mut Sm| orientable_start::<C>(r, md),
                4 * k,
                5,
            );
            undo::<Orientable<C>, AxisMove>(
                ctx,
                &format!("held {0}x{0}x{0}, face turns", C::SIZE),
                &AxisMove::all(),
                &|r: &mut Sm| orientable_start::<C>(r, md),
                8 * k,
                6,
            );
        }));
    });
    macro_rules! wides {
        ($($c:ty, $w:literal);*) => { $(
            v.push(Box::new(move || {
                let md = ctx.t.size(<$c as Sut>::SIZE).maxdepth;
                undo::<$c, WideAxisMove<$w>>(ctx, &format!("{0}x{0}x{0}, wide turns to depth {1}", <$c as Sut>::SIZE, $w),
                    &wide_all::<$w>(), &|r: &mut Sm| turned::<$c>(r, md, 20), 8 * k, 7);
            }));
        )* };
    }
    wides!(Cube4, 1; Cube5, 1; Cube6, 1; Cube6, 2; Cube7, 1; Cube7, 2);
    v.push(Box::new(move || {
        // rotations on everything that can be rotated
        let rots: Vec<AxisRotation> = (0..3).flat_map(|a| (1..=3).map(move |k| axis_rotation(a, k))).collect();
        for rot in &rots {
            let inv = rot.inverse();
            let ok = guarded(|| {
                inv.inverse() == *rot
                    && FACES.iter().all(|f| f.clone().rotated(rot).rotated(&inv) == *f && f.clone().rotated(&inv).rotated(rot) == *f)
                    && AXES.iter().all(|f| f.rotated(rot).rotated(&inv) == *f)
                    && back::<Corner, 8>(rot, &inv)
                    && back::<Edge, 12>(rot, &inv)
                    && back::<Wing, 24>(rot, &inv)
                    && back::<CenterCorner, 24>(rot, &inv)
                    && back::<CenterEdge, 24>(rot, &inv)
                    && back::<CenterWing, 48>(rot, &inv)
                    && AxisMove::all().iter().all(|m| m.clone().rotated(rot).rotated(&inv) == *m)
            });
            ctx.rep.count("moves_undone", 1);
            if ok != Ok(true) {
                ctx.rep.violation(format!("rotation {rot:?} and its inverse do not cancel: {ok:?}"), json!({"rotation": format!("{rot:?}")}));
            }
        }
    }));
    v.reverse();
    parallel(v);
}

fn back<P: Piece + Rotatable + PieceSetDescriptor<M>, const M: usize>(rot: &AxisRotation, inv: &AxisRotation) -> bool {
    P::SOLVED.iter().all(|p| p.clone().rotated(rot).rotated(inv) == *p && p.clone().rotated(inv).rotated(rot) == *p)
}

// ------------------------------------------------------------------ C06

/// Sources of randomness of several qualities, all of them finite-state and fair enough
/// for rejection sampling to end.
pub struct OddRng {
    pub kind: usize,
    pub i: u64,
    pub sm: Sm,
}
impl RngCore for OddRng {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.i += 1;
        match self.kind {
            // constants and counters
            0 => 0,
            1 => 1 << 40,
            2 => self.i,
            3 => self.i << 40,
            4 => self.i.wrapping_mul(0x1111_1111_1111_1111),
            // few values
            5 => [0, 1 << 63, 1 << 31, 3 << 60][(self.i % 4) as usize],
            6 => if self.i % 2 == 0 { 0 } else { 0x7fff_ffff_7fff_ffff },
            // sparse and dense bits
            7 => self.sm.next() & self.sm.next() & self.sm.next(),
            8 => self.sm.next() | self.sm.next() | self.sm.next(),
            _ => self.sm.next(),
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
pub const ODD_KINDS: usize = 10;

fn random_legal<C: Sut>(ctx: &Ctx, proj: &Projection, rounds: usize, stream: u64)
where
    rand::distributions::Standard: rand::distributions::Distribution<C>,
{
    use rand::Rng;
    let s = ctx.t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, stream * 10 + C::SIZE as u64);
    now(format!("random cubes of size {}", C::SIZE));
    let mut distinct = std::collections::HashSet::new();
    for round in 0..rounds {
        if ctx.rep.too_many() {
            return;
        }
        let kind = round % (ODD_KINDS + 4);
        let seed = r.next();
        let made = guarded(|| -> C {
            if kind < ODD_KINDS {
                OddRng { kind, i: seed % 64, sm: Sm(seed) }.gen()
            } else if kind == ODD_KINDS {
                rand::rngs::StdRng::seed_from_u64(seed).gen()
            } else if kind == ODD_KINDS + 1 {
                rand::rngs::mock::StepRng::new(seed, 0x9E3779B97F4A7C15 | 1).gen()
            } else if kind == ODD_KINDS + 2 {
                rand::thread_rng().gen()
            } else {
                rand::random()
            }
        });
        tick();
        let detail = json!({"size": C::SIZE, "random_source": kind, "seed": seed});
        let c = match made {
            Ok(c) => c,
            Err(e) => {
                ctx.rep.violation(format!("random {0}x{0}x{0}: {e}", C::SIZE), detail);
                continue;
            }
        };
        let Ok(o) = proj.observe(s, &c) else {
            ctx.rep.violation(format!("random {0}x{0}x{0} cannot be read", C::SIZE), detail);
            continue;
        };
        let Some(mut m) = Model::from_obs(s, &o) else {
            ctx.rep.violation(format!("random {0}x{0}x{0}: a piece is in no possible state", C::SIZE), json!({"detail": detail, "obs": o}));
            continue;
        };
        if let Some(e) = m.illegal(s) {
            ctx.rep.violation(format!("random {0}x{0}x{0} is not solvable: {e}", C::SIZE), json!({"detail": detail, "cube": format!("{c:?}")}));
            continue;
        }
        distinct.insert(m.clone());
        ctx.rep.count("random_cubes", 1);
        // turns from there keep the law, and act as specified
        let mut c = c;
        for _ in 0..3 {
            let t = rand_turn(&mut r, 0);
            m.turn(&ctx.t, s, t);
            if let Err(e) = guarded(|| c.turn(t, 0)) {
                ctx.rep.violation(format!("turning a random cube: {e}"), detail.clone());
                return;
            }
            let o = proj.observe(s, &c).unwrap_or_default();
            let bad = match Model::from_obs(s, &o) {
                None => Some("a piece is in no possible state".to_string()),
                Some(x) => x.illegal(s).or_else(|| diff(s, &m.obs(s), &o)),
            };
            if let Some(e) = bad {
                ctx.rep.violation(format!("{0}x{0}x{0} after turning a random cube by {1}: {e}", C::SIZE, t.show()), detail);
                return;
            }
            ctx.rep.count("turns_from_random_cubes", 1);
        }
    }
    ctx.rep.count(&format!("distinct_random_cubes_size_{}", C::SIZE), distinct.len() as u64);
}

pub fn c06(ctx: &'static Ctx) {
    use rand::Rng;
    let mut v: Vec<Job> = vec![];
    let rounds = if ctx.args.thorough { 400_000 } else { 20_000 };
    jobs!(ctx, v, [Cube3, Cube2], |p, C| {
        for st in 0..3 {
            v.push(Box::new(move || random_legal::<C>(ctx, p, rounds, 60 + st)));
        }
        v.push(Box::new(move || {
            let make = |r: &mut Sm| -> C {
                let kind = r.below(ODD_KINDS);
                OddRng { kind, i: 0, sm: Sm(r.next()) }.gen()
            };
            record::<C>(ctx, p, "legal", if ctx.args.thorough { 120 } else { 24 }, 12, Some(&make));
        }));
        // long histories of turns alone
        v.push(Box::new(move || {
            let s = ctx.t.size(C::SIZE);
            let mut r = Sm::new(ctx.args.seed, 69);
            let mut c = <C as Cube>::SOLVED;
            let mut path = vec![];
            for _ in 0..rounds {
                let t = rand_turn(&mut r, 0);
                path.push(t);
                let k = r.below(C::carriers(0));
                let bad = match guarded(|| c.turn(t, k)) {
                    Err(e) => Some(e),
                    Ok(()) => match p.observe(s, &c).ok().and_then(|o| Model::from_obs(s, &o)) {
                        None => Some("a piece is in no possible state".into()),
                        Some(m) => m.illegal(s),
                    },
                };
                tick();
                if let Some(e) = bad {
                    let tail = &path[path.len().saturating_sub(400)..];
                    ctx.rep.violation(format!("{0}x{0}x{0} after {1} turns: {e}", C::SIZE, path.len()), json!({"size": C::SIZE, "last_turns": show_alg(tail)}));
                    return;
                }
                ctx.rep.count("turns_checked_legal", 1);
            }
        }));
    });
    parallel(v);
    let _ = Amount::Single;
}
