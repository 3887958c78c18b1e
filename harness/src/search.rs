//! C18: tree search against Search.tla; C19 and C20: the cross against Cross.tla.
use crate::cubes::*;
use crate::observe::*;
use crate::tables::*;
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::{AxisMove, Cube3};
use barbarosa::generic::moves::AsMove;
use barbarosa::generic::search::ida::IDASearcher;
use barbarosa::generic::search::{Searcher, Solver};
use barbarosa::generic::{Alg, Cube, Movable, Move};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};

// ------------------------------------------------------------------ graphs as puzzles

/// A turn of a graph: a label, and the same number negative for its opposite.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Label(i32);
impl Move for Label {
    fn inverse(&self) -> Self {
        Label(-self.0)
    }
}

/// A state of a graph; 1 is the solved one.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Node(usize);

thread_local! {
    static GRAPH: RefCell<Vec<Vec<(i32, usize)>>> = RefCell::new(Vec::new());
}

impl AsMove for Node {
    type Move = Label;
}
impl Movable<Label> for Node {
    fn apply(&mut self, m: &Label) {
        GRAPH.with(|g| {
            if let Some(t) = g.borrow()[self.0 - 1].iter().find(|t| t.0 == m.0) {
                self.0 = t.1;
            }
        })
    }
}
impl Cube for Node {
    const SOLVED: Self = Node(1);
}

#[derive(Clone, Debug)]
struct Task {
    succ: Vec<Vec<(i32, usize)>>,
    targets: Vec<bool>,
    h: Vec<f32>,
    start: usize,
    limit: i32,
}

const FAR: u32 = 1_000_000;

impl Task {
    fn least(&self) -> Vec<u32> {
        let n = self.succ.len();
        let mut d: Vec<u32> = (0..n).map(|s| if self.targets[s] { 0 } else { FAR }).collect();
        loop {
            let mut changed = false;
            for s in 0..n {
                for (_, t) in &self.succ[s] {
                    if d[*t - 1] != FAR && d[*t - 1] + 1 < d[s] {
                        d[s] = d[*t - 1] + 1;
                        changed = true;
                    }
                }
            }
            if !changed {
                return d;
            }
        }
    }
    fn json(&self, d: &Value) -> Value {
        json!({"succ": self.succ, "targets": (1..=self.succ.len()).filter(|s| self.targets[s - 1]).collect::<Vec<_>>(),
            "h": self.h.iter().map(|h| if h.is_infinite() { "inf".into() } else { h.to_string() }).collect::<Vec<_>>(),
            "start": self.start, "limit": self.limit, "answer": d})
    }
}

/// Kinds of estimates: 0 none, 1 exact, 2 exact rounded down in quarters, 3 any fraction of the
/// exact one, 4 whole at most exact, 5 with the unreachable ones infinite, 6 anything in quarters.
fn random_task(r: &mut Sm) -> (Task, bool) {
    let most = if r.chance(1, 4) { 9 } else { 6 };
    let n = 1 + r.below(most);
    let mut succ: Vec<Vec<(i32, usize)>> = vec![vec![]; n];
    match r.below(4) {
        // permutations of the states, with their opposites
        0 => {
            for k in 1..=(1 + r.below(2)) as i32 {
                let mut p: Vec<usize> = (1..=n).collect();
                for i in (1..n).rev() {
                    p.swap(i, r.below(i + 1));
                }
                for (s, t) in p.iter().enumerate() {
                    succ[s].push((k, *t));
                    succ[*t - 1].push((-k, s + 1));
                }
            }
        }
        // a line or a ring with some shortcuts
        1 => {
            for s in 0..n {
                succ[s].push((1, (s + 1) % n + 1));
                if r.chance(1, 2) {
                    succ[s].push((-1, (s + n - 1) % n + 1));
                }
                if r.chance(1, 5) {
                    succ[s].push((2, 1 + r.below(n)));
                }
            }
        }
        _ => {
            for s in succ.iter_mut() {
                for k in 1..=r.below(4) as i32 {
                    s.push((k * 3 - 5, 1 + r.below(n)));
                }
            }
        }
    }
    let many = r.below(3);
    let mut targets: Vec<bool> = (0..n).map(|_| many > 0 && r.chance(many as u64, 6)).collect();
    if r.chance(3, 4) {
        let t = r.below(n);
        targets[t] = true;
    }
    let mut k = Task { succ, targets, h: vec![0.0; n], start: 1 + r.below(n), limit: *r.pick(&[0, 1, 2, 3, 4, 5, 8, 12, 200]) };
    let d = k.least();
    let kind = r.below(7);
    for s in 0..n {
        let e = if d[s] == FAR { 12 } else { d[s] };
        k.h[s] = match kind {
            0 => 0.0,
            1 => e as f32,
            2 => r.below(4 * e as usize + 1) as f32 / 4.0,
            3 => (e as f32 * (r.below(1000) as f32 / 999.0)).min(e as f32),
            4 => r.below(e as usize + 1) as f32,
            5 => if d[s] == FAR { f32::INFINITY } else { r.below(e as usize + 1) as f32 },
            _ => if r.chance(1, 9) { f32::INFINITY } else { r.below(24) as f32 / 4.0 },
        };
    }
    (k, kind == 3)
}

/// Long rings, long lines with dead ends, and states with very many turns.
fn large_task(r: &mut Sm) -> Task {
    let n = 30 + r.below(330);
    let mut succ: Vec<Vec<(i32, usize)>> = vec![vec![]; n];
    let shape = r.below(4);
    for s in 0..n {
        match shape {
            // one way round
            0 => succ[s].push((1, (s + 1) % n + 1)),
            // both ways round
            1 => {
                succ[s].push((1, (s + 1) % n + 1));
                succ[s].push((-1, (s + n - 1) % n + 1));
            }
            // a line with dead ends, and ways back
            2 => {
                if s % 3 == 0 {
                    succ[s].push((4, (s + 1).min(n - 1) + 1));
                }
                if s % 3 != 1 {
                    succ[s].push((2, (s + 3 - s % 3).min(n - 1) + 1));
                }
                if s % 3 == 2 && r.chance(1, 2) {
                    succ[s].push((-2, s - 1));
                }
                if s % 30 == 0 {
                    succ[s].push((7, 1));
                }
            }
            // many turns at one state, few at the others
            _ => {
                let k = if s == 0 { n } else { r.below(3) };
                for j in 0..k {
                    succ[s].push((j as i32 + 1, 1 + if s == 0 { j } else { s + r.below(n - s) }));
                }
            }
        }
    }
    let mut targets = vec![false; n];
    if r.chance(4, 5) {
        let t = r.below(n);
        targets[t] = true;
    }
    let start = if shape == 3 && r.chance(2, 3) { 1 } else { 1 + r.below(n) };
    let mut k = Task { succ, targets, h: vec![0.0; n], start, limit: *r.pick(&[0, 40, 200, 400, 1000]) };
    let d = k.least();
    let kind = if shape == 3 { 1 } else { r.below(5) };
    for s in 0..n {
        k.h[s] = match kind {
            0 => 0.0,
            1 => if d[s] == FAR { f32::INFINITY } else { d[s] as f32 },
            2 => if d[s] == FAR { f32::INFINITY } else { (d[s] / 2) as f32 },
            3 => if d[s] == FAR { 500.0 } else { d[s].saturating_sub(s as u32 % 2) as f32 },
            _ => if d[s] == FAR { 0.0 } else { d[s] as f32 * 0.75 },
        };
    }
    k
}

type Answer = Option<(Vec<i32>, usize)>;

fn ask(k: &Task, solve: bool) -> Result<Answer, String> {
    guarded(|| {
        GRAPH.with(|g| *g.borrow_mut() = k.succ.clone());
        let s = IDASearcher::new(
            |c: &Node| k.h[c.0 - 1],
            |c: &Node| k.succ[c.0 - 1].iter().map(|(l, t)| (Node(*t), Label(*l))).collect::<Vec<_>>(),
            k.limit,
        );
        if solve {
            let a: Option<Alg<Label>> = s.solve(&Node(k.start));
            a.map(|a| {
                let mut at = Node(k.start);
                at.apply(&a);
                (a.moves.iter().map(|m| m.0).collect(), at.0)
            })
        } else {
            s.search(&Node(k.start), |c: &Node| k.targets[c.0 - 1]).map(|(a, c)| (a.moves.iter().map(|m| m.0).collect(), c.0))
        }
    })
}

/// The specification's Right.
fn wrong(k: &Task, a: &Answer) -> Option<String> {
    let d = k.least();
    let admissible = (0..k.succ.len()).all(|s| d[s] == FAR || k.h[s] <= d[s] as f32);
    let whole = k.h.iter().all(|h| h.is_infinite() || h.fract() == 0.0);
    match a {
        Some((turns, at)) => {
            let mut s = k.start;
            for t in turns {
                match k.succ[s - 1].iter().find(|x| x.0 == *t) {
                    Some(x) => s = x.1,
                    None => return Some(format!("{turns:?} is no path: no turn {t} at state {s}")),
                }
            }
            if s != *at {
                return Some(format!("{turns:?} leads to {s}, the state given is {at}"));
            }
            if !k.targets[s - 1] {
                return Some(format!("{turns:?} leads to {s}, which is no target"));
            }
            if admissible && turns.len() as u32 != d[k.start - 1] {
                return Some(format!("{turns:?} has {} turns, {} are enough", turns.len(), d[k.start - 1]));
            }
            if k.targets[k.start - 1] && !turns.is_empty() {
                return Some(format!("the start is a target, yet {turns:?}"));
            }
        }
        None => {
            if k.targets[k.start - 1] {
                return Some("the start is a target, none was found".into());
            }
            if admissible && whole && d[k.start - 1] as i64 <= k.limit as i64 {
                return Some(format!("none found, a target is {} turns away, the limit is {}", d[k.start - 1], k.limit));
            }
        }
    }
    None
}

fn graphs(ctx: &Ctx, n: usize) {
    let solved = AtomicU64::new(0);
    let counts: Vec<AtomicU64> = (0..4).map(|_| AtomicU64::new(0)).collect();
    let bad = over(n, "graphs", |i| {
        let mut r = Sm::new(ctx.args.seed, 180_000_000 + i as u64);
        let (mut k, _) = random_task(&mut r);
        let solve = r.chance(1, 4);
        if solve {
            k.targets = (0..k.succ.len()).map(|s| s == 0).collect();
            let d = k.least();
            for s in 0..k.h.len() {
                if d[s] != FAR && r.chance(4, 5) {
                    k.h[s] = k.h[s].min(d[s] as f32);
                }
            }
            solved.fetch_add(1, Ordering::Relaxed);
        }
        let a = match ask(&k, solve) {
            Ok(a) => a,
            Err(e) => return Some(format!("{e}; task {}", k.json(&Value::Null))),
        };
        let d = k.least();
        counts[match &a {
            None => 0,
            Some((t, _)) if t.len() < 2 => 1,
            Some((t, _)) if t.len() < 4 => 2,
            _ => 3,
        }]
        .fetch_add(1, Ordering::Relaxed);
        wrong(&k, &a).map(|e| format!("{e}; least {d:?}; task {}", k.json(&json!(a))))
    });
    if let Some((i, e)) = bad {
        ctx.rep.violation(format!("search in graph {i}: {e}"), json!({"graph": i, "seed": ctx.args.seed, "what": e}));
    }
    let large = if ctx.args.thorough { 3_000 } else { 300 };
    let far: Vec<AtomicU64> = (0..3).map(|_| AtomicU64::new(0)).collect();
    let bad = over(large, "large graphs", |i| {
        let mut r = Sm::new(ctx.args.seed, 185_000_000 + i as u64);
        let k = large_task(&mut r);
        let a = match ask(&k, false) {
            Ok(a) => a,
            Err(e) => return Some(format!("{e}; task {}", k.json(&Value::Null))),
        };
        far[match &a {
            None => 0,
            Some((t, _)) if t.len() < 64 => 1,
            _ => 2,
        }]
        .fetch_add(1, Ordering::Relaxed);
        wrong(&k, &a).map(|e| format!("{e}; task {}", k.json(&json!(a))))
    });
    if let Some((i, e)) = bad {
        ctx.rep.violation(format!("search in large graph {i}: {e}"), json!({"large graph": i, "seed": ctx.args.seed, "what": e}));
    }
    for (c, name) in far.iter().zip(["large_graphs_none_found", "large_graphs_found_within_63", "large_graphs_found_further"]) {
        ctx.rep.count(name, c.load(Ordering::Relaxed));
    }
    ctx.rep.count("graphs_searched", n as u64);
    ctx.rep.count("graphs_solved", solved.into_inner());
    for (c, name) in counts.iter().zip(["none_found", "found_within_1", "found_within_3", "found_further"]) {
        ctx.rep.count(name, c.load(Ordering::Relaxed));
    }
}

fn trace_graphs(ctx: &Ctx, n: usize) {
    let mut tr = Tracer::new(&ctx.args, "TraceSearch", "search", json!({}));
    let mut r = Sm::new(ctx.args.seed, 181);
    while tr.events < n as u64 {
        let (k, odd) = random_task(&mut r);
        if odd {
            continue;
        }
        let h: Vec<u32> = k.h.iter().map(|h| if h.is_infinite() { FAR } else { (h * 4.0) as u32 }).collect();
        let (found, turns, at) = match ask(&k, false) {
            Ok(Some((t, at))) => (true, t, at),
            Ok(None) => (false, vec![], 0),
            Err(e) => {
                ctx.rep.violation(format!("search: {e}"), k.json(&Value::Null));
                break;
            }
        };
        let targets: Vec<usize> = (1..=k.succ.len()).filter(|s| k.targets[s - 1]).collect();
        let v = json!({"e": "ask", "succ": k.succ, "targets": targets, "h": h, "start": k.start, "limit": k.limit,
            "found": found, "turns": turns, "at": at});
        if turns.len() > 3 {
            ctx.rep.sample(v.clone());
        }
        tr.push(v);
    }
    tr.segments = tr.events;
    tr.finish(&ctx.rep);
}

// ------------------------------------------------------------------------- real cubes

fn turn_of(m: &AxisMove) -> Turn {
    Turn { face: face_idx(&m.face), amount: amount_no(m.amount), depth: 0 }
}
fn turns_of(a: &Alg<AxisMove>) -> Vec<Turn> {
    a.moves.iter().map(turn_of).collect()
}
pub fn pairs(a: &[Turn]) -> Vec<Value> {
    a.iter().map(|t| json!([FACE_SIGNED[t.face], t.amount])).collect()
}
pub fn every_turn() -> impl Iterator<Item = Turn> {
    (0..18).map(|m| Turn { face: m / 3, amount: m % 3 + 1, depth: 0 })
}

/// All cubes within some turns of solved, with how many.
fn near(c: &Cubes, turns: usize) -> HashMap<Model, u32> {
    let mut seen = HashMap::new();
    let mut front = vec![Model::solved(c.s)];
    seen.insert(front[0].clone(), 0);
    for d in 1..=turns as u32 {
        let mut next = vec![];
        for m in &front {
            for t in every_turn() {
                let mut n = m.clone();
                n.turn(c.t, c.s, t);
                if !seen.contains_key(&n) {
                    seen.insert(n.clone(), d);
                    next.push(n);
                }
            }
        }
        front = next;
    }
    seen
}

/// The least turns to solved, by meeting the near cubes in the middle.
fn distance(c: &Cubes, near: &HashMap<Model, u32>, m: &Model, beyond: usize) -> Option<u32> {
    let mut best = near.get(m).copied();
    let mut front = vec![m.clone()];
    for d in 1..=beyond as u32 {
        let mut next = vec![];
        for x in &front {
            for t in every_turn() {
                let mut n = x.clone();
                n.turn(c.t, c.s, t);
                if let Some(k) = near.get(&n) {
                    best = Some(best.map_or(k + d, |b| b.min(k + d)));
                }
                next.push(n);
            }
        }
        front = next;
        if best.map_or(false, |b| b <= d + 1) {
            break;
        }
    }
    best
}

fn sees(ctx: &Ctx, c: &Cubes, cube: &Cube3, m: &Model) -> Option<String> {
    let _ = ctx;
    match c.proj.observe(c.s, cube) {
        Ok(o) => diff(c.s, &m.obs(c.s), &o),
        Err(e) => Some(e),
    }
}

fn successors(ctx: &Ctx, c: &Cubes, n: usize) {
    let bad = over(n, "successors", |i| {
        let m = c.random(&mut Sm::new(ctx.args.seed, 182_000 + i as u64), i % 25);
        let cube = c.build(&m);
        let all: Vec<(Cube3, AxisMove)> = cube.successors().into_iter().collect();
        let mut seen = vec![0; 18];
        for (s, mov) in &all {
            let t = turn_of(mov);
            seen[t.face * 3 + t.amount - 1] += 1;
            let mut x = m.clone();
            x.turn(c.t, c.s, t);
            if let Some(e) = sees(ctx, c, s, &x) {
                return Some(format!("the cube listed with {mov} is not the one after {mov}: {e}"));
            }
        }
        (seen != vec![1; 18]).then(|| format!("the turns listed are {:?}", all.iter().map(|x| x.1.to_string()).collect::<Vec<_>>()))
    });
    if let Some((i, e)) = bad {
        ctx.rep.violation(format!("Cube3::successors: {e}"), json!({"case": i, "what": e}));
    }
    ctx.rep.count("successor_lists", n as u64);
}

fn real_cubes(ctx: &Ctx, c: &Cubes, rounds: usize, tr: &mut Tracer) {
    let near4 = near(c, 4);
    ctx.rep.set("cubes_within_four_turns", near4.len() as u64);
    let table: HashMap<Cube3, u32> = near4.iter().map(|(m, d)| (c.build(m), *d)).collect();
    let close: Vec<&Model> = near4.iter().filter(|x| *x.1 <= 3).map(|x| x.0).collect();
    let close = {
        let mut x = close;
        x.sort_by(|a, b| a.g.cmp(&b.g));
        x
    };
    let events = std::sync::Mutex::new(vec![]);
    let lens: Vec<AtomicU64> = (0..9).map(|_| AtomicU64::new(0)).collect();
    let bad = over(rounds, "real cubes", |i| {
        let mut r = Sm::new(ctx.args.seed, 183_000 + i as u64);
        let kind = i % 8;
        let m = match kind {
            0 | 1 => (*r.pick(&close)).clone(),
            _ => {
                let len = r.below(if kind == 7 { 6 } else { 8 });
                c.random(&mut r, len)
            }
        };
        let cube = c.build(&m);
        let mid = |x: &Cube3| table.get(x).map_or(5.0, |d| *d as f32);
        let part = r.below(100) as f32 / 100.0;
        let admissible = kind < 6;
        let a = guarded(|| match kind {
            0 => cube.solve_with_heuristic(|_| 0.0),
            1 => cube.solve_with_heuristic(|x: &Cube3| mid(x) * part),
            2..=4 => cube.solve_with_heuristic(mid),
            5 => cube.solve_with_heuristic(|x: &Cube3| (mid(x) - part).max(0.0)),
            6 => cube.solve_with_heuristic(|x: &Cube3| 2.5 * mid(x)),
            _ => cube.solve_with_heuristic(|x: &Cube3| mid(x) * mid(x) / 3.0),
        });
        let a = match a {
            Ok(Some(a)) => turns_of(&a),
            Ok(None) => return Some(format!("no solution for {:?}", pairs_of(c, &m))),
            Err(e) => return Some(e),
        };
        let mut x = m.clone();
        x.alg(c.t, c.s, &a);
        if !x.is_identity() {
            return Some(format!("{} does not solve {cube:?}", show_alg(&a)));
        }
        let d = distance(c, &near4, &m, 3).expect("within seven turns");
        lens[(a.len()).min(8)].fetch_add(1, Ordering::Relaxed);
        if admissible && a.len() as u32 != d {
            return Some(format!("{} has {} turns, {d} are enough for {cube:?}", show_alg(&a), a.len()));
        }
        if i % 16 == 1 && a.len() <= 5 {
            events.lock().unwrap().push((i, json!({"e": "solve", "start": m.obs(c.s), "ms": pairs(&a), "least": admissible})));
        }
        None
    });
    if let Some((i, e)) = bad {
        ctx.rep.violation(format!("solve_with_heuristic, cube {i}: {e}"), json!({"case": i, "seed": ctx.args.seed, "what": e}));
    }
    let mut ev = events.into_inner().unwrap();
    ev.sort_by_key(|x| x.0);
    for (_, v) in ev.into_iter().take(40) {
        tr.push(v);
        tr.segments += 1;
    }
    ctx.rep.count("real_cubes_solved", rounds as u64);
    for (i, l) in lens.iter().enumerate() {
        ctx.rep.count(&format!("solutions_of_{i}_turns"), l.load(Ordering::Relaxed));
    }
}

fn pairs_of(c: &Cubes, m: &Model) -> Vec<[i32; 4]> {
    m.obs(c.s)
}

/// Other targets than the solved cube, and the cube given back with the turns.
fn real_targets(ctx: &Ctx, c: &Cubes, rounds: usize) {
    let kinds = ["corner", "edge"];
    let bad = over(rounds, "targets", |i| {
        let mut r = Sm::new(ctx.args.seed, 184_000 + i as u64);
        let len = r.below(20);
        let m = c.random(&mut r, len);
        // some two pieces home
        let kind = *r.pick(&kinds);
        let ix: Vec<usize> = (0..20).filter(|h| c.s.kinds[*h] == kind).collect();
        let want = [*r.pick(&ix), *r.pick(&ix)];
        let obs: Vec<[i32; 4]> = want.iter().map(|h| c.s.obs[*h][0]).collect();
        let slot: Vec<usize> = want.iter().map(|h| c.home.iter().position(|x| x == h).unwrap()).collect();
        let target = |x: &Cube3| {
            slot.iter().zip(&obs).all(|(s, o)| {
                if *s < 12 {
                    x.edges.at_index(*s) == Some(&edge_of(o))
                } else {
                    x.corners.at_index(*s - 12) == Some(&corner_of(o))
                }
            })
        };
        let cube = c.build(&m);
        let limit = 4;
        let s = IDASearcher::new(|_: &Cube3| 0.0, Cube3::successors, limit);
        let found = match guarded(|| s.search(&cube, target)) {
            Ok(x) => x,
            Err(e) => return Some(e),
        };
        // the least turns for those two pieces
        let mut front = vec![(m.g[want[0]], m.g[want[1]])];
        let home = |x: &(u8, u8)| x.0 == 0 && x.1 == 0;
        let mut least = None;
        for d in 0..=limit as usize {
            if front.iter().any(home) {
                least = Some(d);
                break;
            }
            let mut next = std::collections::HashSet::new();
            for (a, b) in &front {
                for t in every_turn() {
                    let turn = |h: usize, g: u8| {
                        if c.s.inturn[0][t.face][c.s.wher[h][g as usize]] {
                            c.t.mult[c.t.facerot[t.face][t.amount - 1]][g as usize] as u8
                        } else {
                            g
                        }
                    };
                    next.insert((turn(want[0], *a), turn(want[1], *b)));
                }
            }
            front = next.into_iter().collect();
        }
        match (found, least) {
            (None, None) => None,
            (None, Some(d)) => Some(format!("two pieces home are {d} turns away, the limit is {limit}, none found")),
            (Some((a, at)), d) => {
                let ts = turns_of(&a);
                let mut x = m.clone();
                x.alg(c.t, c.s, &ts);
                if let Some(e) = sees(ctx, c, &at, &x) {
                    return Some(format!("{a} does not lead to the cube given with it: {e}"));
                }
                if !want.iter().all(|h| x.g[*h] == 0) {
                    return Some(format!("{a} does not bring the two pieces home"));
                }
                (d != Some(ts.len())).then(|| format!("{a} has {} turns, least {d:?}", ts.len()))
            }
        }
    });
    if let Some((i, e)) = bad {
        ctx.rep.violation(format!("search for two pieces home, cube {i}: {e}"), json!({"case": i, "seed": ctx.args.seed, "what": e}));
    }
    ctx.rep.count("searches_for_two_pieces", rounds as u64);
}

pub fn c18(ctx: &'static Ctx) {
    let th = ctx.args.thorough;
    graphs(ctx, if th { 40_000_000 } else { 1_500_000 });
    trace_graphs(ctx, if th { 20_000 } else { 1500 });
    let Some(c) = Cubes::new(ctx) else { return };
    successors(ctx, &c, 2000);
    let mut tr = Tracer::new(&ctx.args, "TraceCross", "solutions", json!({"N": 3}));
    real_cubes(ctx, &c, if th { 20_000 } else { 1200 }, &mut tr);
    tr.finish(&ctx.rep);
    real_targets(ctx, &c, if th { 5000 } else { 300 });
}

// -------------------------------------------------------------------------- the cross

/// What TLC found of the cross of one face (MCCross): the turns every state needs.
struct CrossT {
    face: usize,
    edges: Vec<usize>,
    dist: Vec<u8>,
}

impl CrossT {
    fn load(ctx: &Ctx, s: &SizeT, face: usize) -> CrossT {
        let path = format!("{}/cross{}.csv", ctx.args.dir, face + 1);
        let text = std::fs::read_to_string(&path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let mut dist = vec![255; 24 * 24 * 24 * 24];
        for line in text.lines() {
            let (a, b) = line.split_once(',').expect("two columns");
            dist[a.trim().parse::<usize>().unwrap()] = b.trim().parse().unwrap();
        }
        let edges = (0..20).filter(|i| s.kinds[*i] == "edge" && s.inturn[0][face][*i]).collect();
        CrossT { face, edges, dist }
    }
    fn code(&self, m: &Model) -> usize {
        self.edges.iter().fold(0, |c, e| c * 24 + m.g[*e] as usize)
    }
    fn of(&self, m: &Model) -> u8 {
        self.dist[self.code(m)]
    }
}

/// A legal cube with the cross edges in a given state: the other edges fill up.
fn with_cross(s: &SizeT, x: &CrossT, code: usize, r: &mut Sm) -> Model {
    let mut m = Model::solved(s);
    let mut rest = code;
    for e in x.edges.iter().rev() {
        m.g[*e] = (rest % 24) as u8;
        rest /= 24;
    }
    let edges: Vec<usize> = (0..20).filter(|i| s.kinds[*i] == "edge").collect();
    let taken: Vec<usize> = x.edges.iter().map(|e| s.wher[*e][m.g[*e] as usize]).collect();
    let mut free: Vec<usize> = edges.iter().copied().filter(|p| !taken.contains(p)).collect();
    let others: Vec<usize> = edges.iter().copied().filter(|e| !x.edges.contains(e)).collect();
    for i in (1..free.len()).rev() {
        free.swap(i, r.below(i + 1));
    }
    for (e, p) in others.iter().zip(&free) {
        let ways: Vec<usize> = (0..24).filter(|g| s.wher[*e][*g] == *p).collect();
        m.g[*e] = *r.pick(&ways) as u8;
    }
    if m.illegal(s).map_or(false, |e| e.contains("flipped")) {
        let e = others[0];
        let p = s.wher[e][m.g[e] as usize];
        m.g[e] = (0..24).find(|g| s.wher[e][*g] == p && *g as u8 != m.g[e]).unwrap() as u8;
    }
    if m.illegal(s).is_some() {
        // an odd permutation: two of the others change places
        let (a, b) = (others[0], others[1]);
        let (pa, pb) = (s.wher[a][m.g[a] as usize], s.wher[b][m.g[b] as usize]);
        let (fa, fb) = (s.flip[a][m.g[a] as usize], s.flip[b][m.g[b] as usize]);
        m.g[a] = (0..24).find(|g| s.wher[a][*g] == pb && s.flip[a][*g] == fa).unwrap() as u8;
        m.g[b] = (0..24).find(|g| s.wher[b][*g] == pa && s.flip[b][*g] == fb).unwrap() as u8;
    }
    m
}

fn crosses(ctx: &Ctx, c: &Cubes) -> Vec<CrossT> {
    (0..6).map(|f| CrossT::load(ctx, c.s, f)).collect()
}

fn home_of_cross(c: &Cubes, x: &CrossT, m: &Model) -> i32 {
    let _ = c;
    x.edges.iter().filter(|e| m.g[**e] == 0).count() as i32
}

/// The cube one of the solvers gives, judged; the turns it took.
fn judge_cross(ctx: &Ctx, c: &Cubes, x: &CrossT, m: &Model, fast: bool) -> Result<(Vec<Turn>, Vec<[i32; 4]>), String> {
    use barbarosa::cube3::cfop::cross::{count_cross_pieces, solve_cross, solve_cross_fast};
    let face = face_of_signed(FACE_SIGNED[x.face]);
    let cube = c.build(m);
    let name = if fast { "solve_cross_fast" } else { "solve_cross" };
    let (a, at) = guarded(|| if fast { solve_cross_fast(&cube, &face) } else { solve_cross(&cube, &face) })?
        .ok_or_else(|| format!("{name} finds nothing for {cube:?} on {face}"))?;
    let ts = turns_of(&a);
    let mut end = m.clone();
    end.alg(c.t, c.s, &ts);
    if let Some(e) = sees(ctx, c, &at, &end) {
        return Err(format!("{name} on {face}: {a} does not lead to the cube given with it: {e}; from {cube:?}"));
    }
    if home_of_cross(c, x, &end) != 4 {
        return Err(format!("{name} on {face}: {a} brings {} edges home, not the cross; from {cube:?}", home_of_cross(c, x, &end)));
    }
    let d = x.of(m) as usize;
    if !fast && ts.len() != d {
        return Err(format!("solve_cross on {face}: {a} has {} turns, {d} are enough; from {cube:?}", ts.len()));
    }
    let n = count_cross_pieces(&at, &face);
    if n != 4 {
        return Err(format!("count_cross_pieces counts {n} on the solved cross {face}: {at:?}"));
    }
    let seen = c.proj.observe(c.s, &at)?;
    Ok((ts, seen))
}

fn counting(ctx: &Ctx, c: &Cubes, xs: &[CrossT], n: usize, tr: &mut Tracer) {
    use barbarosa::cube3::cfop::cross::{count_cross_pieces, get_cross_pieces, is_cross_edge};
    use barbarosa::generic::piece::PieceSetDescriptor;
    // which edges are the cross of a face
    let homes = <barbarosa::cube_n::Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS;
    for x in xs {
        let face = face_of_signed(FACE_SIGNED[x.face]);
        let r = guarded(|| {
            let is: Vec<usize> = (0..12).filter(|i| is_cross_edge(&homes[*i], &face)).map(|i| c.home[i]).collect();
            let got: Vec<usize> = get_cross_pieces(&face)
                .iter()
                .map(|p| homes.iter().position(|h| h == p).map_or(99, |i| c.home[i]))
                .collect();
            (is, got)
        });
        match r {
            Err(e) => ctx.rep.violation(format!("cross edges of {face}: {e}"), json!({"face": FACE_SIGNED[x.face]})),
            Ok((mut is, mut got)) => {
                is.sort();
                got.sort();
                for (what, v) in [("is_cross_edge", &is), ("get_cross_pieces", &got)] {
                    if *v != x.edges {
                        let show: Vec<_> = v.iter().map(|h| c.s.homes.get(*h)).collect();
                        ctx.rep.violation(format!("{what} takes the cross of {face} to be {show:?}"), json!({"face": FACE_SIGNED[x.face]}));
                    }
                }
            }
        }
    }
    let events = std::sync::Mutex::new(vec![]);
    let bad = over(n, "counting", |i| {
        let mut r = Sm::new(ctx.args.seed, 190_000_000 + i as u64);
        let m = match i % 4 {
            0 => {
                let len = r.below(25);
                c.random(&mut r, len)
            }
            1 => {
                let len = r.below(5);
                c.random(&mut r, len)
            }
            // near a cross: some of its edges home, others flipped or moved
            _ => {
                let x = &xs[i / 4 % 6];
                let mut code = 0;
                for _ in 0..100 {
                    code = (0..4).fold(0, |a, _| a * 24 + if r.chance(1, 2) { 0 } else { r.below(24) });
                    if x.dist[code] != 255 {
                        break;
                    }
                    code = 0;
                }
                with_cross(c.s, x, code, &mut r)
            }
        };
        let cube = c.build(&m);
        for x in xs {
            let face = face_of_signed(FACE_SIGNED[x.face]);
            let k = count_cross_pieces(&cube, &face);
            if k != home_of_cross(c, x, &m) {
                return Some(format!("{k} edges of {face} counted home, {} are, on {cube:?}", home_of_cross(c, x, &m)));
            }
            if i < 300 && i % 6 == x.face {
                events.lock().unwrap().push((i, json!({"e": "count", "face": FACE_SIGNED[x.face], "obs": m.obs(c.s), "n": k})));
            }
        }
        None
    });
    if let Some((i, e)) = bad {
        ctx.rep.violation(format!("count_cross_pieces: {e}"), json!({"case": i, "seed": ctx.args.seed, "what": e}));
    }
    let mut ev = events.into_inner().unwrap();
    ev.sort_by_key(|x| x.0);
    for (_, v) in ev {
        tr.push(v);
    }
    ctx.rep.count("cubes_counted_on_six_faces", n as u64);
}

pub fn c19(ctx: &'static Ctx) {
    let th = ctx.args.thorough;
    let Some(c) = Cubes::new(ctx) else { return };
    let xs = crosses(ctx, &c);
    let mut tr = Tracer::new(&ctx.args, "TraceCross", "crosses", json!({"N": 3}));
    counting(ctx, &c, &xs, if th { 2_000_000 } else { 200_000 }, &mut tr);
    tr.segments += 1;
    // the states of each face by the turns they need
    let by: Vec<Vec<Vec<u32>>> = xs
        .iter()
        .map(|x| {
            let mut l = vec![vec![]; 9];
            for (code, d) in x.dist.iter().enumerate() {
                if *d != 255 {
                    l[*d as usize].push(code as u32);
                }
            }
            l
        })
        .collect();
    // (turns needed, how many per face) for the exact solver; then for the fast one
    let exact: &[(usize, usize)] = if th {
        &[(0, 1), (1, 15), (2, 158), (3, 1394), (4, 6000), (5, 4000), (6, 500), (7, 24), (8, 1)]
    } else {
        &[(0, 1), (1, 15), (2, 158), (3, 400), (4, 400), (5, 160), (6, 16), (7, 1)]
    };
    let quick: &[(usize, usize)] = if th {
        &[(0, 1), (1, 15), (2, 158), (3, 1394), (4, 6000), (5, 20000), (6, 20000), (7, 8000), (8, 102)]
    } else {
        &[(0, 1), (1, 15), (2, 158), (3, 300), (4, 300), (5, 300), (6, 300), (7, 100), (8, 6)]
    };
    // the long ones first
    let mut jobs: Vec<(usize, bool, usize, usize)> = vec![];
    for (fast, plan) in [(false, exact), (true, quick)] {
        for (d, n) in plan.iter().rev() {
            for f in 0..6 {
                for i in 0..*n.min(&by[f][*d].len()) {
                    jobs.push((f, fast, *d, i));
                }
            }
        }
    }
    let events = std::sync::Mutex::new(vec![]);
    let extra = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let j = next.fetch_add(1, Ordering::Relaxed) as usize;
                if j >= jobs.len() || ctx.rep.too_many() {
                    break;
                }
                tick();
                let (f, fast, d, i) = jobs[j];
                let all = &by[f][d];
                let mut r = Sm::new(ctx.args.seed, 191_000_000 + j as u64);
                let plan_all = (if fast { quick } else { exact }).iter().find(|p| p.0 == d).unwrap().1 >= all.len();
                let code = if plan_all { all[i] } else { *r.pick(all) } as usize;
                let mut m = with_cross(c.s, &xs[f], code, &mut r);
                // the corners anywhere: whole words around keep the edges' state
                if r.chance(1, 2) {
                    m = scatter_corners(&c, m, &mut r);
                }
                now(format!("cross of {} in {d} turns, {}", FACE_NAMES[f], if fast { "fast" } else { "exact" }));
                match judge_cross(ctx, &c, &xs[f], &m, fast) {
                    Ok((ts, seen)) => {
                        if fast && ts.len() > d {
                            extra.fetch_add(1, Ordering::Relaxed);
                        }
                        if i < 8 && (fast || d <= 7) {
                            let v = json!({"e": "cross", "face": FACE_SIGNED[f], "start": m.obs(c.s), "ms": pairs(&ts), "end": seen,
                                "least": !fast});
                            events.lock().unwrap().push((j, v));
                        }
                    }
                    Err(e) => ctx.rep.violation(e.clone(), json!({"face": FACE_SIGNED[f], "fast": fast, "obs": m.obs(c.s), "what": e})),
                }
            });
        }
    });
    for (name, plan) in [("exact", exact), ("fast", quick)] {
        for (d, n) in plan {
            ctx.rep.set(&format!("{name}_of_{d}_turns"), (0..6).map(|f| (*n).min(by[f][*d].len()) as u64).sum());
        }
    }
    ctx.rep.set("fast_with_extra_turns", extra.into_inner());
    let mut ev = events.into_inner().unwrap();
    ev.sort_by_key(|x| x.0);
    for (i, (_, v)) in ev.into_iter().enumerate() {
        if i % 97 == 0 {
            ctx.rep.sample(v.clone());
        }
        tr.push(v);
        tr.segments += 1;
    }
    tr.finish(&ctx.rep);
}

/// The corners rearranged by three-cycles and twists that keep the cube legal.
fn scatter_corners(c: &Cubes, mut m: Model, r: &mut Sm) -> Model {
    let corners: Vec<usize> = (0..20).filter(|h| c.s.kinds[*h] == "corner").collect();
    let other = c.random(r, 30);
    // the corners of another cube, if their parity suits; else with two turned round first
    for h in &corners {
        m.g[*h] = other.g[*h];
    }
    if m.illegal(c.s).is_some() {
        let mut o = other;
        o.turn(c.t, c.s, Turn { face: r.below(6), amount: 1, depth: 0 });
        for h in &corners {
            m.g[*h] = o.g[*h];
        }
    }
    m
}

pub fn c20(ctx: &'static Ctx) {
    use barbarosa::cube3::cfop::cross::worse_but_admissable_cross_heuristic;
    use barbarosa::cube_n::pieces::edge::min_moves_to_solve;
    use barbarosa::generic::Piece as _;
    let th = ctx.args.thorough;
    let Some(c) = Cubes::new(ctx) else { return };
    let v = read_json(&format!("{}/steps.json", ctx.args.dir));
    let steps: Vec<Vec<i64>> = v.as_array().unwrap().iter().map(|x| x.as_array().unwrap().iter().map(|y| y.as_i64().unwrap()).collect()).collect();
    let mut tr = Tracer::new(&ctx.args, "TraceSteps", "steps", json!({}));
    let homes: Vec<_> = (0..12).map(|i| barbarosa::cube_n::pieces::edge::EdgeSet::SOLVED.at_index(i).unwrap().position()).collect();
    for slot in 0..12 {
        let h = c.home[slot];
        for g in 0..24 {
            let e = edge_of(&c.s.obs[h][g]);
            match guarded(|| min_moves_to_solve(&homes[slot], &e)) {
                Ok(n) => {
                    if n as i64 != steps[h][g] {
                        ctx.rep.violation(
                            format!("the edge of home {:?} as {e:?}: {n} moves claimed, {} needed", c.s.homes[h], steps[h][g]),
                            json!({"home": c.s.homes[h], "obs": c.s.obs[h][g], "claimed": n, "needed": steps[h][g]}),
                        );
                    }
                    tr.push(json!({"e": "alone", "home": c.s.homes[h], "obs": c.s.obs[h][g], "n": n}));
                }
                Err(e) => ctx.rep.violation(format!("min_moves_to_solve: {e}"), json!({"home": c.s.homes[h], "obs": c.s.obs[h][g]})),
            }
        }
    }
    ctx.rep.set("edges_and_states", 12 * 24);
    let xs = crosses(ctx, &c);
    let rounds = if th { 20 } else { 1 };
    let events = std::sync::Mutex::new(vec![]);
    for x in &xs {
        let codes: Vec<usize> = (0..x.dist.len()).filter(|k| x.dist[*k] != 255).collect();
        assert_eq!(codes.len(), 190_080);
        let face = face_of_signed(FACE_SIGNED[x.face]);
        let tight = AtomicU64::new(0);
        for k in 0..rounds {
            let bad = over(codes.len(), "crosses", |i| {
                let mut r = Sm::new(ctx.args.seed, 200_000_000 + (k * 6 + x.face) as u64 * 200_000 + i as u64);
                let m = with_cross(c.s, x, codes[i], &mut r);
                let cube = c.build(&m);
                let h = worse_but_admissable_cross_heuristic(&cube, &face);
                let d = x.dist[codes[i]];
                if h == d as f32 {
                    tight.fetch_add(1, Ordering::Relaxed);
                }
                if i % 9973 == 0 && k == 0 {
                    events.lock().unwrap().push((x.face * 200_000 + i, json!({"e": "estimate", "face": FACE_SIGNED[x.face], "obs": m.obs(c.s), "h4": (h * 4.0) as i64})));
                }
                if h > d as f32 {
                    return Some(format!("estimate {h}, {d} turns are enough for the cross of {face}: {cube:?}"));
                }
                if (h == 0.0) != (d == 0) || h.is_nan() {
                    return Some(format!("estimate {h}, the cross of {face} is {d} turns away: {cube:?}"));
                }
                None
            });
            if let Some((i, e)) = bad {
                ctx.rep.violation(e, json!({"face": FACE_SIGNED[x.face], "code": codes[i], "seed": ctx.args.seed}));
            }
            ctx.rep.count("cross_states_estimated", codes.len() as u64);
        }
        ctx.rep.count("estimates_exact", tight.into_inner());
    }
    let mut ev = events.into_inner().unwrap();
    ev.sort_by_key(|x| x.0);
    for (_, v) in ev {
        tr.push(v);
    }
    tr.segments = 1;
    tr.finish(&ctx.rep);
}
