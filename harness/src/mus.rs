//! C14: numbering against Index.tla; C15: the table builder against Builder.tla;
//! C16: the table heuristic against Heur.tla; C17: stored tables against Store.tla.
use crate::cubes::*;
use crate::observe::*;
use crate::tables::*;
use crate::turns::rand_alg;
use crate::util::*;
use crate::Ctx;
use barbarosa::cube3::mus::deindex::Deindexable;
use barbarosa::cube3::mus::index::{
    orientation_permutation_index, position_disposition_index, Indexable, OrientationIndexable, PositionIndexable,
};
use barbarosa::cube_n::{AxisMove, Corner, Cube3, Edge};
use barbarosa::generic::{Cube, Movable};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

pub type Corners = [Corner; 8];
pub type Half = [Edge; 6];

fn corner_obs(c: &Corner) -> [i32; 4] {
    let s = see_corner(3, c);
    [s.place[0], s.place[1], s.place[2], s.mark]
}
fn edge_obs(c: &Edge) -> [i32; 4] {
    let s = see_edge(3, c);
    [s.place[0], s.place[1], s.place[2], s.mark]
}

/// The 24 things a corner (or an edge) can look like, and what a turn makes of each:
/// the specification's tables with the homes forgotten.
pub struct Looks {
    pub obs: Vec<[i32; 4]>,
    /// place number 0.., twist or flip
    pub place: Vec<usize>,
    pub twist: Vec<usize>,
    pub turn: Vec<[usize; 18]>,
}
impl Looks {
    pub fn of(t: &Tables, s: &SizeT, kind: &str) -> Looks {
        let mut obs: Vec<[i32; 4]> = vec![];
        let homes: Vec<usize> = (0..s.homes.len()).filter(|h| s.kinds[*h] == kind).collect();
        for h in &homes {
            for g in 0..24 {
                if !obs.contains(&s.obs[*h][g]) {
                    obs.push(s.obs[*h][g]);
                }
            }
        }
        assert!(obs.len() == 24);
        let id = |o: &[i32; 4]| obs.iter().position(|x| x == o).unwrap();
        let mut place = vec![0; 24];
        let mut twist = vec![0; 24];
        let mut turn = vec![[usize::MAX; 18]; 24];
        for h in &homes {
            for g in 0..24 {
                let i = id(&s.obs[*h][g]);
                place[i] = homes.iter().position(|x| *x == s.wher[*h][g]).unwrap();
                twist[i] = (s.twist[*h][g] + s.flip[*h][g]) as usize;
                for f in 0..6 {
                    for a in 0..3 {
                        let to = if s.inturn[0][f][s.wher[*h][g]] { t.mult[t.facerot[f][a]][g] } else { g };
                        let j = id(&s.obs[*h][to]);
                        let m = f * 3 + a;
                        assert!(turn[i][m] == usize::MAX || turn[i][m] == j, "a turn does not see homes");
                        turn[i][m] = j;
                    }
                }
            }
        }
        Looks { obs, place, twist, turn }
    }
}
fn corner_key(c: &Corner) -> usize {
    let p = &c.position;
    ((sign(p.x) > 0) as usize) << 4 | ((sign(p.y) > 0) as usize) << 3 | ((sign(p.z) > 0) as usize) << 2 | axis_no(c.orientation_axis)
}
fn edge_key(e: &Edge) -> usize {
    (axis_no(e.normal_axis)) << 3 | ((sign(e.slice_position.x) > 0) as usize) << 2 | ((sign(e.slice_position.y) > 0) as usize) << 1 | e.oriented as usize
}

/// Both kinds, with fast ways to and from the code's values.
pub struct Pieces {
    pub corner: Looks,
    pub edge: Looks,
    corner_val: Vec<Corner>,
    edge_val: Vec<Edge>,
    corner_id: [usize; 32],
    edge_id: [usize; 32],
}
impl Pieces {
    pub fn new(t: &Tables) -> Pieces {
        let s = t.size(3);
        let corner = Looks::of(t, s, "corner");
        let edge = Looks::of(t, s, "edge");
        let corner_val: Vec<Corner> = corner.obs.iter().map(corner_of).collect();
        let edge_val: Vec<Edge> = edge.obs.iter().map(edge_of).collect();
        let mut corner_id = [usize::MAX; 32];
        let mut edge_id = [usize::MAX; 32];
        for i in 0..24 {
            assert!(corner_obs(&corner_val[i]) == corner.obs[i] && edge_obs(&edge_val[i]) == edge.obs[i]);
            corner_id[corner_key(&corner_val[i])] = i;
            edge_id[edge_key(&edge_val[i])] = i;
        }
        Pieces { corner, edge, corner_val, edge_val, corner_id, edge_id }
    }
    pub fn corners(&self, a: &Corners) -> [usize; 8] {
        std::array::from_fn(|i| self.corner_id[corner_key(&a[i])])
    }
    pub fn half(&self, a: &Half) -> [usize; 6] {
        std::array::from_fn(|i| self.edge_id[edge_key(&a[i])])
    }
    pub fn to_corners(&self, a: &[usize; 8]) -> Corners {
        std::array::from_fn(|i| self.corner_val[a[i]].clone())
    }
    pub fn to_half(&self, a: &[usize; 6]) -> Half {
        std::array::from_fn(|i| self.edge_val[a[i]].clone())
    }
    pub fn corners_ok(&self, a: &[usize; 8]) -> bool {
        let mut used = 0u32;
        let mut tw = 0;
        for x in a {
            used |= 1 << self.corner.place[*x];
            tw += self.corner.twist[*x];
        }
        used == 0xff && tw % 3 == 0
    }
    pub fn half_ok(&self, a: &[usize; 6]) -> bool {
        let mut used = 0u32;
        for x in a {
            used |= 1 << self.edge.place[*x];
        }
        used.count_ones() == 6
    }
}

/// What the two tables number, uniformly.
pub trait Numbered: Sized + Clone + PartialEq + std::fmt::Debug + Indexable + Deindexable + Movable<AxisMove> + Send {
    const NAME: &'static str;
    const LEN: usize;
    fn ids(&self, p: &Pieces) -> Vec<usize>;
    fn of(p: &Pieces, ids: &[usize]) -> Self;
    fn ok(p: &Pieces, ids: &[usize]) -> bool;
    fn looks(p: &Pieces) -> &Looks;
    fn by_piece(&self, m: &AxisMove) -> Self;
}
impl Numbered for Corners {
    const NAME: &'static str = "corners";
    const LEN: usize = 8;
    fn ids(&self, p: &Pieces) -> Vec<usize> {
        p.corners(self).to_vec()
    }
    fn of(p: &Pieces, ids: &[usize]) -> Self {
        p.to_corners(ids.try_into().unwrap())
    }
    fn ok(p: &Pieces, ids: &[usize]) -> bool {
        p.corners_ok(ids.try_into().unwrap())
    }
    fn looks(p: &Pieces) -> &Looks {
        &p.corner
    }
    fn by_piece(&self, m: &AxisMove) -> Self {
        std::array::from_fn(|i| self[i].clone().moved(m))
    }
}
impl Numbered for Half {
    const NAME: &'static str = "edges";
    const LEN: usize = 6;
    fn ids(&self, p: &Pieces) -> Vec<usize> {
        p.half(self).to_vec()
    }
    fn of(p: &Pieces, ids: &[usize]) -> Self {
        p.to_half(ids.try_into().unwrap())
    }
    fn ok(p: &Pieces, ids: &[usize]) -> bool {
        p.half_ok(ids.try_into().unwrap())
    }
    fn looks(p: &Pieces) -> &Looks {
        &p.edge
    }
    fn by_piece(&self, m: &AxisMove) -> Self {
        std::array::from_fn(|i| self[i].clone().moved(m))
    }
}

fn turn_no(m: usize) -> Turn {
    Turn { face: m / 3, amount: m % 3 + 1, depth: 0 }
}

/// Every number: a legal arrangement, and that arrangement's number again.
fn bijection<T: Numbered>(ctx: &Ctx, p: &Pieces, size: usize) -> bool {
    if T::TOTAL_SET_SIZE != size {
        ctx.rep.violation(
            format!("{}: the table has {} entries, there are {size} arrangements", T::NAME, T::TOTAL_SET_SIZE),
            json!({"kind": T::NAME, "table": T::TOTAL_SET_SIZE, "arrangements": size}),
        );
        return false;
    }
    let bad = over(size, T::NAME, |i| {
        let a = T::from_index(i);
        let ids = a.ids(p);
        if !T::ok(p, &ids) {
            return Some(format!("number {i} stands for {a:?}, which is no arrangement"));
        }
        let back = a.index();
        (back != i).then(|| format!("number {i} stands for {a:?}, whose number is {back}"))
    });
    if let Some((i, e)) = bad {
        ctx.rep.violation(format!("{}: {e}", T::NAME), json!({"kind": T::NAME, "index": i, "what": e}));
        return false;
    }
    ctx.rep.count(&format!("{}_numbers_there_and_back", T::NAME), size as u64);
    true
}

// ------------------------------------------------------------------------ whole cubes

/// The three numbers the specification asks for.
pub(crate) trait Numbers {
    fn numbers(&self, m: &Model) -> [usize; 3];
}
impl Numbers for Cubes<'_> {
    /// Corners, first half, and the second half as the half turn of the whole cube shows it.
    fn numbers(&self, m: &Model) -> [usize; 3] {
        let o = m.obs(self.s);
        let corners: Corners = std::array::from_fn(|i| corner_of(&o[self.home[12 + i]]));
        let first: Half = std::array::from_fn(|i| edge_of(&o[self.home[i]]));
        let r = self.halfturn.expect("half turn");
        let second: Half = std::array::from_fn(|i| {
            let h = self.home[i + 6];
            let g = m.g[h] as usize;
            let g2 = self.t.mult[r][self.t.mult[g][self.t.inv[r]]];
            edge_of(&self.s.obs[self.s.wher[h][r]][g2])
        });
        [corners.index(), first.index(), second.index()]
    }
}

pub(crate) fn no_half_turn(ctx: &Ctx, c: &Cubes) -> bool {
    if c.halfturn.is_none() {
        ctx.rep.violation(
            "no rotation of space takes the second six edges of a solved cube to the first six: one table cannot serve both",
            json!({"homes": c.home[..12].iter().map(|h| c.s.homes[*h]).collect::<Vec<_>>()}),
        );
        return true;
    }
    false
}

#[derive(Clone, Copy)]
struct P<const M: usize, const B: usize> {
    place: usize,
    twist: usize,
}
impl<const M: usize, const B: usize> PositionIndexable for P<M, B> {
    fn position_index(&self) -> usize {
        self.place
    }
    const POSITION_SET_SIZE: usize = M;
}
impl<const M: usize, const B: usize> OrientationIndexable for P<M, B> {
    fn orientation_index(&self) -> usize {
        self.twist
    }
    const ORIENTATION_SET_SIZE: usize = B;
}
fn arrangements(k: usize, m: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for a in arrangements(k - 1, m) {
        for p in 0..m {
            if !a.contains(&p) {
                let mut b = a.clone();
                b.push(p);
                out.push(b);
            }
        }
    }
    out
}
fn words(k: usize, b: usize) -> Vec<Vec<usize>> {
    (0..b.pow(k as u32)).map(|mut x| (0..k).map(|_| { let d = x % b; x /= b; d }).collect()).collect()
}
/// One small family, listed completely. FREE: how many of the twists count.
fn family<const K: usize, const M: usize, const B: usize, const FREE: usize>(ctx: &Ctx, tr: &mut Tracer) {
    let det = FREE < K;
    tr.push(json!({"e": "case", "k": K, "m": M, "b": B, "det": det, "all": true}));
    tr.segments += 1;
    for places in arrangements(K, M) {
        for mut tw in words(FREE, B) {
            if det {
                let sum: usize = tw.iter().sum();
                tw.push((B - sum % B) % B);
            }
            let arr: [P<M, B>; K] = std::array::from_fn(|i| P { place: places[i], twist: tw[i] });
            let free: [P<M, B>; FREE] = std::array::from_fn(|i| arr[i]);
            let r = guarded(|| {
                position_disposition_index::<_, K, M>(&arr) * B.pow(FREE as u32) + orientation_permutation_index(&free)
            });
            match r {
                Ok(ix) => tr.push(json!({"e": "ix", "places": places, "twists": tw, "ix": ix, "back": []})),
                Err(e) => return ctx.rep.violation(format!("numbering {places:?} of {M} places: {e}"), json!({"places": places, "twists": tw, "m": M})),
            }
            ctx.rep.count("small_family_arrangements", 1);
        }
    }
    tr.push(json!({"e": "end"}));
}

fn samples<T: Numbered>(ctx: &Ctx, p: &Pieces, tr: &mut Tracer, case: Value, n: usize, stream: u64) {
    tr.push(case);
    tr.segments += 1;
    let mut r = Sm::new(ctx.args.seed, stream);
    let size = T::TOTAL_SET_SIZE;
    for i in 0..n {
        let ix = match i {
            0 => 0,
            1 => size - 1,
            2..=40 => i - 1,
            41..=80 => size - i + 39,
            _ => r.below(size),
        };
        let Ok((a, back)) = guarded(|| {
            let a = T::from_index(ix);
            let b = a.index();
            (a, b)
        }) else { continue };
        let l = T::looks(p);
        let pl = |a: &T| a.ids(p).iter().map(|x| l.place[*x]).collect::<Vec<_>>();
        let tw = |a: &T| a.ids(p).iter().map(|x| l.twist[*x]).collect::<Vec<_>>();
        let Ok(again) = guarded(|| T::from_index(back)) else { continue };
        tr.push(json!({"e": "ix", "places": pl(&a), "twists": tw(&a), "ix": back, "back": [pl(&again), tw(&again)]}));
    }
    tr.push(json!({"e": "end"}));
}

pub fn c14(ctx: &'static Ctx) {
    let sizes = read_json(&format!("{}/index.json", ctx.args.dir));
    let p = Pieces::new(&ctx.t);
    let mut tr = Tracer::new(&ctx.args, "TraceIndex", "families", json!({}));
    for n in 0..40usize {
        match guarded(|| barbarosa::cube3::mus::index::factorial(n)) {
            Ok(mut f) => {
                let mut digits = vec![];
                while f > 0 {
                    digits.push(f % 10000);
                    f /= 10000;
                }
                tr.push(json!({"e": "factorial", "n": n, "digits": digits}));
            }
            Err(e) => ctx.rep.violation(format!("the factorial of {n}: {e}"), json!({"n": n})),
        }
    }
    family::<1, 1, 1, 1>(ctx, &mut tr);
    family::<1, 7, 3, 1>(ctx, &mut tr);
    family::<2, 2, 2, 2>(ctx, &mut tr);
    family::<2, 5, 3, 1>(ctx, &mut tr);
    family::<3, 3, 3, 2>(ctx, &mut tr);
    family::<3, 6, 2, 3>(ctx, &mut tr);
    family::<4, 4, 2, 3>(ctx, &mut tr);
    family::<5, 5, 1, 5>(ctx, &mut tr);
    family::<2, 12, 2, 2>(ctx, &mut tr);
    family::<6, 6, 1, 6>(ctx, &mut tr);
    family::<1, 2, 9, 1>(ctx, &mut tr);
    tr.finish(&ctx.rep);
    let mut tr = Tracer::new(&ctx.args, "TraceIndex", "samples", json!({}));
    let n = if ctx.args.thorough { 1500 } else { 500 };
    samples::<Corners>(ctx, &p, &mut tr, json!({"e": "case", "k": 8, "m": 8, "b": 3, "det": true, "all": false}), n, 14);
    samples::<Half>(ctx, &p, &mut tr, json!({"e": "case", "k": 6, "m": 12, "b": 2, "det": false, "all": false}), n, 15);
    tr.finish(&ctx.rep);
    let ok = bijection::<Corners>(ctx, &p, sizes["corners"].as_u64().unwrap() as usize)
        & bijection::<Half>(ctx, &p, sizes["edges"].as_u64().unwrap() as usize);
    if !ok {
        return;
    }
    // whole cubes
    let Some(c) = Cubes::new(ctx) else { return };
    let rounds = if ctx.args.thorough { 4_000_000 } else { 400_000 };
    let bad = over(rounds, "whole cubes", |i| {
        let mut r = Sm::new(ctx.args.seed, 1400 + i as u64);
        let len = match i % 8 {
            0 => i / 8 % 5,
            _ => 30,
        };
        let m = c.random(&mut r, len);
        let cube = c.build(&m);
        let ix = cube.indices();
        let nums = [ix.corners, ix.edges[0], ix.edges[1]];
        if nums[0] >= Corners::TOTAL_SET_SIZE || nums[1] >= Half::TOTAL_SET_SIZE || nums[2] >= Half::TOTAL_SET_SIZE {
            return Some(format!("the cube {:?} has the numbers {nums:?}, out of range", m.g));
        }
        let back = Cube3::from_indices(ix);
        if back != cube {
            return Some(format!("the cube of rotations {:?} has the numbers {nums:?}, which build another cube", m.g));
        }
        let ix = back.indices();
        ([ix.corners, ix.edges[0], ix.edges[1]] != nums).then(|| format!("{nums:?} build a cube with other numbers"))
    });
    if let Some((i, e)) = bad {
        ctx.rep.violation(e.clone(), json!({"cube": i, "seed": ctx.args.seed, "what": e}));
    }
    ctx.rep.count("whole_cubes_there_and_back", rounds as u64);
    let m = c.random(&mut Sm::new(ctx.args.seed, 1), 20);
    let ix = c.build(&m).indices();
    ctx.rep.sample(json!({"rotations": m.g, "corners": ix.corners, "edges": ix.edges}));
}

// ------------------------------------------------------------------------ C15

/// A table is exact when it is the distances of the puzzle (Builder's Certified, which
/// MCCertificate shows to hold of the distances only).
fn certificate<T: Numbered>(ctx: &Ctx, p: &Pieces, tab: &[u8]) -> bool {
    let l = T::looks(p);
    if tab.len() != T::TOTAL_SET_SIZE {
        ctx.rep.violation(format!("{}: the table has {} entries, not {}", T::NAME, tab.len(), T::TOTAL_SET_SIZE), json!({"len": tab.len()}));
        return false;
    }
    let solved: Vec<usize> = T::from_index(0).ids(p);
    let home: Vec<[i32; 4]> = (0..T::LEN)
        .map(|i| if T::NAME == "corners" { corner_obs(&Cube3::SOLVED.corners.pieces()[i]) } else { edge_obs(&Cube3::SOLVED.edges.pieces()[i]) })
        .collect();
    let want: Vec<usize> = home.iter().map(|o| l.obs.iter().position(|x| x == o).unwrap()).collect();
    let zero = T::of(p, &want).index();
    if tab[zero] != 0 {
        ctx.rep.violation(format!("{}: the solved arrangement (number {zero}) has distance {}", T::NAME, tab[zero]), json!({"index": zero}));
        return false;
    }
    let _ = solved;
    let bad = over(tab.len(), T::NAME, |i| {
        let a = T::from_index(i);
        let ids = a.ids(p);
        let d = tab[i];
        if (d == 0) != (i == zero) {
            return Some(format!("entry {i} ({a:?}) is {d}"));
        }
        let mut nearer = i == zero;
        let mut to = vec![0; T::LEN];
        for m in 0..18 {
            for k in 0..T::LEN {
                to[k] = l.turn[ids[k]][m];
            }
            let j = T::of(p, &to).index();
            let e = tab[j];
            if e as u32 + 1 < d as u32 || d as u32 + 1 < e as u32 {
                return Some(format!("entry {i} is {d}, but {} takes it to entry {j}, which is {e}", turn_no(m).show()));
            }
            nearer |= e as u32 + 1 == d as u32;
        }
        (!nearer).then(|| format!("entry {i} is {d}, but no turn takes it to an entry of {}", d as i32 - 1))
    });
    if let Some((i, e)) = bad {
        ctx.rep.violation(format!("the {} table: {e}", T::NAME), json!({"table": T::NAME, "index": i, "what": e}));
        return false;
    }
    let most = tab.iter().max().unwrap();
    ctx.rep.count(&format!("{}_entries_certified", T::NAME), tab.len() as u64);
    ctx.rep.count(&format!("{}_turns_certified", T::NAME), tab.len() as u64 * 18);
    ctx.rep.set(&format!("{}_greatest_distance", T::NAME), *most as u64);
    true
}

/// Turning an array of pieces is turning each.
fn arrays<T: Numbered>(ctx: &Ctx, p: &Pieces, n: usize) {
    let l = T::looks(p);
    let bad = over(n, "arrays", |i| {
        let mut r = Sm::new(ctx.args.seed, 1500 + i as u64);
        let a = T::from_index(r.below(T::TOTAL_SET_SIZE));
        let ids = a.ids(p);
        for m in 0..18 {
            let mv = axis_move(turn_no(m));
            let got = a.clone().moved(&mv);
            let want: Vec<usize> = ids.iter().map(|x| l.turn[*x][m]).collect();
            if got.ids(p) != want {
                return Some(format!("{} makes {got:?} of {a:?}, it should be {:?}", turn_no(m).show(), T::of(p, &want)));
            }
            if a.by_piece(&mv) != got {
                return Some(format!("{} turns an array and its pieces differently: {a:?}", turn_no(m).show()));
            }
        }
        None
    });
    if let Some((_, e)) = bad {
        ctx.rep.violation(e.clone(), json!({"what": e}));
    }
    ctx.rep.count("arrays_turned", n as u64 * 18);
}

fn sparse(path: &Path, len: u64) {
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    std::fs::File::create(path).unwrap().set_len(len).unwrap();
}

pub(crate) const CORNER_FILE: &str = "mus-cache/corners.barbarosa";
pub(crate) const EDGE_FILE: &str = "mus-cache/edges.barbarosa";

/// Lets the real program build one table, the other being there already.
fn start_build(ctx: &Ctx, name: &str, other: &str, other_len: usize) -> Option<(PathBuf, Child)> {
    let bin = ctx.args.value("--bin")?;
    let dir = PathBuf::from(&ctx.args.scratch).join(format!("build-{name}"));
    sparse(&dir.join(other), other_len as u64);
    let child = Command::new(bin)
        .arg("--build-mus-cache")
        .current_dir(&dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .expect("run the program");
    Some((dir, child))
}
/// Seconds of processor time a process has used.
fn used(pid: u32) -> f64 {
    let Ok(stat) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0.0 };
    let after = stat.rsplit(')').next().unwrap_or("");
    let f: Vec<f64> = after.split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
    f.iter().sum::<f64>() / 100.0
}
/// What building a table costs, in seconds of processor time: turning and numbering every
/// entry, as this code does both.
fn cost<T: Numbered>(ctx: &Ctx) -> f64 {
    let mut r = Sm::new(ctx.args.seed, 15_151);
    let n = 20_000;
    let moves: Vec<_> = (0..18).map(|m| axis_move(turn_no(m))).collect();
    let start = Instant::now();
    let mut all = 0usize;
    for _ in 0..n {
        let a = T::from_index(r.below(T::TOTAL_SET_SIZE));
        for m in &moves {
            all ^= a.clone().moved(m).index();
        }
    }
    std::hint::black_box(all);
    start.elapsed().as_secs_f64() / n as f64 * T::TOTAL_SET_SIZE as f64
}
/// `Some(true)`: built. `None`: not in the time there is, and nothing is wrong with that.
fn wait_build(ctx: &Ctx, name: &str, dir: &Path, child: &mut Child, until: Instant, cost: f64) -> Option<bool> {
    // a builder that does not end differs from a slow machine and from slow turning
    let allowed = 1.7 * cost + 50.0;
    let started = Instant::now();
    loop {
        tick();
        match child.try_wait().unwrap() {
            Some(st) if st.success() => return Some(true),
            Some(st) => {
                let mut e = String::new();
                use std::io::Read;
                let _ = child.stderr.as_mut().map(|s| s.read_to_string(&mut e));
                ctx.rep.violation(format!("building the {name} table ended with {st}: {e}"), json!({"dir": dir, "stderr": e}));
                return Some(false);
            }
            None => {
                let spent = used(child.id());
                ctx.rep.set(&format!("seconds_building_{name}"), spent as u64);
                if spent.min(started.elapsed().as_secs_f64()) > allowed {
                    let _ = child.kill();
                    let _ = child.wait();
                    ctx.rep.violation(
                        format!("building the {name} table does not end"),
                        json!({"table": name, "processor_seconds": spent, "turning_and_numbering_all_entries_takes": cost}),
                    );
                    return Some(false);
                }
                if Instant::now() > until {
                    let _ = child.kill();
                    let _ = child.wait();
                    ctx.rep.set(&format!("unfinished_{name}"), 1);
                    return None;
                }
                std::thread::sleep(Duration::from_millis(200))
            }
        }
    }
}

/// Builds both tables and returns them, each with what was done to the other file.
fn build_tables(ctx: &Ctx, seconds: u64) -> Option<(PathBuf, Vec<u8>, Vec<u8>)> {
    let until = Instant::now() + Duration::from_secs(seconds);
    let (cd, mut c) = start_build(ctx, "corners", EDGE_FILE, Half::TOTAL_SET_SIZE)?;
    let (ed, mut e) = start_build(ctx, "edges", CORNER_FILE, Corners::TOTAL_SET_SIZE)?;
    let a = wait_build(ctx, "edges", &ed, &mut e, until, cost::<Half>(ctx));
    let b = a == Some(true) && wait_build(ctx, "corners", &cd, &mut c, until, cost::<Corners>(ctx)) == Some(true);
    if a != Some(true) {
        let _ = c.kill();
        let _ = c.wait();
    }
    if !b {
        return None;
    }
    let read = |d: &Path, f: &str| match std::fs::read(d.join(f)) {
        Ok(x) => Some(x),
        Err(e) => {
            ctx.rep.violation(format!("after building there is no {f}: {e}"), json!({"file": f}));
            None
        }
    };
    let corners = read(&cd, CORNER_FILE)?;
    let edges = read(&ed, EDGE_FILE)?;
    for (d, f, len) in [(&cd, EDGE_FILE, Half::TOTAL_SET_SIZE), (&ed, CORNER_FILE, Corners::TOTAL_SET_SIZE)] {
        let other = read(d, f)?;
        if other.len() != len || other.iter().any(|x| *x != 0) {
            ctx.rep.violation(format!("building one table changed the other one, {f}"), json!({"file": f}));
        }
    }
    // one directory with both
    std::fs::copy(ed.join(EDGE_FILE), cd.join(EDGE_FILE)).unwrap();
    std::fs::remove_dir_all(&ed).unwrap();
    Some((cd, corners, edges))
}

pub fn c15(ctx: &'static Ctx) {
    let p = Pieces::new(&ctx.t);
    let sizes = read_json(&format!("{}/index.json", ctx.args.dir));
    #[cfg(feature = "hooks")]
    hooked::tables(ctx);
    #[cfg(not(feature = "hooks"))]
    ctx.rep.set("hooks_missing", 1);
    if ctx.rep.failed() {
        return;
    }
    arrays::<Corners>(ctx, &p, 20_000);
    arrays::<Half>(ctx, &p, 20_000);
    // entries are found by number: without one number for each there is no table
    if !(bijection::<Corners>(ctx, &p, sizes["corners"].as_u64().unwrap() as usize)
        && bijection::<Half>(ctx, &p, sizes["edges"].as_u64().unwrap() as usize))
        || ctx.rep.failed()
    {
        return;
    }
    let Some((dir, corners, edges)) = build_tables(ctx, 600) else {
        // too slow a machine for the real tables: what the small ones showed has to do
        assert!(ctx.rep.failed() || ctx.args.value("--bin").is_some(), "no program to run");
        return;
    };
    certificate::<Half>(ctx, &p, &edges);
    certificate::<Corners>(ctx, &p, &corners);
    std::fs::remove_dir_all(dir).unwrap();
    let histogram = |t: &[u8]| {
        let mut h = std::collections::BTreeMap::new();
        t.iter().for_each(|x| *h.entry(x.to_string()).or_insert(0u64) += 1);
        h
    };
    ctx.rep.sample(json!({"corners_at_distance": histogram(&corners), "edges_at_distance": histogram(&edges)}));
}

// ------------------------------------------------------------------------ children

/// A second process of the harness, working in a directory of its own: what it does with
/// tables is for good within a process.
pub(crate) struct Kid {
    child: Child,
    to: ChildStdin,
    from: std::io::BufReader<ChildStdout>,
    pub dir: PathBuf,
}
impl Kid {
    pub(crate) fn new(ctx: &Ctx, dir: &Path, what: &str, wrap: Option<&str>) -> Kid {
        std::fs::create_dir_all(dir).unwrap();
        let exe = std::env::current_exe().unwrap();
        let mut cmd = match wrap {
            None => Command::new(&exe),
            Some(w) => {
                let mut c = Command::new("bash");
                c.arg("-c").arg(format!("{w}; exec \"$0\" \"$@\"")).arg(&exe);
                c
            }
        };
        let mut child = cmd
            .arg(what)
            .args(["--dir", &ctx.args.dir, "--out", "/dev/null", "--scratch", &ctx.args.scratch, "--watchdog", "100000"])
            .args(["--seed", &ctx.args.seed.to_string()])
            .current_dir(dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("start a child");
        let to = child.stdin.take().unwrap();
        let from = std::io::BufReader::new(child.stdout.take().unwrap());
        Kid { child, to, from, dir: dir.to_path_buf() }
    }
    /// Err: it died or does not answer.
    pub(crate) fn ask(&mut self, v: Value, seconds: u64) -> Result<Value, String> {
        writeln!(self.to, "{v}").map_err(|e| format!("the process is gone: {e}"))?;
        let (tx, rx) = std::sync::mpsc::channel();
        let from = &mut self.from;
        let child = &mut self.child;
        std::thread::scope(|s| {
            s.spawn(move || {
                let mut line = String::new();
                loop {
                    line.clear();
                    match from.read_line(&mut line) {
                        Ok(0) | Err(_) => {
                            let _ = tx.send(Err("the process ended".to_string()));
                            return;
                        }
                        _ => {}
                    }
                    if let Some(j) = line.strip_prefix("@@") {
                        let _ = tx.send(serde_json::from_str(j).map_err(|e| e.to_string()));
                        return;
                    }
                }
            });
            let until = Instant::now() + Duration::from_secs(seconds);
            loop {
                tick();
                match rx.recv_timeout(Duration::from_millis(500)) {
                    Ok(r) => return r,
                    Err(_) if Instant::now() > until => {
                        let _ = child.kill();
                        return Err(format!("no answer within {seconds} s"));
                    }
                    Err(_) => {}
                }
            }
        })
    }
}
impl Drop for Kid {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
pub(crate) fn answer(v: Value) {
    let mut o = std::io::stdout();
    writeln!(o, "\n@@{v}").unwrap();
    o.flush().unwrap();
}

// ------------------------------------------------------------------------ C16

/// Entry i of version v of a table, as in TraceHeur.
pub(crate) fn entry(kind: &str, v: usize, i: usize) -> u8 {
    let e = if kind == "edges" { 1 } else { 0 };
    (((i % 9973) * (17 + 10 * v + 3 * e) + (i / 9973) * 7 + v) % 241 + 2 * e) as u8
}
pub(crate) fn expected(v: (usize, usize), n: [usize; 3]) -> u8 {
    entry("corners", v.1, n[0]).max(entry("edges", v.0, n[1])).max(entry("edges", v.0, n[2]))
}
pub(crate) fn write_version(dir: &Path, kind: &str, v: usize) -> PathBuf {
    let len = if kind == "edges" { Half::TOTAL_SET_SIZE } else { Corners::TOTAL_SET_SIZE };
    let mut b = vec![0u8; len];
    std::thread::scope(|s| {
        for (k, part) in b.chunks_mut(len / 8 + 1).enumerate() {
            s.spawn(move || part.iter_mut().enumerate().for_each(|(i, x)| *x = entry(kind, v, k * (len / 8 + 1) + i)));
        }
    });
    let path = dir.join(format!("{kind}-{v}"));
    std::fs::write(&path, b).unwrap();
    tick();
    path
}

pub(crate) const OTHER: f32 = 777.25;

pub fn heur_child(ctx: &'static Ctx) {
    use barbarosa::cube3::heuristics;
    use barbarosa::cube3::mus::cache::{self, Cache};
    let c = Cubes::new(ctx).expect("projection");
    let mut own: Option<Cache> = None;
    let fallback = heuristics::mus_with_fallback(|_| OTHER);
    for line in std::io::stdin().lock().lines() {
        let q: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let model = || Model { g: q["g"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
        let r = guarded(|| match q["op"].as_str().unwrap() {
            "get" => match cache::get(&c.build(&model())) {
                Some(v) => json!({"some": true, "v": v}),
                None => json!({"some": false, "v": 0}),
            },
            "getinit" => json!({"v": cache::get_or_init(&c.build(&model()))}),
            "fallback" => json!({"v": fallback(&c.build(&model()))}),
            "mus" => json!({"v": heuristics::mus(&c.build(&model()))}),
            "load" => match Cache::load() {
                Ok(x) => {
                    own = Some(x);
                    json!({"ok": true})
                }
                Err(e) => json!({"ok": false, "why": e.to_string()}),
            },
            "init" => {
                own = Some(Cache::init());
                json!({"ok": true})
            }
            "own" => json!({"v": own.as_ref().unwrap().get(&c.build(&model()))}),
            "bulk" => {
                let v = (q["v"][0].as_u64().unwrap() as usize, q["v"][1].as_u64().unwrap() as usize);
                let n = q["n"].as_u64().unwrap() as usize;
                let seed = q["seed"].as_u64().unwrap();
                let own = own.as_ref();
                let bad = over(n, "bulk", |i| {
                    let mut r = Sm::new(seed, i as u64);
                    let len = if i % 16 == 0 { i / 16 % 7 } else { 30 };
                    let m = c.random(&mut r, len);
                    // one after the other, with something in common
                    let mut asked = if i % 8 == 0 { c.twins(&m, &mut r) } else { vec![] };
                    for k in (0..asked.len()).rev() {
                        asked.insert(k, m.clone());
                    }
                    asked.push(m);
                    asked.iter().find_map(|m| {
                        let cube = c.build(m);
                        let want = expected(v, c.numbers(m));
                        let got = [heuristics::mus(&cube), fallback(&cube), cache::get(&cube).map_or(-1.0, |x| x as f32),
                            cache::get_or_init(&cube) as f32, own.map_or(want as f32, |o| o.get(&cube) as f32)];
                        (got != [want as f32; 5]).then(|| format!(
                            "cube of rotations {:?} with numbers {:?}: the largest entry is {want}; mus, mus_with_fallback, get, get_or_init, Cache::get say {got:?}",
                            m.g, c.numbers(m)))
                    })
                });
                json!({"bad": bad.map(|b| b.1)})
            }
            "admissible" => {
                let n = q["n"].as_u64().unwrap() as usize;
                let seed = q["seed"].as_u64().unwrap();
                let bad = over(n, "admissible", |i| {
                    let mut r = Sm::new(seed, i as u64);
                    let len = i % 12;
                    let alg = rand_alg(&mut r, 0, len);
                    let mut m = Model::solved(c.s);
                    m.alg(c.t, c.s, &alg);
                    let v = heuristics::mus(&c.build(&m));
                    let zero = len == 0 && v != 0.0;
                    (v > len as f32 || zero).then(|| format!("{} is {len} turns, the heuristic says {v}", show_alg(&alg)))
                });
                json!({"bad": bad.map(|b| b.1)})
            }
            x => panic!("harness: {x}"),
        });
        answer(match r {
            Ok(v) => v,
            Err(e) => json!({"panic": e}),
        });
    }
}

pub fn c16(ctx: &'static Ctx) {
    let Some(c) = Cubes::new(ctx) else { return };
    if no_half_turn(ctx, &c) {
        return;
    }
    let base = PathBuf::from(&ctx.args.scratch);
    let versions = if ctx.args.thorough { 4 } else { 3 };
    for v in 1..=versions {
        write_version(&base, "edges", v);
        write_version(&base, "corners", v);
    }
    let mut r = Sm::new(ctx.args.seed, 16);
    let mut tr = Tracer::new(&ctx.args, "TraceHeur", "heur", json!({}));
    let histories = if ctx.args.thorough { 60 } else { 12 };
    for h in 0..histories {
        let dir = base.join(format!("heur-{h}"));
        let mut kid = Kid::new(ctx, &dir, "heur-child", None);
        let mut files = (0usize, 0usize);
        let mut shared: Option<(usize, usize)> = None;
        let mut own: Option<(usize, usize)> = None;
        tr.push(json!({"e": "start"}));
        tr.segments += 1;
        let mut log: Vec<Value> = vec![];
        let steps = 40;
        let mut ended = false;
        for step in 0..steps {
            // some histories ask before there is anything, some start with files in place
            let choice = match (h % 3, step) {
                (0, 0) => 2,
                (1, 0) => 0,
                (1, 1) => 1,
                (2, 0) => 3,
                _ => r.below(9),
            };
            let len = if r.chance(1, 3) { r.below(6) } else { 30 };
            let m = c.random(&mut r, len);
            let nums = c.numbers(&m);
            let mut ask = |op: &str| kid.ask(json!({"op": op, "g": m.g}), 100);
            let (event, reply, want) = match choice {
                0 | 1 => {
                    let kind = if choice == 0 { "edges" } else { "corners" };
                    let f = if choice == 0 { EDGE_FILE } else { CORNER_FILE };
                    let v = if r.chance(1, 6) { 0 } else { 1 + r.below(versions) };
                    let to = dir.join(f);
                    let _ = std::fs::remove_file(&to);
                    if v > 0 {
                        std::fs::create_dir_all(to.parent().unwrap()).unwrap();
                        std::fs::copy(base.join(format!("{kind}-{v}")), &to).unwrap();
                    }
                    if choice == 0 {
                        files.0 = v
                    } else {
                        files.1 = v
                    }
                    (json!({"e": "place", "k": kind, "v": v}), Ok(json!({})), json!({}))
                }
                2 => {
                    let a = ask("get");
                    let want = match shared {
                        None => json!({"some": false, "v": 0}),
                        Some(v) => json!({"some": true, "v": expected(v, nums)}),
                    };
                    (json!({"e": "get", "ix": nums}), a, want)
                }
                3 | 4 => {
                    let a = ask("fallback");
                    let want = match shared {
                        None => json!({"v": OTHER}),
                        Some(v) => json!({"v": expected(v, nums) as f32}),
                    };
                    (json!({"e": "fallback", "ix": nums, "other": 77725}), a, want)
                }
                5 | 6 => {
                    // would build tables, which takes minutes
                    if shared.is_none() && (files.0 == 0 || files.1 == 0 || step < 12 && h % 3 != 1) {
                        continue;
                    }
                    let op = if choice == 5 { "mus" } else { "getinit" };
                    let a = ask(op);
                    let v = *shared.get_or_insert(files);
                    let x = expected(v, nums);
                    (json!({"e": "mus", "ix": nums}), a, if op == "mus" { json!({"v": x as f32}) } else { json!({"v": x}) })
                }
                7 => {
                    let a = ask("load");
                    let ok = files.0 > 0 && files.1 > 0;
                    if ok {
                        own = Some(files);
                    }
                    (json!({"e": "load"}), a, json!({"ok": ok}))
                }
                _ => {
                    let Some(v) = own else { continue };
                    let a = ask("own");
                    (json!({"e": "own", "ix": nums}), a, json!({"v": expected(v, nums)}))
                }
            };
            log.push(event.clone());
            let reply = match reply {
                Ok(x) => x,
                Err(e) => {
                    ctx.rep.violation(format!("asking for {}: {e}", event["e"]), json!({"history": log}));
                    ended = true;
                    break;
                }
            };
            let same = want.as_object().unwrap().iter().all(|(k, v)| reply.get(k).map(|x| x.as_f64()) == Some(v.as_f64()) && (v.is_number() || reply.get(k) == Some(v)));
            if !same {
                ctx.rep.violation(format!("{}: answers {reply}, should be {want}", event["e"]), json!({"history": log, "rotations": m.g, "reply": reply}));
                ended = true;
            }
            ctx.rep.count("questions", 1);
            let mut ev = event.as_object().unwrap().clone();
            for (k, v) in reply.as_object().unwrap() {
                match (k.as_str(), ev["e"].as_str().unwrap()) {
                    ("v", "fallback") => {
                        let x = v.as_f64().unwrap();
                        ev.insert(k.clone(), json!(if x.fract() == 0.0 { x as i64 } else { (x * 100.0) as i64 }));
                    }
                    ("v", _) => {
                        ev.insert(k.clone(), json!(v.as_f64().unwrap() as i64));
                    }
                    ("ok" | "some", _) => {
                        ev.insert(k.clone(), v.clone());
                    }
                    _ => {}
                }
            }
            tr.push(Value::Object(ev));
            if ended {
                break;
            }
        }
        if !ended {
            // with tables in use: many cubes
            if shared.is_none() {
                for (kind, f) in [("edges", EDGE_FILE), ("corners", CORNER_FILE)] {
                    let to = dir.join(f);
                    std::fs::create_dir_all(to.parent().unwrap()).unwrap();
                    std::fs::copy(base.join(format!("{kind}-1")), &to).unwrap();
                }
                shared = Some((1, 1));
            }
            let v = shared.unwrap();
            let n = if own.is_some() && own != shared { 0 } else if ctx.args.thorough { 2_000_000 } else { 150_000 };
            match kid.ask(json!({"op": "bulk", "v": [v.0, v.1], "n": n, "seed": r.next() >> 1}), 300) {
                Ok(x) if x["bad"].is_null() && x.get("panic").is_none() => ctx.rep.count("cubes_in_bulk", n as u64),
                Ok(x) => ctx.rep.violation(x.to_string(), json!({"history": log, "reply": x})),
                Err(e) => ctx.rep.violation(e, json!({"history": log})),
            }
        }
        if h < 3 {
            ctx.rep.sample(json!({"history": log.iter().take(10).collect::<Vec<_>>()}));
        }
        drop(kid);
        std::fs::remove_dir_all(&dir).unwrap();
        if ctx.rep.failed() {
            break;
        }
    }
    tr.finish(&ctx.rep);
    if ctx.args.thorough && !ctx.rep.failed() {
        // the real tables
        if let Some((dir, _, _)) = build_tables(ctx, 3000) {
            let mut kid = Kid::new(ctx, &dir, "heur-child", None);
            match kid.ask(json!({"op": "admissible", "n": 3_000_000, "seed": ctx.args.seed}), 1000) {
                Ok(x) if x["bad"].is_null() && x.get("panic").is_none() => ctx.rep.count("cubes_admissible", 3_000_000),
                Ok(x) => ctx.rep.violation(x.to_string(), json!({"reply": x})),
                Err(e) => ctx.rep.violation(e, json!({})),
            }
            drop(kid);
            std::fs::remove_dir_all(&dir).unwrap();
        }
    }
}

// ------------------------------------------------------------------------ C17

/// What can be at a table's path.
#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Intact,
    NoDir,
    Nothing,
    Empty,
    Short,
    Long,
    Half,
    Dir,
    Loop,
}
const ALL_AT: [At; 9] = [At::Intact, At::NoDir, At::Nothing, At::Empty, At::Short, At::Long, At::Half, At::Dir, At::Loop];

fn put(dir: &Path, file: &str, at: At, size: usize) {
    let p = dir.join(file);
    if at != At::NoDir {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    }
    match at {
        At::NoDir | At::Nothing => {}
        At::Intact => sparse(&p, size as u64),
        At::Empty => sparse(&p, 0),
        At::Short => sparse(&p, size as u64 - 1),
        At::Long => sparse(&p, size as u64 + 1),
        At::Half => sparse(&p, size as u64 / 2),
        At::Dir => std::fs::create_dir(&p).unwrap(),
        At::Loop => std::os::unix::fs::symlink(p.file_name().unwrap(), &p).unwrap(),
    }
}

fn snapshot(dir: &Path) -> Vec<(String, u64, i64, i64, u64)> {
    use std::os::unix::fs::MetadataExt;
    let mut out = vec![];
    fn walk(d: &Path, out: &mut Vec<(String, u64, i64, i64, u64)>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let m = e.path().symlink_metadata().unwrap();
            let dir = m.is_dir();
            out.push((e.path().display().to_string(), if dir { 0 } else { m.len() }, if dir { 0 } else { m.mtime() }, if dir { 0 } else { m.mtime_nsec() }, m.ino()));
            if dir {
                walk(&e.path(), out);
            }
        }
    }
    walk(dir, &mut out);
    out.sort();
    out
}

pub fn c17(ctx: &'static Ctx) {
    #[cfg(feature = "hooks")]
    hooked::stores(ctx);
    #[cfg(not(feature = "hooks"))]
    ctx.rep.set("hooks_missing", 1);
    if ctx.rep.failed() {
        return;
    }
    // the real tables, in every pair of conditions
    let base = PathBuf::from(&ctx.args.scratch);
    let (es, cs) = (Half::TOTAL_SET_SIZE, Corners::TOTAL_SET_SIZE);
    let swapped = [(cs, es), (es, es), (cs, cs)];
    for init in [false, true] {
        let mut cases: Vec<(At, At, usize, usize)> = vec![];
        for e in ALL_AT {
            for c in ALL_AT {
                // one directory: it is there or it is not
                if (e == At::NoDir) != (c == At::NoDir) {
                    continue;
                }
                let missing = |x: At| x == At::NoDir || x == At::Nothing;
                // a missing table would be built, which takes minutes; edges come first
                if init && (missing(e) || missing(c)) {
                    continue;
                }
                cases.push((e, c, es, cs));
            }
        }
        for (a, b) in swapped {
            cases.push((At::Intact, At::Intact, a, b));
        }
        for (k, (e, c, el, cl)) in cases.into_iter().enumerate() {
            let dir = base.join(format!("real-{init}-{k}"));
            std::fs::create_dir_all(&dir).unwrap();
            put(&dir, EDGE_FILE, e, el);
            put(&dir, CORNER_FILE, c, cl);
            let whole = e == At::Intact && c == At::Intact && el == es && cl == cs;
            let before = snapshot(&dir);
            let case = json!({"edges": format!("{e:?}"), "corners": format!("{c:?}"), "edges_len": el, "corners_len": cl, "init": init});
            let mut kid = Kid::new(ctx, &dir, "heur-child", None);
            match kid.ask(json!({"op": if init { "init" } else { "load" }}), 60) {
                Err(x) => ctx.rep.violation(format!("loading tables {case}: {x}"), case.clone()),
                Ok(a) => {
                    let ok = a["ok"] == json!(true);
                    if ok != whole {
                        ctx.rep.violation(format!("loading tables {case} answers {a}"), case.clone());
                    }
                    if ok && whole {
                        let g = vec![0u8; 20];
                        let v = kid.ask(json!({"op": "own", "g": g}), 60);
                        if v != Ok(json!({"v": 0})) {
                            ctx.rep.violation(format!("tables of zeros say {v:?}"), case.clone());
                        }
                    }
                }
            }
            if snapshot(&dir) != before {
                ctx.rep.violation(format!("loading tables {case} changed what is on disk"), json!({"case": case, "before": before, "after": snapshot(&dir)}));
            }
            ctx.rep.count("real_table_conditions", 1);
            drop(kid);
            std::fs::remove_dir_all(&dir).unwrap();
            if ctx.rep.too_many() {
                return;
            }
        }
    }
}

pub fn store_child(_ctx: &'static Ctx) {
    #[cfg(feature = "hooks")]
    hooked::store_child();
}

// ------------------------------------------------------------------------ through the hook

#[cfg(feature = "hooks")]
mod hooked {
    use super::*;
    use barbarosa::cube3::mus::cache::verif_hooks::{build_partial, load_or_build_one, load_partial, write_partial, DiskCacheable};
    use std::sync::OnceLock;

    struct Puzzle {
        name: String,
        step: Vec<[u32; 18]>,
        dist: Vec<u8>,
    }
    static PUZZLES: OnceLock<Vec<Puzzle>> = OnceLock::new();
    fn load_puzzles(dir: &str) {
        PUZZLES.get_or_init(|| {
            let v = read_json(&format!("{dir}/puzzles.json"));
            v.as_array()
                .unwrap()
                .iter()
                .map(|p| Puzzle {
                    name: p["name"].as_str().unwrap().into(),
                    step: p["step"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|r| {
                            let r: Vec<u32> = r.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
                            r.try_into().unwrap()
                        })
                        .collect(),
                    dist: p["dist"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
                })
                .collect()
        });
    }

    const PATHS: [&str; 4] = ["mus-cache/tiny.barbarosa", "flat.barbarosa", "a/b/c/deep.barbarosa", "x/tiny.barbarosa"];

    /// State of puzzle K, shown to the builder as N places by B orientations.
    #[derive(Clone)]
    pub struct Tiny<const K: usize, const N: usize, const B: usize, const PATH: usize>(u32);
    impl<const K: usize, const N: usize, const B: usize, const PATH: usize> PositionIndexable for Tiny<K, N, B, PATH> {
        fn position_index(&self) -> usize {
            self.0 as usize / B
        }
        const POSITION_SET_SIZE: usize = N;
    }
    impl<const K: usize, const N: usize, const B: usize, const PATH: usize> OrientationIndexable for Tiny<K, N, B, PATH> {
        fn orientation_index(&self) -> usize {
            self.0 as usize % B
        }
        const ORIENTATION_SET_SIZE: usize = B;
    }
    impl<const K: usize, const N: usize, const B: usize, const PATH: usize> Deindexable for Tiny<K, N, B, PATH> {
        fn from_index(index: usize) -> Self {
            assert!(index < N * B, "asked for state {index} of {}", N * B);
            Tiny(index as u32)
        }
    }
    impl<const K: usize, const N: usize, const B: usize, const PATH: usize> Movable<AxisMove> for Tiny<K, N, B, PATH> {
        fn apply(&mut self, m: &AxisMove) {
            self.0 = PUZZLES.get().unwrap()[K].step[self.0 as usize][face_idx(&m.face) * 3 + amount_no(m.amount) - 1];
        }
    }
    impl<const K: usize, const N: usize, const B: usize, const PATH: usize> DiskCacheable for Tiny<K, N, B, PATH> {
        const PATH: &'static str = PATHS[PATH];
    }

    fn fresh(ctx: &Ctx, name: &str) -> PathBuf {
        let d = PathBuf::from(&ctx.args.scratch).join(name);
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
        d
    }

    /// Builds in a thread of its own, so that one that never ends is seen.
    fn timed<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static, seconds: u64) -> Result<T, String> {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let _ = tx.send(guarded(f));
        });
        rx.recv_timeout(Duration::from_secs(seconds)).map_err(|_| "does not end".to_string())?
    }

    fn one_table<const K: usize, const N: usize, const B: usize, const PATH: usize>(ctx: &Ctx, tr: &mut Tracer, loadorbuild: bool) {
        type Out = std::io::Result<Vec<u8>>;
        let p = &PUZZLES.get().unwrap()[K];
        assert!(p.step.len() == N * B && K < 90);
        if ctx.rep.failed() {
            return;
        }
        let dir = fresh(ctx, &format!("tiny-{K}-{PATH}-{loadorbuild}"));
        now(format!("building {}", p.name));
        let r: Result<Out, String> = timed(
            move || if loadorbuild { load_or_build_one::<Tiny<K, N, B, PATH>>() } else { build_partial::<Tiny<K, N, B, PATH>>() },
            30,
        );
        let case = json!({"puzzle": p.name, "places": N, "spins": B});
        match r {
            Err(e) => ctx.rep.violation(format!("building the table of {}: {e}", p.name), case),
            Ok(Err(e)) => ctx.rep.violation(format!("building the table of {}: {e}", p.name), case),
            Ok(Ok(tab)) => {
                let disk = std::fs::read(PATHS[PATH]).unwrap_or_default();
                if tab != p.dist {
                    let i = (0..tab.len().min(p.dist.len())).find(|i| tab[*i] != p.dist[*i]);
                    ctx.rep.violation(
                        format!("the table of {} has {} entries of {}; first wrong one: {:?}", p.name, tab.len(), p.dist.len(), i.map(|i| (i, tab[i], p.dist[i]))),
                        json!({"puzzle": p.name, "table": tab, "distances": p.dist}),
                    );
                }
                if disk != tab {
                    ctx.rep.violation(format!("what is stored is not the table of {}", p.name), case);
                }
                tr.push(json!({"e": "table", "k": K + 1, "tab": tab, "disk": disk}));
                tr.segments += 1;
                ctx.rep.count("small_puzzles_built", 1);
            }
        }
        std::env::set_current_dir(&ctx.args.scratch).unwrap();
        std::fs::remove_dir_all(dir).unwrap();
    }

    pub fn tables(ctx: &Ctx) {
        load_puzzles(&ctx.args.dir);
        let mut tr = Tracer::new(&ctx.args, "TraceBuilder", "tables", json!({}));
        for lob in [false, true] {
            one_table::<0, 251, 1, 0>(ctx, &mut tr, lob);
            one_table::<1, 1, 1, 0>(ctx, &mut tr, lob);
            one_table::<2, 1, 2, 0>(ctx, &mut tr, lob);
            one_table::<3, 90, 4, 1>(ctx, &mut tr, lob);
            one_table::<4, 50, 5, 2>(ctx, &mut tr, lob);
            one_table::<5, 77, 3, 0>(ctx, &mut tr, lob);
            one_table::<6, 35, 4, 0>(ctx, &mut tr, lob);
            one_table::<7, 121, 3, 3>(ctx, &mut tr, lob);
            one_table::<8, 100, 6, 0>(ctx, &mut tr, lob);
        }
        tr.finish(&ctx.rep);
    }

    // ---------------------------------------------------------------- C17

    fn folder_of(path: &str) -> &'static str {
        let parent = Path::new(path).parent().unwrap();
        if parent.as_os_str().is_empty() || parent.is_dir() {
            return "ok";
        }
        if parent.ancestors().any(|a| a.symlink_metadata().map_or(false, |m| m.is_file())) {
            return "file";
        }
        "none"
    }
    fn look(path: &str) -> Value {
        let (at, bytes) = match std::fs::symlink_metadata(path) {
            Err(_) => ("none", vec![]),
            Ok(m) if m.is_dir() => ("dir", vec![]),
            Ok(m) if m.file_type().is_symlink() => ("loop", vec![]),
            Ok(_) => ("file", std::fs::read(path).unwrap()),
        };
        json!({"at": at, "bytes": bytes, "folder": folder_of(path)})
    }
    fn clear(path: &str) {
        match std::fs::symlink_metadata(path) {
            Ok(m) if m.is_dir() => std::fs::remove_dir(path).unwrap(),
            Ok(_) => std::fs::remove_file(path).unwrap(),
            Err(_) => {}
        }
    }
    fn clear_folder(path: &str) {
        clear(path);
        let top = Path::new(path).components().next().unwrap();
        let top: &Path = top.as_ref();
        if top != Path::new(path) {
            match std::fs::symlink_metadata(top) {
                Ok(m) if m.is_dir() => std::fs::remove_dir_all(top).unwrap(),
                Ok(_) => std::fs::remove_file(top).unwrap(),
                Err(_) => {}
            }
        }
    }
    /// An old date on the file, so that writing to it shows.
    fn stamp(path: &str) -> Option<(std::time::SystemTime, u64)> {
        use std::os::unix::fs::MetadataExt;
        let m = std::fs::symlink_metadata(path).ok()?;
        if !m.is_file() {
            return None;
        }
        let old = std::time::UNIX_EPOCH + Duration::from_secs(1_000_000);
        std::fs::File::options().write(true).open(path).unwrap().set_modified(old).unwrap();
        Some((old, m.ino()))
    }
    fn touched(path: &str, was: Option<(std::time::SystemTime, u64)>) -> bool {
        use std::os::unix::fs::MetadataExt;
        match (was, std::fs::symlink_metadata(path)) {
            (None, _) => false,
            (Some((t, i)), Ok(m)) => m.modified().unwrap() != t || m.ino() != i,
            _ => true,
        }
    }
    fn result(r: Result<std::io::Result<Vec<u8>>, String>) -> (String, Vec<u8>, String) {
        match r {
            Ok(Ok(t)) => ("table".into(), t, String::new()),
            Ok(Err(e)) => ("fails".into(), vec![], format!("{:?}", e.kind())),
            Err(e) => ("fails".into(), vec![], e),
        }
    }
    fn stored(r: Result<std::io::Result<()>, String>) -> (String, Vec<u8>, String) {
        match r {
            Ok(Ok(())) => ("done".into(), vec![], String::new()),
            Ok(Err(e)) => ("fails".into(), vec![], format!("{:?}", e.kind())),
            Err(e) => ("fails".into(), vec![], e),
        }
    }

    /// What Store's relations say, as a first look (TLC has the last word).
    fn judge(op: &str, size: usize, built: &[u8], b: &[u8], before: &Value, after: &Value, ans: &str, tab: &[u8]) -> Option<String> {
        let bytes = |v: &Value| -> Vec<u8> { v["bytes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
        let intact = before["at"] == "file" && bytes(before).len() == size;
        let same = before == after;
        let missing = before["at"] == "none" && before["folder"] != "file";
        let okay = match op {
            "load" => same && if intact { ans == "table" && tab == bytes(before) } else { ans == "fails" },
            "loadorbuild" => {
                if intact {
                    same && ans == "table" && tab == bytes(before)
                } else if missing {
                    ans == "table" && tab == built && after["at"] == "file" && bytes(after) == built
                } else {
                    same && ans == "fails"
                }
            }
            "store" => {
                if b.len() == size && before["folder"] != "file" && (before["at"] == "none" || before["at"] == "file") {
                    ans == "done" && after["at"] == "file" && bytes(after) == b
                } else {
                    same && ans == "fails"
                }
            }
            // the disk is full: a beginning of it, what was there, or nothing
            _ => {
                let beginning = after["at"] == "file" && bytes(after).len() < size && b.starts_with(&bytes(after));
                let kept = after["at"] == before["at"] && after["bytes"] == before["bytes"] && after["folder"] != "file";
                ans == "fails" && (beginning || kept || (after["at"] == "none" && after["folder"] == "ok"))
            }
        };
        (!okay).then(|| format!("{op} answers {ans} and leaves {} after {}", brief(after), brief(before)))
    }
    fn brief(v: &Value) -> String {
        format!("{} of {} bytes, folder {}", v["at"], v["bytes"].as_array().unwrap().len(), v["folder"])
    }

    fn histories<const K: usize, const N: usize, const B: usize, const PATH: usize>(ctx: &Ctx, tr: &mut Tracer, rounds: usize) {
        let path = PATHS[PATH];
        let size = N * B;
        // no puzzle: a table that is never built
        let built: Vec<u8> = PUZZLES.get().unwrap().get(K).map_or(vec![], |p| p.dist.clone());
        let name = format!("{K}-{N}-{B}-{PATH}");
        let dir = fresh(ctx, &format!("store-{name}"));
        let mut r = Sm::new(ctx.args.seed, 1700 + (K * 10 + PATH) as u64);
        for round in 0..rounds {
            if ctx.rep.failed() {
                break;
            }
            clear_folder(path);
            let first = look(path);
            let mut log = vec![];
            let mut ev = json!({"e": "start", "size": size, "built": built});
            merge(&mut ev, &first);
            tr.push(ev);
            tr.segments += 1;
            for step in 0..14 {
                tick();
                let before = look(path);
                let was = stamp(path);
                // every first step and every kind of file is reached early on
                let op = if step == 0 { round % 8 } else { r.below(12) };
                let mut ev;
                let (ans, tab, why);
                let b: Vec<u8>;
                match op {
                    0 | 1 => {
                        (ans, tab, why) = result(timed(load_partial::<Tiny<K, N, B, PATH>>, 30));
                        b = vec![];
                        ev = json!({"e": "load"});
                    }
                    2 | 3 if !built.is_empty() => {
                        (ans, tab, why) = result(timed(load_or_build_one::<Tiny<K, N, B, PATH>>, 30));
                        b = vec![];
                        ev = json!({"e": "loadorbuild"});
                    }
                    4 | 5 => {
                        let len = match r.below(8) {
                            0 => size - 1,
                            1 => size + 1,
                            2 => 0,
                            _ => size,
                        };
                        b = (0..len).map(|_| r.next() as u8).collect();
                        let c = b.clone();
                        (ans, tab, why) = stored(timed(move || write_partial::<Tiny<K, N, B, PATH>>(&c), 30));
                        ev = json!({"e": "store", "b": b});
                    }
                    6 => {
                        // a disk that is full after the first KiB, or at once
                        if !(before["folder"] != "file" && (before["at"] == "none" || before["at"] == "file")) {
                            continue;
                        }
                        let room = if size > 1024 && r.chance(2, 3) { 1024 } else { 0 };
                        let building = !built.is_empty() && before["at"] == "none" && r.chance(1, 2);
                        b = if building { built.clone() } else { (0..size).map(|_| r.next() as u8).collect() };
                        let mut kid = Kid::new(ctx, &dir, "store-child", Some(&format!("trap '' XFSZ; ulimit -f {}", room / 1024)));
                        let a = kid.ask(json!({"dir": ctx.args.dir, "build": building, "b": b, "which": format!("{K} {PATH}")}), 30);
                        let a = a.unwrap_or_else(|e| json!({"ans": "died", "why": e}));
                        (ans, tab, why) = (a["ans"].as_str().unwrap().to_string(), vec![], a["why"].to_string());
                        ev = json!({"e": "storefull", "room": room, "b": b});
                        ctx.rep.count("full_disks", 1);
                    }
                    _ => {
                        outside(path, size, &built, &mut r);
                        if folder_of(path) == "ok" && r.chance(1, 3) {
                            ctx.rep.count("leftovers", leftovers(path, size, &mut r) as u64);
                        }
                        ev = json!({"e": "outside"});
                        merge(&mut ev, &look(path));
                        tr.push(ev.clone());
                        log.push(json!({"e": "outside", "now": brief(&look(path))}));
                        continue;
                    }
                }
                let after = look(path);
                let t = touched(path, was);
                let kind = ev["e"].as_str().unwrap().to_string();
                log.push(json!({"e": kind, "answer": ans, "why": why, "before": brief(&before), "after": brief(&after)}));
                ctx.rep.count(&format!("{kind}_{ans}"), 1);
                let mut wrong = judge(&kind, size, &built, &b, &before, &after, &ans, &tab);
                if wrong.is_none() && t && (kind == "load" || kind == "loadorbuild") {
                    wrong = Some(format!("{kind} writes to a file that is there ({})", brief(&before)));
                }
                if let Some(w) = wrong {
                    ctx.rep.violation(format!("table of {size} bytes at {path}: {w} ({why})"), json!({"path": path, "size": size, "history": log}));
                }
                merge(&mut ev, &after);
                merge(&mut ev, &json!({"ans": ans, "tab": tab, "touched": t}));
                tr.push(ev);
                if ctx.rep.failed() {
                    break;
                }
            }
            if round < 2 {
                ctx.rep.sample(json!({"path": path, "size": size, "history": log}));
            }
        }
        std::env::set_current_dir(&ctx.args.scratch).unwrap();
        std::fs::remove_dir_all(dir).unwrap();
    }
    fn merge(a: &mut Value, b: &Value) {
        for (k, v) in b.as_object().unwrap() {
            a.as_object_mut().unwrap().insert(k.clone(), v.clone());
        }
    }
    /// What crashed runs may have left beside a table: files of all names that are used for
    /// what is not finished, and longer ones in place of those that really were left.
    fn leftovers(path: &str, size: usize, r: &mut Sm) -> usize {
        let parent = Path::new(path).parent().unwrap();
        let parent = if parent.as_os_str().is_empty() { Path::new(".") } else { parent };
        let file = Path::new(path).file_name().unwrap().to_str().unwrap().to_string();
        let mut names: Vec<PathBuf> = vec![];
        for entry in std::fs::read_dir(parent).unwrap() {
            let e = entry.unwrap();
            if e.file_type().unwrap().is_file() && e.file_name().to_str() != Some(&file) && parent.join(e.file_name()) != Path::new(path) {
                names.push(parent.join(e.file_name()));
            }
        }
        for end in ["tmp", "temp", "new", "part", "partial", "bak", "old", "swp", "lock", "write", "download", "0"] {
            names.push(parent.join(format!("{file}.{end}")));
            names.push(parent.join(format!(".{file}.{end}")));
            names.push(parent.join(Path::new(&file).with_extension(end)));
        }
        names.push(parent.join(format!("{file}~")));
        names.push(parent.join("tmp"));
        let mut n = 0;
        for name in names {
            if name.file_name().and_then(|f| f.to_str()) != Some(&file) && (name.is_file() || !name.exists()) {
                let len = *r.pick(&[0, size, size + 1, 2 * size + 3]);
                std::fs::write(name, vec![77u8; len]).unwrap();
                n += 1;
            }
        }
        n
    }

    /// Someone else's doing.
    fn outside(path: &str, size: usize, built: &[u8], r: &mut Sm) {
        let parent = Path::new(path).parent().unwrap();
        let flat = parent.as_os_str().is_empty();
        match r.below(10) {
            0 => clear_folder(path),
            1 if !flat => {
                clear_folder(path);
                // a file in the way of the directory
                if let Some(up) = parent.parent() {
                    if !up.as_os_str().is_empty() {
                        std::fs::create_dir_all(up).unwrap();
                    }
                }
                std::fs::write(parent, b"x").unwrap();
            }
            2 if !flat => {
                // part of the way
                clear_folder(path);
                let top = Path::new(path).components().next().unwrap();
                let top: &Path = top.as_ref();
                std::fs::create_dir_all(top).unwrap();
            }
            k => {
                if folder_of(path) != "ok" {
                    clear_folder(path);
                    std::fs::create_dir_all(parent).unwrap();
                }
                clear(path);
                let whole: Vec<u8> = if r.chance(1, 2) && !built.is_empty() { built.to_vec() } else { (0..size).map(|_| r.next() as u8).collect() };
                match k {
                    3 => std::fs::create_dir(path).unwrap(),
                    4 => std::os::unix::fs::symlink(Path::new(path).file_name().unwrap(), path).unwrap(),
                    5 | 6 => std::fs::write(path, &whole[..r.below(size)]).unwrap(),
                    7 => {
                        let mut w = whole.clone();
                        w.resize(size + 1 + r.below(3), 7);
                        std::fs::write(path, w).unwrap();
                    }
                    8 => {}
                    _ => std::fs::write(path, whole).unwrap(),
                }
            }
        }
    }

    macro_rules! kinds {
        ($go:ident, $($k:literal $n:literal $b:literal $p:literal),*) => { $($go!($k, $n, $b, $p);)* };
    }

    pub fn stores(ctx: &Ctx) {
        load_puzzles(&ctx.args.dir);
        let rounds = if ctx.args.thorough { 160 } else { 40 };
        macro_rules! go {
            ($k:literal, $n:literal, $b:literal, $p:literal) => {
                let mut tr = Tracer::new(&ctx.args, "TraceStore", concat!("store-", $k, "-", $p), json!({}));
                histories::<$k, $n, $b, $p>(ctx, &mut tr, rounds);
                tr.finish(&ctx.rep);
            };
        }
        kinds!(go, 1 1 1 0, 2 1 2 2, 2 1 2 1, 6 35 4 0, 5 77 3 3, 95 750 2 0);
    }

    /// One store (or build) in a process of its own, where the disk is full early.
    pub fn store_child() {
        for line in std::io::stdin().lock().lines() {
            let q: Value = serde_json::from_str(&line.unwrap()).unwrap();
            load_puzzles(q["dir"].as_str().unwrap());
            let b: Vec<u8> = q["b"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            let build = q["build"].as_bool().unwrap();
            let which = q["which"].as_str().unwrap();
            macro_rules! go {
                ($k:literal, $n:literal, $b:literal, $p:literal) => {
                    if which == concat!($k, " ", $p) {
                        let (ans, _, why) = if build {
                            result(guarded(load_or_build_one::<Tiny<$k, $n, $b, $p>>))
                        } else {
                            stored(guarded(|| write_partial::<Tiny<$k, $n, $b, $p>>(&b)))
                        };
                        answer(json!({"ans": ans, "why": why}));
                    }
                };
            }
            kinds!(go, 1 1 1 0, 2 1 2 2, 2 1 2 1, 6 35 4 0, 5 77 3 3, 95 750 2 0);
        }
    }
}
