//! C29: cubes drawn at random; C30: repairs of arrangements (Repair.tla).
use crate::cubes::*;
use crate::observe::*;
use crate::tables::*;
use crate::turns::{project, OddRng, ODD_KINDS};
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::invariants::{fix_corner_multiplicity, fix_edge_flip_parity, fix_swap_parity};
use barbarosa::cube_n::{Cube2, Cube3};
use barbarosa::generic::Cube;
use rand::distributions::{Distribution, Standard};
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

// ------------------------------------------------------------------- C29
/// What is counted of many cubes.
struct Tally {
    n: u64,
    pairs: Vec<u32>,
    triples: Vec<Vec<u32>>,
    parity: [u32; 2],
    sums: Vec<[u32; 3]>,
    prints: Vec<u64>,
}
struct Plan {
    np: usize,
    /// number of a place among those of its kind
    ord: Vec<usize>,
    kind_size: Vec<usize>,
    triples: Vec<[usize; 3]>,
    sums: Vec<Vec<usize>>,
}
fn plan(s: &SizeT, r: &mut Sm) -> Plan {
    let np = s.homes.len();
    let of = |k: &str| (0..np).filter(|i| s.kinds[*i] == k).collect::<Vec<_>>();
    let (cs, es) = (of("corner"), of("edge"));
    let mut ord = vec![0; np];
    let mut kind_size = vec![0; np];
    let mut triples = vec![];
    let mut sums = vec![];
    for g in [&cs, &es] {
        for (k, i) in g.iter().enumerate() {
            ord[*i] = k;
            kind_size[*i] = g.len();
        }
        if g.is_empty() {
            continue;
        }
        for _ in 0..if g.len() == 8 { 30 } else { 12 } {
            let mut t: Vec<usize> = vec![];
            while t.len() < 3 {
                let x = *r.pick(g);
                if !t.contains(&x) {
                    t.push(x);
                }
            }
            triples.push([t[0], t[1], t[2]]);
        }
        // all but one piece, and some of them
        for k in 0..g.len() {
            sums.push(g.iter().enumerate().filter(|(j, _)| *j != k).map(|x| *x.1).collect());
        }
        for _ in 0..40 {
            let v: Vec<usize> = g.iter().copied().filter(|_| r.chance(1, 2)).collect();
            if !v.is_empty() && v.len() < g.len() {
                sums.push(v);
            }
        }
    }
    Plan { np, ord, kind_size, triples, sums }
}
fn draw_cubes<C: Sut>(ctx: &Ctx, proj: &Projection, plan: &Plan, job: usize, n: usize) -> Option<Tally>
where
    Standard: Distribution<C>,
{
    let s = ctx.t.size(C::SIZE);
    let mut t = Tally {
        n: 0,
        pairs: vec![0; plan.np * plan.np * 576],
        triples: plan.triples.iter().map(|x| vec![0; plan.kind_size[x[0]].pow(3)]).collect(),
        parity: [0; 2],
        sums: vec![[0; 3]; plan.sums.len()],
        prints: Vec::with_capacity(n),
    };
    let seed = ctx.args.seed.wrapping_mul(1000).wrapping_add(job as u64);
    let mut sm = OddRng { kind: 99, i: 0, sm: Sm::new(seed, 290 + C::SIZE as u64) };
    let mut std = rand::rngs::StdRng::seed_from_u64(seed ^ 0x5eed);
    now(format!("drawing cubes of size {}", C::SIZE));
    for k in 0..n {
        tick();
        // one long stream, the library's, and many short ones
        let made = guarded(|| -> C {
            match (job + k / 1000) % 4 {
                0 => sm.gen(),
                1 => std.gen(),
                2 => rand::rngs::StdRng::seed_from_u64(seed.wrapping_add((k as u64) << 20)).gen(),
                _ => if k % 2 == 0 { rand::random() } else { rand::thread_rng().gen() },
            }
        });
        let c = match made {
            Ok(c) => c,
            Err(e) => {
                ctx.rep.violation(format!("drawing a {0}x{0}x{0}: {e}", C::SIZE), json!({"seed": seed, "draw": k}));
                return None;
            }
        };
        let Some(m) = proj.observe(s, &c).ok().and_then(|o| Model::from_obs(s, &o)) else {
            ctx.rep.violation(format!("a random {0}x{0}x{0} is no cube", C::SIZE), json!({"seed": seed, "draw": k, "cube": format!("{c:?}")}));
            return None;
        };
        if let Some(e) = m.illegal(s) {
            ctx.rep.violation(format!("a random {0}x{0}x{0} cannot be solved: {e}", C::SIZE), json!({"seed": seed, "draw": k, "cube": format!("{c:?}")}));
            return None;
        }
        if k == 0 {
            ctx.rep.sample(json!({"drawn": m.obs(s), "job": job}));
        }
        t.n += 1;
        let g = &m.g;
        for i in 0..plan.np {
            for j in i + 1..plan.np {
                t.pairs[(i * plan.np + j) * 576 + g[i] as usize * 24 + g[j] as usize] += 1;
            }
        }
        let at: Vec<usize> = (0..plan.np).map(|i| s.wher[i][g[i] as usize]).collect();
        for (x, c) in plan.triples.iter().zip(&mut t.triples) {
            let m = plan.kind_size[x[0]];
            c[plan.ord[at[x[0]]] + m * plan.ord[at[x[1]]] + m * m * plan.ord[at[x[2]]]] += 1;
        }
        for (x, c) in plan.sums.iter().zip(&mut t.sums) {
            let v: i32 = x.iter().map(|i| s.twist[*i][g[*i] as usize] + s.flip[*i][g[*i] as usize]).sum();
            c[v as usize % if s.kinds[x[0]] == "corner" { 3 } else { 2 }] += 1;
        }
        let cs: Vec<usize> = (0..plan.np).filter(|i| s.kinds[*i] == "corner").collect();
        let mut odd = 0;
        for a in 0..8 {
            for b in a + 1..8 {
                odd ^= (at[cs[a]] > at[cs[b]]) as usize;
            }
        }
        t.parity[odd] += 1;
        let mut h = 0u64;
        for x in g {
            h = Sm::new(h ^ *x as u64, 7).next();
        }
        t.prints.push(h);
    }
    Some(t)
}
fn drawn<C: Sut>(ctx: &'static Ctx, thousands: usize)
where
    Standard: Distribution<C>,
{
    let Some(proj) = project::<C>(ctx) else { return };
    let s = ctx.t.size(C::SIZE);
    let plan = plan(s, &mut Sm::new(ctx.args.seed, 29));
    let (pr, pl) = (&proj, &plan);
    let jobs: Vec<Box<dyn FnOnce() -> Option<Tally> + Send>> =
        (0..8).map(|j| Box::new(move || draw_cubes::<C>(ctx, pr, pl, j, thousands * 125)) as _).collect();
    let mut parts = parallel(jobs).into_iter();
    let Some(mut t) = parts.next().flatten() else { return };
    for p in parts {
        let Some(p) = p else { return };
        t.n += p.n;
        let add = |a: &mut [u32], b: &[u32]| a.iter_mut().zip(b).for_each(|(x, y)| *x += y);
        add(&mut t.pairs, &p.pairs);
        t.triples.iter_mut().zip(&p.triples).for_each(|(a, b)| add(a, b));
        add(&mut t.parity, &p.parity);
        t.sums.iter_mut().zip(&p.sums).for_each(|(a, b)| add(a, b));
        t.prints.extend(p.prints);
    }
    let mut tr = Tracer::new(&ctx.args, "TraceDraw", &format!("draw_{}", C::SIZE), json!({"N": C::SIZE}));
    for i in 0..plan.np {
        for j in i + 1..plan.np {
            let c = &t.pairs[(i * plan.np + j) * 576..][..576];
            tr.push(json!({"e": "pair", "i": i + 1, "j": j + 1, "n": t.n, "counts": c}));
        }
    }
    for (x, c) in plan.triples.iter().zip(&t.triples) {
        tr.push(json!({"e": "places", "i": x[0] + 1, "j": x[1] + 1, "k": x[2] + 1, "n": t.n, "counts": c}));
    }
    tr.push(json!({"e": "parity", "n": t.n, "counts": t.parity}));
    for (x, c) in plan.sums.iter().zip(&t.sums) {
        let m = if s.kinds[x[0]] == "corner" { 3 } else { 2 };
        let ps: Vec<usize> = x.iter().map(|i| i + 1).collect();
        tr.push(json!({"e": "sum", "ps": ps, "n": t.n, "counts": c[..m]}));
    }
    t.prints.sort_unstable();
    let mut pairs = 0u64;
    let mut run = 0u64;
    for k in 1..t.prints.len() {
        run = if t.prints[k] == t.prints[k - 1] { run + 1 } else { 0 };
        pairs += run;
    }
    tr.push(json!({"e": "again", "n": t.n / 1000, "pairs": pairs.min(1 << 30)}));
    tr.segments = 1;
    ctx.rep.count(&format!("random_cubes_tallied_size_{}", C::SIZE), t.n);
    ctx.rep.set(&format!("equal_pairs_among_them_size_{}", C::SIZE), pairs);
    tr.finish(&ctx.rep);
}
pub fn c29(ctx: &'static Ctx) {
    let k = if ctx.args.thorough { 1_400 } else { 1_000 };
    drawn::<Cube3>(ctx, k);
    drawn::<Cube2>(ctx, k);
}

// ------------------------------------------------------------------- C30
const KINDS: [&str; 3] = ["swap", "flip", "twist"];

/// Any arrangement at all: places and marks at random.
pub fn arrangement(q: &Cubes, r: &mut Sm) -> Model {
    let s = q.s;
    let mut m = Model::solved(s);
    for k in ["corner", "edge"] {
        let homes: Vec<usize> = (0..s.homes.len()).filter(|i| s.kinds[*i] == k).collect();
        let mut places = homes.clone();
        match r.below(4) {
            // few are away from home
            0 => {
                for _ in 0..r.below(3) {
                    let (a, b) = (r.below(places.len()), r.below(places.len()));
                    places.swap(a, b);
                }
            }
            // a single long cycle
            1 => {
                let n = 1 + r.below(places.len());
                places[..n].rotate_left(1);
            }
            _ => {
                for a in (1..places.len()).rev() {
                    let b = r.below(a + 1);
                    places.swap(a, b);
                }
            }
        }
        let plain = r.chance(1, 4);
        for (i, p) in homes.iter().zip(&places) {
            let states: Vec<usize> = (0..24).filter(|g| s.wher[*i][*g] == *p).collect();
            let marked = |g: &usize| s.twist[*i][*g] != 0 || s.flip[*i][*g] != 0;
            let g = if plain && r.chance(4, 5) { *states.iter().find(|g| !marked(g)).unwrap() } else { *r.pick(&states) };
            m.g[*i] = g as u8;
        }
    }
    m
}
/// The ways to write n as a sum, biggest part first.
fn partitions(n: usize, biggest: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    (1..=biggest.min(n)).rev().flat_map(|p| partitions(n - p, p).into_iter().map(move |mut rest| {
        rest.insert(0, p);
        rest
    })).collect()
}
/// A permutation of n with these cycles, laid out at random (or in order).
fn with_cycles(parts: &[usize], r: &mut Sm, in_order: bool) -> Vec<usize> {
    let n: usize = parts.iter().sum();
    let mut at: Vec<usize> = (0..n).collect();
    if !in_order {
        for a in (1..n).rev() {
            let b = r.below(a + 1);
            at.swap(a, b);
        }
    }
    let mut p = vec![0; n];
    let mut from = 0;
    for len in parts {
        for i in 0..*len {
            p[at[from + i]] = at[from + (i + 1) % len];
        }
        from += len;
    }
    p
}
fn nth_permutation(n: usize, mut k: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    (0..n).rev().map(|i| {
        let f: usize = (1..=i).product();
        let x = left.remove(k / f);
        k %= f;
        x
    }).collect()
}
const LAID: usize = 20;
/// Arrangements gone through one by one: every order of the corners, every set of flips,
/// every set of twists, and every pair of cycle structures of edges and corners, laid out in
/// several ways.  `None` past the last.
fn systematic(q: &Cubes, r: &mut Sm, k: usize, types: &(Vec<Vec<usize>>, Vec<Vec<usize>>)) -> Option<Model> {
    let s = q.s;
    let mut m = arrangement(q, r);
    let corners: Vec<usize> = (0..s.homes.len()).filter(|i| s.kinds[*i] == "corner").collect();
    let edges: Vec<usize> = (0..s.homes.len()).filter(|i| s.kinds[*i] == "edge").collect();
    let place = |m: &mut Model, homes: &[usize], p: &[usize], r: &mut Sm| {
        for (i, to) in p.iter().enumerate() {
            let states: Vec<usize> = (0..24).filter(|g| s.wher[homes[i]][*g] == homes[*to]).collect();
            m.g[homes[i]] = *r.pick(&states) as u8;
        }
    };
    let mut k = k;
    if k < 40_320 {
        place(&mut m, &corners, &nth_permutation(8, k), r);
        return Some(m);
    }
    k -= 40_320;
    if k < 4096 {
        for (j, i) in edges.iter().enumerate() {
            m.g[*i] = marked(q, *i, m.g[*i], 0, (k >> j & 1) as i32);
        }
        return Some(m);
    }
    k -= 4096;
    if k < 6561 {
        for i in &corners {
            m.g[*i] = marked(q, *i, m.g[*i], (k % 3) as i32, 0);
            k /= 3;
        }
        return Some(m);
    }
    k -= 6561;
    let (laid, k) = (k % LAID, k / LAID);
    let e = types.0.get(k / types.1.len())?;
    let c = &types.1[k % types.1.len()];
    let p = with_cycles(e, r, laid == 0);
    place(&mut m, &edges, &p, r);
    let p = with_cycles(c, r, laid < 2);
    place(&mut m, &corners, &p, r);
    Some(m)
}
fn odd(q: &Cubes, m: &Model, kind: &str) -> usize {
    let s = q.s;
    let ix: Vec<usize> = (0..s.homes.len()).filter(|i| s.kinds[*i] == kind).collect();
    let mut odd = 0;
    for (k, a) in ix.iter().enumerate() {
        for b in &ix[k + 1..] {
            odd ^= (s.wher[*a][m.g[*a] as usize] > s.wher[*b][m.g[*b] as usize]) as usize;
        }
    }
    odd
}
fn sum(t: &[Vec<i32>], m: &Model) -> i32 {
    m.g.iter().enumerate().map(|(i, g)| t[i][*g as usize]).sum()
}
/// The same place with another mark.
fn marked(q: &Cubes, i: usize, g: u8, twist: i32, flip: i32) -> u8 {
    let s = q.s;
    (0..24u8)
        .find(|h| {
            s.wher[i][*h as usize] == s.wher[i][g as usize] && s.twist[i][*h as usize] == twist && s.flip[i][*h as usize] == flip
        })
        .unwrap()
}
/// Repair.tla's Fixed.
fn fixed(q: &Cubes, m: &Model, kind: usize) -> Model {
    let s = q.s;
    let mut out = m.clone();
    match kind {
        0 => {
            if odd(q, m, "corner") != odd(q, m, "edge") {
                let (a, b) = (q.home[0], q.home[1]);
                let put = |i: usize, j: usize| -> u8 {
                    (0..24u8)
                        .find(|h| {
                            s.wher[i][*h as usize] == s.wher[j][m.g[j] as usize] && s.flip[i][*h as usize] == s.flip[j][m.g[j] as usize]
                        })
                        .unwrap()
                };
                out.g[a] = put(a, b);
                out.g[b] = put(b, a);
            }
        }
        1 => {
            if sum(&s.flip, m) % 2 == 1 {
                let i = q.home[11];
                out.g[i] = marked(q, i, m.g[i], 0, 1 - s.flip[i][m.g[i] as usize]);
            }
        }
        _ => {
            let i = q.home[19];
            out.g[i] = marked(q, i, m.g[i], (s.twist[i][m.g[i] as usize] + 3 - sum(&s.twist, m) % 3) % 3, 0);
        }
    }
    out
}
fn apply_fix(c: &mut Cube3, kind: usize) {
    match kind {
        0 => fix_swap_parity(c),
        1 => fix_edge_flip_parity(&mut c.edges),
        _ => fix_corner_multiplicity(&mut c.corners),
    }
}
fn listed(q: &Cubes, obs: &[[i32; 4]]) -> (Value, Value) {
    let get = |from: usize, to: usize| json!(q.home[from..to].iter().map(|h| obs[*h]).collect::<Vec<_>>());
    (get(0, 12), get(12, 20))
}
pub fn c30(ctx: &'static Ctx) {
    let Some(q) = Cubes::new(ctx) else { return };
    let q = &q;
    let s = q.s;
    // every order of repairs, each up to twice
    let seed = ctx.args.seed;
    let rounds = if ctx.args.thorough { 3_000_000 } else { 200_000 };
    let types = (partitions(12, 12), partitions(8, 8));
    let bad = over(rounds, "repairing arrangements", |k| {
        let mut r = Sm::new(seed, 3_000_000 + k as u64);
        let listed = systematic(q, &mut r, k, &types);
        let random = listed.is_none();
        let mut m = match listed {
            Some(m) => {
                ctx.rep.count("systematic_arrangements", 1);
                m
            }
            None => arrangement(q, &mut r),
        };
        let mut c = q.build(&m);
        let class = (sum(&s.twist, &m) % 3, sum(&s.flip, &m) % 2, odd(q, &m, "corner") ^ odd(q, &m, "edge"));
        let order: Vec<usize> = match r.below(3) {
            0 if random => (0..1 + r.below(5)).map(|_| r.below(3)).collect(),
            _ => {
                let mut o = vec![0, 1, 2];
                let (a, b) = (r.below(3), r.below(3));
                o.swap(a, b);
                let e = r.below(3);
                o.rotate_left(e);
                o
            }
        };
        for (n, kind) in order.iter().enumerate() {
            let before = m.clone();
            m = fixed(q, &m, *kind);
            let said = guarded(|| apply_fix(&mut c, *kind));
            let e = match said {
                Err(e) => Some(e),
                Ok(()) => match q.proj.observe(s, &c) {
                    Err(e) => Some(e),
                    Ok(o) => diff(s, &m.obs(s), &o),
                },
            };
            if let Some(e) = e {
                ctx.rep.violation(
                    format!("repair ({}) of a 3x3x3: {e}", KINDS[*kind]),
                    json!({"seed": seed, "case": k, "before": before.obs(s), "repairs": order[..=n].iter().map(|x| KINDS[*x]).collect::<Vec<_>>()}),
                );
                return Some(e);
            }
        }
        if (0..3).all(|x| order.contains(&x)) {
            if let Some(e) = m.illegal(s) {
                panic!("the model's repair leaves {e}");
            }
            ctx.rep.count("repaired_wholly", 1);
            if k % 4001 == 0 {
                ctx.rep.sample(json!({"repairs": order.iter().map(|x| KINDS[*x]).collect::<Vec<_>>(), "after": m.obs(s)}));
            }
        }
        if k < 200_000 {
            ctx.rep.count(&format!("arrangements_twist{}_flip{}_swap{}", class.0, class.1, class.2), 1);
        }
        ctx.rep.count("repairs", order.len() as u64);
        None
    });
    if let Some((k, e)) = bad {
        if !ctx.rep.failed() {
            ctx.rep.violation(format!("repairing arrangements: {e}"), json!({"seed": seed, "case": k}));
        }
        return;
    }
    // histories for TLC
    let mut tr = Tracer::new(&ctx.args, "TraceRepair", "repairs", json!({}));
    now("recording repairs");
    let homes = |from: usize, to: usize| json!(q.home[from..to].iter().map(|h| s.homes[*h]).collect::<Vec<_>>());
    tr.push(json!({"e": "homes", "edges": homes(0, 12), "corners": homes(12, 20)}));
    let mut r = Sm::new(seed, 301);
    for k in 0..if ctx.args.thorough { 1500 } else { 250 } {
        tr.segments += 1;
        let m = arrangement(q, &mut r);
        let mut c = q.build(&m);
        let seen = |tr: &mut Tracer, c: &Cube3, e: &str, kind: &str| -> bool {
            let Ok(o) = q.proj.observe(s, c) else {
                ctx.rep.violation("a repaired cube cannot be read", json!({"cube": format!("{c:?}")}));
                return false;
            };
            let (edges, corners) = listed(q, &o);
            tr.push(json!({"e": e, "kind": kind, "edges": edges, "corners": corners}));
            true
        };
        if !seen(&mut tr, &c, "given", "") {
            return;
        }
        for _ in 0..1 + r.below(5) {
            let kind = r.below(3);
            if let Err(e) = guarded(|| apply_fix(&mut c, kind)) {
                ctx.rep.violation(format!("repair ({}): {e}", KINDS[kind]), json!({"before": m.obs(s)}));
                return;
            }
            if !seen(&mut tr, &c, "fix", KINDS[kind]) {
                return;
            }
        }
        let kind = k % (ODD_KINDS + 1);
        let made = guarded(|| -> Cube3 { OddRng { kind, i: r.next() % 64, sm: Sm(r.next()) }.gen() });
        match made {
            Ok(c) => {
                if !seen(&mut tr, &c, "random", "") {
                    return;
                }
            }
            Err(e) => {
                ctx.rep.violation(format!("a random 3x3x3: {e}"), json!({"random_source": kind}));
                return;
            }
        }
    }
    ctx.rep.count("recorded_repairs", tr.events);
    tr.finish(&ctx.rep);
    let _ = Cube3::SOLVED;
}
