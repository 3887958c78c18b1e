//! C31: estimates of how far a cube is from solved, against Estimate.tla.
use crate::cubes::*;
use crate::observe::*;
use crate::random::arrangement;
use crate::tables::*;
use crate::turns::rand_alg;
use crate::util::*;
use crate::Ctx;
use barbarosa::cube3::cfop::cross::{get_cross_pieces, good_cross_heuristic, is_cross_edge, worse_but_admissable_cross_heuristic};
use barbarosa::cube3::heuristics::manhattan::{manhattan_filtered, piece_manhattan, vec_manhattan};
use barbarosa::cube3::heuristics::{manhattan, zero};
use barbarosa::cube_n::space::Face;
use barbarosa::cube_n::{Corner, Cube2, Cube3, Edge};
use barbarosa::generic::{Cube, Piece};
use nalgebra::Vector3;
use serde_json::{json, Value};

/// The specification's DistT, in the harness.
fn dist(s: &SizeT, i: usize, g: usize) -> i32 {
    let (p, q) = (&s.homes[s.wher[i][g]], &s.homes[i]);
    (0..3).map(|k| (p[k] - q[k]).abs()).sum::<i32>() / (s.n as i32 - 1)
}
/// A number of sixteenths, if it is one.
fn whole(v: f32) -> i64 {
    if v >= 0.0 && v.fract() == 0.0 && v < 1e6 {
        v as i64
    } else {
        -1
    }
}

struct Judge<'a> {
    c: &'a Cubes<'a>,
    steps: Vec<Vec<i64>>,
    faces: Vec<Face>,
    /// edges of each face, by home
    of: Vec<Vec<usize>>,
}
impl Judge<'_> {
    fn sixteenths(&self, m: &Model) -> i64 {
        (0..self.c.s.homes.len()).map(|i| dist(self.c.s, i, m.g[i] as usize) as i64).sum()
    }
    fn cross(&self, m: &Model, f: usize) -> [i64; 2] {
        let n = || self.of[f].iter().map(|i| self.steps[*i][m.g[*i] as usize]);
        [n().sum(), n().max().unwrap()]
    }
    /// The whole estimates of the code.
    fn asked(&self, cube: &Cube3) -> (i64, Vec<[i64; 2]>) {
        let all = whole(manhattan(cube) * 16.0);
        let cross = self
            .faces
            .iter()
            .map(|f| [whole(good_cross_heuristic(cube, f) * 2.0), whole(worse_but_admissable_cross_heuristic(cube, f))])
            .collect();
        (all, cross)
    }
}

/// Filtered sums of one kind: over some homes, over places, over marks.
fn filtered(j: &Judge, m: &Model, cube: &Cube3, r: &mut Sm) -> Vec<(Vec<usize>, i64)> {
    let s = j.c.s;
    let n = s.homes.len();
    let mut out = vec![];
    for corners in [false, true] {
        let kind = if corners { "corner" } else { "edge" };
        let of: Vec<usize> = (0..n).filter(|i| s.kinds[*i] == kind).collect();
        let mask = r.next() | r.next();
        let way = r.below(3);
        let axis = r.below(3);
        let obs = m.obs(s);
        // which, by the specification's observation of a piece and its home
        let takes = |i: usize| match way {
            0 => mask >> i & 1 == 1,
            1 => obs[i][axis] > 0,
            _ => obs[i][3] == 1,
        };
        let homes: Vec<usize> = of.into_iter().filter(|i| takes(*i)).collect();
        let by_home = |p: [i32; 3]| s.homes.iter().position(|h| *h == p).unwrap();
        let sum = if corners {
            manhattan_filtered(&cube.corners, |pos: &<Corner as Piece>::Position, c: &Corner| {
                let h = by_home([2 * sign(pos.x), 2 * sign(pos.y), 2 * sign(pos.z)]);
                match way {
                    0 => mask >> h & 1 == 1,
                    1 => [c.position.x, c.position.y, c.position.z].map(sign)[axis] > 0,
                    _ => axis_no(c.orientation_axis) == 0,
                }
            })
        } else {
            manhattan_filtered(&cube.edges, |pos: &<Edge as Piece>::Position, e: &Edge| {
                let at = |axis, p: &nalgebra::Vector2<_>| see_edge(3, &Edge { normal_axis: axis, slice_position: *p, oriented: true }).place;
                let h = by_home(at(pos.0, &pos.1));
                match way {
                    0 => mask >> h & 1 == 1,
                    1 => at(e.normal_axis, &e.slice_position)[axis] > 0,
                    _ => e.oriented,
                }
            })
        };
        out.push((homes, whole(sum)));
    }
    out
}

/// Corners of the smallest cube too.
fn other_sizes(ctx: &Ctx) {
    macro_rules! go {
        ($t:ty, $n:literal) => {{
            let s = ctx.t.size($n);
            let mut r = Sm::new(ctx.args.seed, 3100 + $n);
            for k in 0..60 {
                let alg = rand_alg(&mut r, s.maxdepth, k % 30);
                let mut m = Model::solved(s);
                m.alg(&ctx.t, s, &alg);
                let mut c = <$t>::SOLVED;
                alg.iter().for_each(|t| Sut::turn(&mut c, *t, 0));
                let want = |kind: &str| -> i64 {
                    (0..s.homes.len()).filter(|i| s.kinds[*i] == kind).map(|i| dist(s, i, m.g[i] as usize) as i64).sum()
                };
                let got = whole(manhattan_filtered(&c.corners, |_, _| true));
                if got != want("corner") {
                    return ctx.rep.violation(
                        format!("the corners of a cube of size {} after {}: {got}, they are {} away", $n, show_alg(&alg), want("corner")),
                        json!({"size": $n, "alg": show_alg(&alg)}),
                    );
                }
                let zeros: [f32; 1] = [zero(&c)];
                if zeros[0] != 0.0 {
                    return ctx.rep.violation(format!("zero is {}", zeros[0]), json!({"size": $n}));
                }
                ctx.rep.count("cubes_of_size_2_and_3", 1);
            }
        }};
    }
    go!(Cube2, 2);
    go!(Cube3, 3);
}

pub fn c31(ctx: &'static Ctx) {
    let Some(c) = Cubes::new(ctx) else { return };
    let s = c.s;
    let v = read_json(&format!("{}/steps.json", ctx.args.dir));
    let steps: Vec<Vec<i64>> =
        v.as_array().unwrap().iter().map(|x| x.as_array().unwrap().iter().map(|y| y.as_i64().unwrap()).collect()).collect();
    let faces: Vec<Face> = (0..6).map(|k| axis_move(Turn { face: k, amount: 1, depth: 0 }).face).collect();
    let of = (0..6).map(|f| (0..s.homes.len()).filter(|i| s.kinds[*i] == "edge" && s.inturn[0][f][*i]).collect()).collect();
    let j = Judge { c: &c, steps, faces, of };
    let mut tr = Tracer::new(&ctx.args, "TraceEstimate", "estimates", json!({"N": 3}));
    tr.segments += 1;

    // which edges belong to a face
    for (k, f) in j.faces.iter().enumerate() {
        let place = |p: &<Edge as Piece>::Position| {
            let o = see_edge(3, &Edge { normal_axis: p.0, slice_position: p.1, oriented: true }).place;
            s.homes.iter().position(|h| *h == o).unwrap()
        };
        let four: Vec<usize> = get_cross_pieces(f).iter().map(place).collect();
        let yes: Vec<usize> = (0..12)
            .map(|slot| c.home[slot])
            .filter(|h| is_cross_edge(&edge_of(&s.obs[*h][0]).position(), f))
            .collect();
        let sorted = |v: &[usize]| {
            let mut v = v.to_vec();
            v.sort();
            v
        };
        if sorted(&four) != sorted(&j.of[k]) || sorted(&yes) != sorted(&j.of[k]) {
            let at = |v: &[usize]| v.iter().map(|h| s.homes[*h]).collect::<Vec<_>>();
            ctx.rep.violation(
                format!("the cross edges of {f:?}: {:?} listed, {:?} said to be", at(&four), at(&yes)),
                json!({"face": format!("{f:?}"), "listed": at(&four), "said": at(&yes)}),
            );
        }
        let one = |v: &[usize]| v.iter().map(|h| h + 1).collect::<Vec<_>>();
        tr.push(json!({"e": "edges", "f": face_signed(f), "of": one(&four), "yes": one(&yes)}));
    }
    // every piece in every state
    for i in 0..s.homes.len() {
        for g in 0..24 {
            let got = if s.kinds[i] == "corner" {
                piece_manhattan(corner_of(&s.obs[i][0]).position(), &corner_of(&s.obs[i][g]))
            } else {
                piece_manhattan(edge_of(&s.obs[i][0]).position(), &edge_of(&s.obs[i][g]))
            };
            if whole(got) != dist(s, i, g) as i64 {
                ctx.rep.violation(
                    format!("the piece of home {:?} seen as {:?} is {} away, not {got}", s.homes[i], s.obs[i][g], dist(s, i, g)),
                    json!({"home": s.homes[i], "obs": s.obs[i][g], "said": got}),
                );
            }
            ctx.rep.count("piece_states", 1);
        }
    }
    // points, in quarters
    let mut r = Sm::new(ctx.args.seed, 31);
    for k in 0..400 {
        let size = [2, 10, 2000][k % 3];
        let mut p = || -> [i32; 3] { std::array::from_fn(|_| r.below(2 * size + 1) as i32 - size as i32) };
        let (a, b) = (p(), if k % 7 == 0 { [0; 3] } else { p() });
        let v = |p: [i32; 3]| Vector3::new(p[0] as f32 / 4.0, p[1] as f32 / 4.0, p[2] as f32 / 4.0);
        let d = whole(vec_manhattan(&v(a), &v(b)) * 4.0);
        let want: i32 = (0..3).map(|i| (a[i] - b[i]).abs()).sum();
        if d != want as i64 {
            ctx.rep.violation(format!("{a:?} and {b:?} (in quarters) are {want} quarters apart, not {d}"), json!({"a": a, "b": b, "said": d}));
        }
        tr.push(json!({"e": "vec", "a": a, "b": b, "d": d}));
        ctx.rep.count("points", 1);
    }
    other_sizes(ctx);
    if ctx.rep.failed() {
        tr.finish(&ctx.rep);
        return;
    }
    // cubes
    let state = |r: &mut Sm, k: usize| match k % 4 {
        0 => {
            let n = k / 4 % 9;
            c.random(r, n)
        }
        1 => arrangement(&c, r),
        _ => c.random(r, 30),
    };
    let say = |m: &Model, e: String| json!({"obs": m.obs(s), "what": e});
    let judge = |m: &Model, cube: &Cube3, parts: &[(Vec<usize>, i64)]| -> Option<String> {
        let (all, cross) = j.asked(cube);
        if all != j.sixteenths(m) {
            return Some(format!("a cube that is {} sixteenths away is said to be {} ({})", j.sixteenths(m), all, manhattan(cube)));
        }
        for f in 0..6 {
            if cross[f] != j.cross(m, f) {
                return Some(format!("{:?}: half the sum and the largest of the least turns are {:?}/2, said {:?}", j.faces[f], j.cross(m, f), cross[f]));
            }
        }
        for (of, sum) in parts {
            let want: i64 = of.iter().map(|i| dist(s, *i, m.g[*i] as usize) as i64).sum();
            if *sum != want {
                return Some(format!("some pieces are {want} away together, said {sum}: {:?}", of.iter().map(|i| s.homes[*i]).collect::<Vec<_>>()));
            }
        }
        (zero(cube) != 0.0).then(|| format!("zero is {}", zero(cube)))
    };
    for k in 0..if ctx.args.thorough { 6000 } else { 1500 } {
        let m = state(&mut r, k);
        let cube = c.build(&m);
        let done = guarded(|| (filtered(&j, &m, &cube, &mut r), j.asked(&cube)));
        let (parts, (all, cross)) = match done {
            Ok(x) => x,
            Err(e) => {
                ctx.rep.violation(e.clone(), say(&m, e));
                break;
            }
        };
        if let Some(e) = judge(&m, &cube, &parts) {
            ctx.rep.violation(e.clone(), say(&m, e));
        }
        let listed: Vec<Value> =
            parts.iter().map(|(of, sum)| json!({"of": of.iter().map(|i| i + 1).collect::<Vec<_>>(), "sum": sum})).collect();
        let ev = json!({"e": "cube", "obs": m.obs(s), "all": all, "parts": listed, "cross": cross});
        if k < 4 {
            ctx.rep.sample(ev.clone());
        }
        tr.push(ev);
        if ctx.rep.failed() {
            break;
        }
    }
    tr.finish(&ctx.rep);
    let rounds = if ctx.args.thorough { 3_000_000 } else { 300_000 };
    let bad = over(rounds, "estimates", |k| {
        let mut r = Sm::new(ctx.args.seed, 31_000 + k as u64);
        let m = state(&mut r, k);
        let cube = c.build(&m);
        let parts = filtered(&j, &m, &cube, &mut r);
        judge(&m, &cube, &parts).map(|e| format!("{:?}: {e}", m.obs(s)))
    });
    if let Some((k, e)) = bad {
        ctx.rep.violation(e.clone(), json!({"case": k, "seed": ctx.args.seed, "what": e}));
    }
    ctx.rep.count("cubes", rounds as u64);
}
