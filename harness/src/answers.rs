//! C36: the same question gets the same answer, whenever and wherever it is asked (Answers.tla).
use crate::util::*;
use crate::Ctx;
use barbarosa::cube3::cfop::cross::{
    count_cross_pieces, get_cross_pieces, good_cross_heuristic, solve_cross, solve_cross_fast, worse_but_admissable_cross_heuristic,
};
use barbarosa::cube3::heuristics::manhattan;
use barbarosa::cube3::mus::deindex::Deindexable;
use barbarosa::cube3::mus::index::Indexable;
use barbarosa::cube_n::invariants::{fix_corner_multiplicity, fix_edge_flip_parity, fix_swap_parity};
use barbarosa::cube_n::moves::non_redundant::absorve;
use barbarosa::cube_n::moves::perms::{self, pll};
use barbarosa::cube_n::moves::rotation::{AxisRotation, Rotatable};
use barbarosa::cube_n::moves::{Amount, ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::pieces::edge::min_moves_to_solve;
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::visualization::unfolded::Unfolded;
use barbarosa::cube_n::visualization::{Colored, Colorscheme};
use barbarosa::cube_n::{AxisMove, Corner, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, Edge, Orientable, Orientation, WideAxisMove};
use barbarosa::generic::piece::{Coordinates, PieceSet};
use barbarosa::generic::{moves::connect, Alg, Cube, Movable, Move, Parsable, Piece};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};

/// Arguments are of small pools, so that questions share parts of them.
const POOL: u64 = 6;
/// A number says which two (or three) parts.
fn part(n: u64, k: u32) -> u64 {
    n / POOL.pow(k) % POOL
}
fn face(k: u64) -> Face {
    Face::iter().nth(k as usize % 6).unwrap()
}
const AMOUNTS: [Amount; 3] = [Amount::Single, Amount::Double, Amount::Inverse];
const AXES: [Axis; 3] = [Axis::X, Axis::Y, Axis::Z];
const LENGTHS: [u64; 6] = [0, 1, 7, 20, 20, 90];
fn turns(stream: u64, len: u64) -> Vec<AxisMove> {
    let mut r = Sm::new(36, stream);
    (0..len).map(|_| AxisMove::new(face(r.next()), AMOUNTS[r.below(3)])).collect()
}
fn alg(k: u64) -> Alg<AxisMove> {
    Alg::new(turns(3600 + k, LENGTHS[k as usize % 6]))
}
/// An alg with much to be cancelled.
fn wound(k: u64) -> Alg<AxisMove> {
    let a = turns(3610 + k, 3 + 4 * k);
    let mut all = a.clone();
    all.extend(a.iter().rev().skip(k as usize % 3).map(|m| m.inverse()));
    all.extend(turns(3620 + k, k));
    Alg::new(all)
}
fn wides<const N: u32>(k: u64) -> Vec<WideAxisMove<N>> {
    let mut r = Sm::new(36, 3640 + k);
    (0..LENGTHS[k as usize % 6]).map(|_| WideAxisMove::new(face(r.next()), AMOUNTS[r.below(3)], (r.next() % (N as u64 + 1)) as u32).unwrap()).collect()
}
fn cube3(k: u64) -> Cube3 {
    Cube3::SOLVED.moved(&alg(k))
}
fn near(k: u64) -> Cube3 {
    Cube3::SOLVED.moved(&Alg::<AxisMove>::new(turns(3650 + k, k % 4)))
}
/// The corners of one cube and the edges of another, both reached in an even number of
/// quarter turns.
fn mixed(n: u64) -> Cube3 {
    let even = |k: u64| {
        let mut a = alg(k);
        if a.moves.iter().filter(|m| m.amount != Amount::Double).count() % 2 == 1 {
            a.moves.push(AxisMove::new(Face::U, Amount::Single));
        }
        Cube3::SOLVED.moved(&a)
    };
    Cube3 { corners: even(part(n, 0)).corners, edges: even(part(n, 1)).edges }
}
fn extended(k: u64) -> Vec<ExtendedAxisMove> {
    let mut r = Sm::new(36, 3660 + k);
    (0..LENGTHS[k as usize % 6].max(2))
        .map(|_| match r.below(5) {
            0 => ExtendedAxisMove::Regular(AxisMove::new(face(r.next()), AMOUNTS[r.below(3)])),
            1 => ExtendedAxisMove::Wide(WideAxisMove::new(face(r.next()), AMOUNTS[r.below(3)], r.below(3) as u32).unwrap()),
            2 => ExtendedAxisMove::Slice { rot: AxisRotation::new(AXES[r.below(3)], AMOUNTS[r.below(3)]), wide: r.chance(1, 2) },
            _ => ExtendedAxisMove::Rotation(AxisRotation::new(AXES[r.below(3)], AMOUNTS[r.below(3)])),
        })
        .collect()
}
fn held<C>(n: u64) -> Orientable<C>
where
    C: barbarosa::cube_n::CubeN + 'static,
    Orientable<C>: Movable<ExtendedAxisMove> + Cube,
{
    let mut c = Orientable::<C>::new(C::SOLVED);
    extended(part(n, 0)).iter().for_each(|m| c.apply(m));
    extended(part(n, 1)).iter().for_each(|m| c.apply(m));
    c
}
fn hash_of(t: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn corner_of(n: u64) -> Corner {
    let mut r = Sm::new(36, 3670 + n);
    let d = |b: bool| if b { Direction::Positive } else { Direction::Negative };
    Corner {
        position: nalgebra::Vector3::new(d(r.chance(1, 2)), d(r.chance(1, 2)), d(r.chance(1, 2))),
        orientation_axis: AXES[r.below(3)],
    }
}
fn edge_of(n: u64) -> Edge {
    let mut r = Sm::new(36, 3680 + n);
    let d = |b: bool| if b { Direction::Positive } else { Direction::Negative };
    Edge { normal_axis: AXES[r.below(3)], slice_position: nalgebra::Vector2::new(d(r.chance(1, 2)), d(r.chance(1, 2))), oriented: r.chance(1, 2) }
}
const TEXTS: [&str; 36] = [
    "R", "U'", "F2", "Rw", "r", "3Rw2", "x", "y2", "z'", "M", "E'", "S2", "m", "L3", "R''", "", " ", "2", "'", "10Rw", "0Uw", "R U R' U'",
    "R  U", "Rw U2 x M'", "R U X", "1r", "D2", "B'", "l2", "99999999999Rw", "é", "R U\tF", "F2 F2", "b", "2d'", "u2'",
];
const SCHEME: [[f32; 3]; 6] = [[1.0, 0.0, 0.0], [1.0, 1.0, 1.0], [0.0, 1.0, 0.0], [1.0, 0.5, 0.0], [1.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
struct Painted<'a, const N: usize>(&'a Unfolded<N>, &'a Colorscheme<palette::Srgb>);
impl<const N: usize> std::fmt::Display for Painted<'_, N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.write(self.1, f)
    }
}

pub struct Kind {
    name: &'static str,
    /// of how many numbers
    of: u64,
    ask: fn(u64) -> String,
}
fn kinds() -> Vec<Kind> {
    let mut v = vec![];
    macro_rules! ask {
        ($name:literal, $of:expr, |$n:ident| $e:expr) => {
            v.push(Kind { name: $name, of: $of, ask: |$n: u64| format!("{:?}", $e) })
        };
    }
    macro_rules! parsed {
        ($($name:literal: $t:ty;)*) => { $(
            v.push(Kind { name: concat!("reading ", $name), of: 36, ask: |n| match <$t as Parsable>::parse(TEXTS[n as usize]) {
                Ok(m) => format!("{m:?}"),
                Err(e) => format!("refused: {e}"),
            }});
        )* };
    }
    // reading and printing
    parsed! {
        "amounts": Amount; "faces": Face; "axes": Axis; "turns": AxisMove; "rotations": AxisRotation;
        "wide turns": WideAxisMove<2>; "wider turns": WideAxisMove<7>; "extended moves": ExtendedAxisMove;
        "algs": Alg<AxisMove>; "wide algs": Alg<WideAxisMove<2>>; "extended algs": Alg<ExtendedAxisMove>;
    }
    ask!("printing algs", 12, |n| if n < 6 { alg(n).to_string() } else { wound(n - 6).to_string() });
    ask!("printing wide algs", 6, |n| Alg::<WideAxisMove<4>>::new(wides(n)).to_string());
    // algs
    ask!("normalising", 36, |n| {
        let mut a = wound(part(n, 0));
        a.moves.extend(wound(part(n, 1)).moves);
        a.normalized()
    });
    ask!("reversing", 6, |n| alg(n).reversed());
    ask!("in quarter turns", 6, |n| Alg::<QuarterAxisMove>::from(alg(n)));
    ask!("widening", 36, |n| alg(part(n, 0)).widen::<3>(part(n, 1) as u32).map_err(|e| e.to_string()));
    ask!("merging", 36, |n| {
        let mut at: Option<NonRedundantAxisMove> = None;
        let mut said = vec![];
        for m in alg(part(n, 0)).moves.iter().chain(&wound(part(n, 1)).moves) {
            said.push(format!("{:?} {at:?}", absorve(&mut at, m)));
        }
        said
    });
    ask!("combinations", 3, |n| (
        NonRedundantAxisMove::of_axis(AXES[n as usize]).collect::<Vec<_>>(),
        NonRedundantAxisMove::given_last_axis(&AXES[n as usize]).collect::<Vec<_>>()
    ));
    ask!("all turns", 2, |n| if n == 0 { format!("{:?}", AxisMove::all()) } else { format!("{:?}", NonRedundantAxisMove::all().collect::<Vec<_>>()) });
    ask!("named algs", 4, |n| match n {
        0 => Alg::<AxisMove>::clone(&perms::SEXY_MOVE),
        1 => pll::T.clone(),
        2 => pll::U.clone(),
        _ => pll::J.clone(),
    });
    ask!("named algs done", 24, |n| {
        let mut c = cube3(part(n, 0));
        match part(n, 1) {
            0 => c.apply(&perms::SEXY_MOVE),
            1 => c.apply(&pll::T),
            2 => c.apply(&pll::U),
            _ => c.apply(&pll::J),
        }
        c
    });
    ask!("depths", 36, |n| {
        let mut m = WideAxisMove::<3>::new(face(n), AMOUNTS[n as usize % 3], part(n, 0) as u32 % 4).unwrap();
        let said = m.set_depth(part(n, 1) as u32).map_err(|e| e.to_string());
        (said, m.clone(), m.inverse(), m.set_max_depth::<1>().map_err(|e| e.to_string()))
    });
    // cubes
    macro_rules! cubes {
        ($($name:literal $eq:literal $held:literal: $c:ty, $n:literal;)*) => { $(
            ask!($name, 36, |n| {
                let mut c = <$c>::SOLVED;
                wides::<$n>(part(n, 0)).iter().for_each(|m| c.apply(m));
                c.apply(&alg(part(n, 1)));
                (c.is_solved(), c)
            });
            ask!($eq, 36, |n| {
                let to = |k| <$c>::SOLVED.moved(&alg(k).moves[..]);
                (to(part(n, 0)) == to(part(n, 1)), to(part(n, 0)).moved(&alg(part(n, 1)).reversed()).is_solved())
            });
            ask!($held, 36, |n| {
                let c = held::<$c>(n);
                (c.is_solved(), c == held::<$c>(part(n, 0)), c.orientation.rotations().collect::<Vec<_>>(), c)
            });
        )* };
    }
    cubes! {
        "turning 2x2x2" "comparing 2x2x2" "holding 2x2x2": Cube2, 0; "turning 3x3x3" "comparing 3x3x3" "holding 3x3x3": Cube3, 0;
        "turning 4x4x4" "comparing 4x4x4" "holding 4x4x4": Cube4, 1; "turning 5x5x5" "comparing 5x5x5" "holding 5x5x5": Cube5, 1;
        "turning 6x6x6" "comparing 6x6x6" "holding 6x6x6": Cube6, 2; "turning 7x7x7" "comparing 7x7x7" "holding 7x7x7": Cube7, 2;
    }
    ask!("hashes", 6, |n| (hash_of(&cube3(n)), hash_of(&cube3(n).corners), hash_of(&cube3(n).edges)));
    ask!("quarter turns", 36, |n| {
        let mut c = cube3(part(n, 0));
        Alg::<QuarterAxisMove>::from(alg(part(n, 1))).moves.iter().for_each(|m| c.apply(m));
        c
    });
    ask!("connecting", 36, |n| {
        let a = cube3(part(n, 0));
        let b = a.clone().moved(&AxisMove::new(face(part(n, 1)), AMOUNTS[n as usize % 3]));
        (connect::<AxisMove, _>(&a, &b), connect::<AxisMove, _>(&a, &cube3(part(n, 1))))
    });
    ask!("algs of states", 36, |n| {
        let mut states = vec![cube3(part(n, 0))];
        for m in turns(3690 + part(n, 1), part(n, 1)) {
            states.push(states.last().unwrap().clone().moved(&m));
        }
        if n % 4 == 3 {
            states.push(near(5));
        }
        Alg::<AxisMove>::try_from_states(&states).map_err(|e| e.to_string())
    });
    ask!("successors", 6, |n| cube3(n).successors().into_iter().collect::<Vec<_>>());
    ask!("mixed cubes", 36, |n| (mixed(n).is_solved(), hash_of(&mixed(n)), mixed(n) == mixed((n + 6) % 36), mixed(n) == mixed(n / 6 * 6)));
    // indices
    ask!("indices of mixed cubes", 36, |n| {
        let ix = mixed(n).indices();
        ((ix.corners, ix.edges), Cube3::from_indices(ix))
    });
    ask!("estimates of mixed cubes", 36, |n| {
        let (c, f) = (mixed(n), face(n / 7));
        (manhattan(&c), good_cross_heuristic(&c, &f), worse_but_admissable_cross_heuristic(&c, &f), count_cross_pieces(&c, &f))
    });
    ask!("pictures of mixed cubes", 36, |n| mixed(n).to_string());
    ask!("turning mixed cubes", 36, |n| mixed(n).moved(&alg(n % 5)));
    ask!("indices", 6, |n| {
        let ix = cube3(n).indices();
        let pieces = (cube3(n).corners.pieces().index(), ix.corners, ix.edges);
        (pieces, Cube3::from_indices(ix))
    });
    ask!("corners of indices", 36, |n| <[Corner; 8] as Deindexable>::from_index((Sm::new(36, 3700 + n).next() % 88_179_840) as usize));
    ask!("edges of indices", 36, |n| <[Edge; 6] as Deindexable>::from_index((Sm::new(36, 3740 + n).next() % 42_577_920) as usize));
    // estimates and searches
    ask!("estimates", 36, |n| {
        let (c, f) = (cube3(part(n, 0)), face(part(n, 1)));
        (
            manhattan(&c),
            good_cross_heuristic(&c, &f),
            worse_but_admissable_cross_heuristic(&c, &f),
            count_cross_pieces(&c, &f),
            get_cross_pieces(&f),
        )
    });
    ask!("least moves", 36, |n| {
        let to = edge_of(part(n, 0)).position();
        (0..POOL).map(|k| min_moves_to_solve(&to, &edge_of(part(n, 1) + 7 * k))).collect::<Vec<_>>()
    });
    ask!("crosses", 36, |n| solve_cross(&near(part(n, 0)), &face(part(n, 1))));
    ask!("fast crosses", 36, |n| solve_cross_fast(&near(part(n, 0)), &face(part(n, 1))));
    ask!("solving", 6, |n| near(n % 4).solve_with_heuristic(manhattan));
    ask!("repairing", 36, |n| {
        let mut c = cube3(part(n, 0));
        let (mut corners, mut edges) = (c.corners.pieces().clone(), c.edges.pieces().clone());
        corners[part(n, 1) as usize].twist();
        edges[part(n, 1) as usize].flip();
        edges.swap(0, 1 + part(n, 1) as usize);
        c.corners = PieceSet::new(corners).unwrap();
        c.edges = PieceSet::new(edges).unwrap();
        fix_swap_parity(&mut c);
        fix_edge_flip_parity(&mut c.edges);
        fix_corner_multiplicity(&mut c.corners);
        c
    });
    // pictures
    ask!("pictures", 6, |n| cube3(n).to_string());
    ask!("pictures in colours", 36, |n| {
        let u: Unfolded<3> = cube3(part(n, 0)).into();
        let scheme: [palette::Srgb; 6] = std::array::from_fn(|k| {
            let c = SCHEME[(k + part(n, 1) as usize) % 6];
            palette::Srgb::new(c[0], c[1], c[2])
        });
        Painted(&u, &Colorscheme::new(scheme)).to_string()
    });
    ask!("squares", 36, |n| {
        let u: Unfolded<3> = cube3(part(n, 0)).into();
        let v: Vec<_> = (0..12).map(|k| corner_of(12 * part(n, 1) + k).coordinates()).collect();
        v.iter().flat_map(|p| (0..6).map(|f| u[&face(f)].at(p, &face(f)).cloned()).collect::<Vec<_>>()).collect::<Vec<_>>()
    });
    ask!("empty pictures", 2, |n| if n == 0 {
        let mut u = Unfolded::<5>::default();
        u.populate_with(&cube3(3).corners);
        format!("{:?}", u.iter().map(|(f, s)| (f, s.data.clone())).collect::<Vec<_>>())
    } else {
        format!("{:?}", Unfolded::<2>::default().iter().map(|(f, s)| (f, s.data.clone())).collect::<Vec<_>>())
    });
    // pieces and space
    ask!("corners", 36, |n| {
        let (c, home) = (corner_of(n), corner_of(part(n, 0)).position());
        (c.faces(), c.orientation_index(), c.is_oriented(), c.is_solved(&home), c.colors(home), c.coordinates())
    });
    ask!("edges", 36, |n| {
        let (e, home) = (edge_of(n), edge_of(part(n, 0)).position());
        (e.faces(), e.is_solved(&home), e.colors(home), e.coordinates(), Edge::orientation_face(home), Edge::non_orientation_face(home))
    });
    ask!("rotating", 36, |n| {
        let by = AxisRotation::new(AXES[n as usize % 3], AMOUNTS[n as usize / 3 % 3]);
        let (a, f) = (alg(part(n, 0) % 4), face(part(n, 1)));
        (by.inverse(), f.clone().rotated(&by), corner_of(n).rotated(&by), edge_of(n).rotated(&by), a.moves.iter().map(|m| m.clone().rotated(&by)).collect::<Vec<_>>())
    });
    ask!("faces", 36, |n| {
        let (f, g) = (face(part(n, 0)), face(part(n, 1)));
        (f.opposite(), f.cross(&g), f.axis.get_handedness(&g.axis), f.axis.offset(&g.axis), Axis::basis(&f.axis), Axis::other(&f.axis, &g.axis), f.contains_edge(&edge_of(n)), f.index(), f.coords())
    });
    ask!("orientations", 36, |n| Orientation::try_from([face(part(n, 0)), face(part(n, 1))])
        .map(|o| (o.r_face().clone(), o.u_face(), o.rotations().collect::<Vec<_>>(), o)));
    ask!("looking pieces up", 36, |n| {
        let c = cube3(part(n, 0));
        let (at, edge) = (corner_of(part(n, 1)).position(), edge_of(part(n, 1)).position());
        let mut swapped = c.corners.clone();
        swapped.swap(&at, &corner_of(n).position());
        (c.corners.piece_originally_at(&at).clone(), c.corners.original_position_of_piece_at(&at), c.edges.piece_originally_at(&edge).clone(), c.edges.original_position_of_piece_at(&edge), swapped)
    });
    ask!("building sets", 36, |n| {
        let mut p = cube3(part(n, 0)).corners.pieces().clone();
        let k = part(n, 1) as usize;
        p[k] = p[7 - k].clone();
        if n % 2 == 0 {
            p[k].twist();
        }
        PieceSet::new(p).map_err(|e| e.to_string())
    });
    v
}
type Q = (usize, u64);
fn answer(ks: &[Kind], q: Q) -> String {
    // a panic is an answer too: whether there should be one is not asked here
    guarded(|| (ks[q.0].ask)(q.1)).unwrap_or_else(|e| e.split_inclusive(':').take(1).collect())
}
pub fn short(s: &str) -> String {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    format!("{h:x}")
}
fn all(ks: &[Kind]) -> Vec<Q> {
    ks.iter().enumerate().flat_map(|(k, kind)| (0..kind.of).map(move |n| (k, n))).collect()
}
fn shuffled(mut qs: Vec<Q>, r: &mut Sm) -> Vec<Q> {
    for i in (1..qs.len()).rev() {
        qs.swap(i, r.below(i + 1));
    }
    qs
}
fn clip(s: &str, other: &str) -> String {
    // about where they part
    let at = s.bytes().zip(other.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(60);
    let at = (0..=at).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
    s[at..].chars().take(200).collect()
}

/// A process in which threads ask everything at once, before anybody asked anything.
pub fn answers_child(ctx: &'static Ctx) {
    let ks = kinds();
    let order: u64 = ctx.args.value("--order").and_then(|x| x.parse().ok()).unwrap_or(0);
    let threads = 8u64;
    let gate = Barrier::new(threads as usize);
    let clock = AtomicU64::new(0);
    let log: Mutex<Vec<(u64, u64, u64, &str, Q, String)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (ks, gate, clock, log) = (&ks, &gate, &clock, &log);
            s.spawn(move || {
                // pairs of threads ask in the same order
                let mut r = Sm::new(ctx.args.seed, 3800 + 8 * order + t / 2);
                let qs: Vec<Q> = shuffled(all(ks), &mut r);
                let mut mine = vec![];
                gate.wait();
                for q in qs {
                    let from = clock.fetch_add(1, Ordering::SeqCst);
                    let a = answer(ks, q);
                    let to = clock.fetch_add(1, Ordering::SeqCst);
                    mine.push((from, to, t, ks[q.0].name, q, short(&a)));
                    tick();
                }
                log.lock().unwrap().extend(mine);
            });
        }
    });
    let mut out = String::new();
    for (from, to, t, _, q, a) in log.into_inner().unwrap() {
        writeln!(out, "{from} {to} {t} {} {} {a}", q.0, q.1).unwrap();
    }
    std::fs::write(ctx.args.value("--answers").unwrap(), out).unwrap();
}

/// Runs of threads, for TLC.
fn tell(tr: &mut Tracer, ks: &[Kind], runs: &[(u64, u64, u64, Q, String)], known: &HashMap<Q, String>, most: usize) {
    let mut events: Vec<(u64, Value)> = vec![];
    for (from, to, t, q, a) in runs {
        let name = format!("{} {}", ks[q.0].name, q.1);
        events.push((*from, json!({"e": "ask", "t": t, "q": name})));
        events.push((*to, json!({"e": "told", "t": t, "q": name, "a": a})));
    }
    events.sort_by_key(|e| e.0);
    events.truncate(most);
    tr.segments += 1;
    tr.push(json!({"e": "alone"}));
    let mut asked: Vec<Q> = runs.iter().map(|r| r.3).collect();
    asked.sort();
    asked.dedup();
    for q in asked {
        let name = format!("{} {}", ks[q.0].name, q.1);
        tr.push(json!({"e": "ask", "t": 0, "q": name}));
        tr.push(json!({"e": "told", "t": 0, "q": name, "a": short(&known[&q])}));
    }
    tr.push(json!({"e": "together"}));
    for (_, e) in events {
        tr.push(e);
    }
}

pub fn c36(ctx: &'static Ctx) {
    let rep = &ctx.rep;
    let ks = kinds();
    let mut r = Sm::new(ctx.args.seed, 3600);
    let bad = |q: Q, when: &str, a: &str, b: &str| {
        let what = format!("{} ({}): asked {when} the answer is …{}…, otherwise …{}…", ks[q.0].name, q.1, clip(b, a), clip(a, b));
        rep.violation(what, json!({"kind": ks[q.0].name, "number": q.1, "when": when}));
    };
    let mut tr = Tracer::new(&ctx.args, "TraceAnswers", "answers", json!({}));

    // each alone and one after the other
    let mut known: HashMap<Q, String> = HashMap::new();
    for q in all(&ks) {
        now(format!("asking {} ({})", ks[q.0].name, q.1));
        known.insert(q, answer(&ks, q));
    }
    rep.count("questions", known.len() as u64);
    rep.count("kinds", ks.len() as u64);
    for k in [0, 12, 20, 40] {
        let q = (k, 1);
        rep.sample(json!({"question": format!("{} {}", ks[k].name, 1), "answer": known.get(&q).map(|a| a.chars().take(100).collect::<String>())}));
    }
    // twice in a row, the other way round, in any order, and again after questions of the same kind
    let rounds = if ctx.args.thorough { 40 } else { 6 };
    let back: Vec<Q> = all(&ks).into_iter().rev().collect();
    for round in 0..rounds {
        now(format!("asking all again, round {round}"));
        let qs = match round {
            0 => back.clone(),
            1 => all(&ks).into_iter().flat_map(|q| [q, q]).collect(),
            // within a kind, in any order
            2 => {
                let mut v = shuffled(all(&ks), &mut r);
                v.sort_by_key(|q| q.0);
                v
            }
            _ => shuffled(all(&ks), &mut r),
        };
        let mut runs = vec![];
        for (i, q) in qs.into_iter().enumerate() {
            let a = answer(&ks, q);
            rep.count("asked_again", 1);
            tick();
            if a != known[&q] {
                bad(q, "again", &known[&q], &a);
                if rep.too_many() {
                    return;
                }
            }
            if i < 300 && round < 6 {
                runs.push((2 * i as u64, 2 * i as u64 + 1, 1, q, short(&a)));
            }
        }
        if round < 6 {
            tell(&mut tr, &ks, &runs, &known, usize::MAX);
        }
    }
    if rep.failed() {
        return;
    }
    // in threads: all of one kind at once, and everything at once
    let spell = if ctx.args.thorough { 1500 } else { 180 };
    let (ks_, known_, bad_) = (&ks, &known, &bad);
    for k in 0..=ks.len() {
        let what = if k < ks.len() { ks[k].name } else { "everything" };
        now(format!("asking {what} in threads"));
        let clock = AtomicU64::new(0);
        let gate = Barrier::new(8);
        let log = Mutex::new(vec![]);
        let until = std::time::Instant::now() + std::time::Duration::from_millis(if k < ks.len() { spell } else { 20 * spell });
        std::thread::scope(|s| {
            for t in 0..8u64 {
                let (clock, gate, log) = (&clock, &gate, &log);
                s.spawn(move || {
                    let mut r = Sm::new(ctx.args.seed, 3900 + 8 * k as u64 + t);
                    let mut mine = vec![];
                    gate.wait();
                    while std::time::Instant::now() < until && !rep.failed() {
                        let kind = if k < ks_.len() { k } else { r.below(ks_.len()) };
                        let q = (kind, r.next() % ks_[kind].of);
                        let from = if mine.len() < 12 { clock.fetch_add(1, Ordering::SeqCst) } else { 0 };
                        let a = answer(ks_, q);
                        if mine.len() < 12 {
                            mine.push((from, clock.fetch_add(1, Ordering::SeqCst), t + 1, q, short(&a)));
                        }
                        rep.count("asked_in_threads", 1);
                        tick();
                        if a != known_[&q] {
                            bad_(q, "while other threads asked", &known_[&q], &a);
                        }
                    }
                    log.lock().unwrap().extend(mine);
                });
            }
        });
        if k % 4 == 0 || k == ks.len() {
            tell(&mut tr, &ks, &log.into_inner().unwrap(), &known, usize::MAX);
        }
        if rep.failed() {
            return;
        }
    }
    // as the first of a process
    let exe = std::env::current_exe().unwrap();
    let processes = if ctx.args.thorough { 60 } else { 10 };
    for p in 0..processes {
        now(format!("asking in a new process {p}"));
        let file = format!("{}/answers_{p}", ctx.args.scratch);
        let mut child = std::process::Command::new(&exe)
            .arg("answers-child")
            .args(["--dir", &ctx.args.dir, "--out", "/dev/null", "--scratch", &ctx.args.scratch])
            .args(["--seed", &ctx.args.seed.to_string(), "--order", &p.to_string(), "--answers", &file])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .expect("start a process");
        let begun = std::time::Instant::now();
        let ended = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break Some(s);
            }
            if begun.elapsed().as_secs() > 100 {
                let _ = child.kill();
                break None;
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
            tick();
        };
        let Ok(text) = std::fs::read_to_string(&file) else {
            rep.violation(
                format!("eight threads asking everything as the first of a process: {}", ended.map_or("no end in 100 s".into(), |s| format!("it ended with {s} before all was answered"))),
                json!({"process": p}),
            );
            return;
        };
        let _ = std::fs::remove_file(&file);
        let mut runs = vec![];
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| w[i].parse::<u64>().unwrap();
            let q = (n(3) as usize, n(4));
            rep.count("asked_first", 1);
            if short(&known[&q]) != w[5] {
                bad(q, "as one of the first in a process", &known[&q], &format!("(of hash {})", w[5]));
                if rep.too_many() {
                    return;
                }
            }
            if n(0) < 400 {
                runs.push((n(0), n(1), n(2) + 1, q, w[5].to_string()));
            }
        }
        if p < 4 {
            tell(&mut tr, &ks, &runs, &known, usize::MAX);
        }
        if rep.failed() {
            break;
        }
    }
    tr.finish(rep);
}
