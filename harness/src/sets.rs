//! C24: piece sets against PieceSet.tla.
use crate::cubes::*;
use crate::observe::*;
use crate::tables::*;
use crate::turns::rand_alg;
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::moves::rotation::{AxisRotation, Rotatable};
use barbarosa::cube_n::moves::wide::{DepthPiece, DepthPieceSet};
use barbarosa::cube_n::pieces::center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing};
use barbarosa::cube_n::{AxisMove, Corner, Edge, WideAxisMove, Wing};
use barbarosa::generic::piece::{Piece, PieceSetDescriptor};
use barbarosa::generic::{Movable, Move, PieceSet};
use rand::SeedableRng;
use serde_json::{json, Value};
use std::fmt;

// ------------------------------------------------------- made-up pieces
#[derive(PartialEq, Clone, Copy)]
pub struct Place(u8);
impl fmt::Debug for Place {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "at<{}>", self.0)
    }
}
/// A token somewhere, with a mark. BOTH: tokens are equal if they agree in place and mark; otherwise if in the mark.
#[derive(Clone)]
pub struct Token<const BOTH: bool> {
    place: u8,
    mark: u8,
}
impl<const BOTH: bool> PartialEq for Token<BOTH> {
    fn eq(&self, o: &Self) -> bool {
        self.mark == o.mark && (!BOTH || self.place == o.place)
    }
}
impl<const BOTH: bool> fmt::Debug for Token<BOTH> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "token<{}.{}>", self.place, self.mark)
    }
}
impl<const BOTH: bool> Piece for Token<BOTH> {
    type Position = Place;
    fn position(&self) -> Place {
        Place(self.place)
    }
    fn is_solved(&self, home: &Place) -> bool {
        self.place == home.0 && self.mark == home.0 % 4
    }
}
macro_rules! token_sets {
    ($($n:literal: $homes:expr, $solved:expr;)*) => { $(
        impl<const BOTH: bool> PieceSetDescriptor<$n> for Token<BOTH> {
            const SOLVED: [Self; $n] = $solved;
            const REFERENCE_POSITIONS: [Place; $n] = $homes;
        }
    )* };
}
token_sets! {
    1: [Place(3)], [Token { place: 3, mark: 3 }];
    2: [Place(3), Place(1)], [Token { place: 3, mark: 3 }, Token { place: 1, mark: 1 }];
    3: [Place(3), Place(1), Place(4)], [Token { place: 3, mark: 3 }, Token { place: 1, mark: 1 }, Token { place: 4, mark: 0 }];
    4: [Place(3), Place(1), Place(4), Place(2)],
       [Token { place: 3, mark: 3 }, Token { place: 1, mark: 1 }, Token { place: 4, mark: 0 }, Token { place: 2, mark: 2 }];
}
/// Takes places to places and adds to marks.
#[derive(Clone)]
struct Carry([u8; 4], u8);
impl Move for Carry {
    fn inverse(&self) -> Self {
        let mut to = [0; 4];
        for (i, p) in self.0.iter().enumerate() {
            to[*p as usize - 1] = i as u8 + 1;
        }
        Carry(to, (4 - self.1) % 4)
    }
}
impl<const BOTH: bool> Movable<Carry> for Token<BOTH> {
    fn apply(&mut self, m: &Carry) {
        self.place = m.0[self.place as usize - 1];
        self.mark = (self.mark + m.1) % 4;
    }
}

// ------------------------------------------------------------- kinds of sets
type SetMove<P, const N: usize> = Box<dyn Fn(&mut PieceSet<P, N>)>;
type PieceMove<P> = Box<dyn Fn(&mut P)>;
struct Kind<P: PieceSetDescriptor<N>, const N: usize> {
    name: &'static str,
    by: &'static str,
    /// is a piece only solved at its home?
    bound: bool,
    all: Vec<P>,
    place: Box<dyn Fn(&P::Position) -> Vec<i32>>,
    mark: fn(&P) -> i32,
    moves: fn(&mut Sm) -> (SetMove<P, N>, PieceMove<P>),
}
impl<P: PieceSetDescriptor<N>, const N: usize> Kind<P, N> {
    fn piece(&self, p: &P) -> Value {
        json!([(self.place)(&p.position()), (self.mark)(p)])
    }
    fn pieces<'a>(&self, s: impl IntoIterator<Item = &'a P>) -> Value
    where
        P: 'a,
    {
        s.into_iter().map(|p| self.piece(p)).collect::<Vec<_>>().into()
    }
    /// the places and pieces of the set that a refusal names
    fn named(&self, s: &[P; N], text: &str) -> (Value, Value) {
        let places: Vec<_> = s.iter().filter(|p| text.contains(&format!("{:?}", p.position()))).map(|p| (self.place)(&p.position())).collect();
        let alike: Vec<_> = s.iter().filter(|p| text.contains(&format!("{p:?}"))).map(|p| self.piece(p)).collect();
        (json!(places), json!(alike))
    }
    /// Everything that can be asked of a set.
    fn looks(&self, s: &PieceSet<P, N>, e: &mut Value) -> Result<(), String> {
        let list: Vec<&P> = s.iter().collect();
        let seen = self.pieces(list.iter().copied());
        for (what, other) in [
            ("pieces()", self.pieces(s.pieces())),
            ("into_iter()", self.pieces(&s.clone().into_iter().collect::<Vec<_>>())),
            ("at_index()", self.pieces((0..N).filter_map(|i| s.at_index(i)))),
            ("a clone", self.pieces(s.clone().iter())),
        ] {
            if other != seen {
                return Err(format!("{what} lists {other}, iter() {seen}"));
            }
        }
        let homes = || P::REFERENCE_POSITIONS.into_iter();
        for k in [0, 1, N / 2, N, N + 3] {
            let zip: Vec<(Vec<i32>, usize)> = PieceSet::<P, N>::zip_positions(10..10 + k).map(|(h, i)| ((self.place)(&h), i)).collect();
            if zip != homes().zip(10..10 + k).map(|(h, i)| ((self.place)(&h), i)).collect::<Vec<_>>() {
                return Err(format!("zipping {k} numbers with the homes gives {zip:?}"));
            }
        }
        e["list"] = seen;
        e["withhome"] = s.iter_with_pos().map(|(h, p)| json!([(self.place)(&h), self.piece(p)])).collect::<Vec<_>>().into();
        e["from"] = homes().map(|h| self.piece(s.piece_originally_at(&h))).collect::<Vec<_>>().into();
        e["whose"] = list
            .iter()
            .map(|p| json!([(self.place)(&p.position()), (self.place)(&s.original_position_of_piece_at(&p.position()))]))
            .collect::<Vec<_>>()
            .into();
        e["beyond"] = json!([N, N + 1, 2 * N + 7, usize::MAX].iter().filter(|i| s.at_index(**i).is_some()).count());
        let v = s.validate();
        e["proper"] = json!(v.is_none());
        let text = v.map(|v| format!("{v:?} {v}")).unwrap_or_default();
        let (places, alike) = self.named(s.pieces(), &text);
        e["places"] = places;
        e["alike"] = alike;
        e["fine"] = homes().zip(&list).map(|(h, p)| p.is_solved(&h)).collect::<Vec<_>>().into();
        e["solved"] = json!(s.is_solved());
        e["bound"] = json!(self.bound);
        Ok(())
    }
}

struct Recorder<'a> {
    ctx: &'a Ctx,
    tr: Tracer,
}
impl Recorder<'_> {
    fn event<P: PieceSetDescriptor<N>, const N: usize>(&mut self, k: &Kind<P, N>, s: &PieceSet<P, N>, e: Value) -> bool {
        let mut e = e;
        match guarded(|| k.looks(s, &mut e)) {
            Ok(Ok(())) => {
                self.tr.push(e);
                true
            }
            Ok(Err(w)) | Err(w) => {
                self.ctx.rep.violation(format!("a set of {} {}: {w}", N, k.name), json!({"kind": k.name, "set": k.pieces(s.iter()), "last": e}));
                false
            }
        }
    }
    fn begin<P: PieceSetDescriptor<N>, const N: usize>(&mut self, k: &Kind<P, N>) -> Option<PieceSet<P, N>> {
        let s = PieceSet::<P, N>::SOLVED;
        self.tr.segments += 1;
        let homes: Vec<_> = PieceSet::<P, N>::REFERENCE_POSITIONS.iter().map(&*k.place).collect();
        self.event(k, &s, json!({"e": "type", "name": k.name, "homes": homes, "by": k.by})).then_some(s)
    }
    /// Asks for a set of these pieces.
    fn new_set<P: PieceSetDescriptor<N>, const N: usize>(&mut self, k: &Kind<P, N>, a: [P; N]) -> Result<Option<PieceSet<P, N>>, ()> {
        let pieces = k.pieces(&a);
        self.ctx.rep.count("sets_asked_for", 1);
        match guarded(|| PieceSet::new(a.clone()).map_err(|e| format!("{e:?} {e}"))) {
            Err(w) => {
                self.ctx.rep.violation(format!("a set of {} {} of {pieces}: {w}", N, k.name), json!({"kind": k.name, "pieces": pieces}));
                Err(())
            }
            Ok(Err(text)) => {
                let (places, alike) = k.named(&a, &text);
                self.tr.push(json!({"e": "new", "pieces": pieces, "ok": false, "places": places, "alike": alike}));
                Ok(None)
            }
            Ok(Ok(s)) => {
                if self.event(k, &s, json!({"e": "new", "pieces": pieces, "ok": true})) {
                    Ok(Some(s))
                } else {
                    Err(())
                }
            }
        }
    }
    /// All arrays of pieces.
    fn every<P: PieceSetDescriptor<N>, const N: usize>(&mut self, k: &Kind<P, N>) {
        if self.begin(k).is_none() {
            return;
        }
        let m = k.all.len();
        for n in 0..m.pow(N as u32) {
            if self.new_set(k, std::array::from_fn(|i| k.all[n / m.pow(i as u32) % m].clone())).is_err() {
                return;
            }
        }
    }
    /// Sets asked for, proper and not, and things done to them.
    fn walk<P: PieceSetDescriptor<N>, const N: usize>(&mut self, k: &Kind<P, N>, r: &mut Sm, starts: usize, steps: usize) {
        let Some(mut s) = self.begin(k) else { return };
        let mut base = s.clone();
        for start in 0..starts {
            now(format!("sets of {}", k.name));
            // some arrangement, often with one or two pieces changed
            let mut a: Vec<P> = base.iter().cloned().collect();
            for _ in 0..if start % 2 == 0 { 0 } else { 1 + r.below(2) } {
                a[r.below(N)] = if r.chance(1, 2) { r.pick(&k.all).clone() } else { a[r.below(N)].clone() };
            }
            match self.new_set(k, a.try_into().ok().unwrap()) {
                Err(()) => return,
                Ok(None) => {}
                Ok(Some(x)) => s = x,
            }
            for _ in 0..steps {
                let (i, j) = (r.below(N), r.below(N));
                let home = |i: usize| P::REFERENCE_POSITIONS.into_iter().nth(i).unwrap();
                let e = match r.below(7) {
                    0 | 1 => {
                        if let Err(w) = guarded(|| s.swap(&home(i), &home(j))) {
                            self.ctx.rep.violation(format!("swapping in a set of {}: {w}", k.name), json!({"kind": k.name}));
                            return;
                        }
                        json!({"e": "swap", "a": (k.place)(&home(i)), "b": (k.place)(&home(j))})
                    }
                    2 => {
                        let mut rng = rand::rngs::StdRng::seed_from_u64(r.next());
                        s.shuffle(&mut rng);
                        json!({"e": "shuffle"})
                    }
                    3 if r.chance(1, 2) => {
                        let p = if r.chance(1, 2) { r.pick(&k.all).clone() } else { s.pieces()[j].clone() };
                        *s.iter_mut_unchecked().nth(i).unwrap() = p.clone();
                        json!({"e": "put", "k": i + 1, "piece": k.piece(&p)})
                    }
                    _ => {
                        let (all, one) = (k.moves)(r);
                        let each: Vec<P> = s.iter().cloned().map(|mut p| { one(&mut p); p }).collect();
                        if let Err(w) = guarded(|| all(&mut s)) {
                            self.ctx.rep.violation(format!("moving a set of {}: {w}", k.name), json!({"kind": k.name}));
                            return;
                        }
                        json!({"e": "move", "each": k.pieces(&each)})
                    }
                };
                self.ctx.rep.count("things_done_to_sets", 1);
                if !self.event(k, &s, e) {
                    return;
                }
            }
            if s.validate().is_none() {
                base = s.clone();
            }
        }
    }
}

fn tokens<const BOTH: bool, const N: usize>(marks: u8) -> Kind<Token<BOTH>, N>
where
    Token<BOTH>: PieceSetDescriptor<N, Position = Place>,
{
    Kind {
        name: "tokens",
        by: if BOTH { "both" } else { "mark" },
        bound: true,
        all: (1..=4).flat_map(|place| (0..marks).map(move |mark| Token { place, mark })).collect(),
        place: Box::new(|p| vec![p.0 as i32]),
        mark: |t| t.mark as i32,
        moves: |r| {
            let mut to = [1, 2, 3, 4];
            for i in (1..4).rev() {
                to.swap(i, r.below(i + 1));
            }
            let m = Carry(to, r.below(4) as u8);
            let m2 = m.clone();
            (Box::new(move |s| s.apply(&m)), Box::new(move |p| p.apply(&m2)))
        },
    }
}
fn face_turn(r: &mut Sm) -> AxisMove {
    axis_move(Turn { face: r.below(6), amount: 1 + r.below(3), depth: 0 })
}
fn deep<P, const N: usize, const ND: u32, const TD: u32>(name: &'static str) -> Kind<P, N>
where
    P: PieceSetDescriptor<N, Position = P> + DepthPiece + Rotatable + 'static,
{
    let all: Vec<P> = P::SOLVED.into_iter().collect();
    let places: Vec<P> = all.clone();
    Kind {
        name,
        by: "both",
        bound: false,
        all,
        // its own place: which of all the pieces it looks like
        place: Box::new(move |p| vec![1 + places.iter().position(|x| x == p).expect("one of the pieces") as i32]),
        mark: |_| 0,
        moves: |r| {
            let t = Turn { face: r.below(6), amount: 1 + r.below(3), depth: r.below(3) };
            let m: WideAxisMove<2> = wide(t);
            let m2 = m.clone();
            (
                Box::new(move |s| {
                    let mut d = DepthPieceSet::<P, N, ND, TD> { set: s.clone() };
                    d.apply(&m);
                    *s = d.set;
                }),
                Box::new(move |p| {
                    if p.is_in_wide_move(ND, TD, &m2) {
                        p.rotate(&AxisRotation::from(&m2.axis_move));
                    }
                }),
            )
        },
    }
}

pub fn c24(ctx: &'static Ctx) {
    let more = if ctx.args.thorough { 40 } else { 4 };
    let recorder = |name: &str| Recorder { ctx, tr: Tracer::new(&ctx.args, "TraceSet", name, json!({})) };
    // small sets: all of them
    let mut rec = recorder("small");
    rec.every(&tokens::<true, 1>(2));
    rec.every(&tokens::<false, 1>(2));
    rec.every(&tokens::<true, 2>(2));
    rec.every(&tokens::<false, 2>(2));
    rec.every(&tokens::<true, 3>(2));
    rec.every(&tokens::<false, 3>(3));
    rec.tr.finish(&ctx.rep);
    let seed = ctx.args.seed;
    macro_rules! walks {
        ($($no:literal $kind:expr, $starts:expr, $steps:expr;)*) => {
            let jobs: Vec<Box<dyn FnOnce() + Send>> = vec![$(Box::new(move || {
                let mut rec = Recorder { ctx, tr: Tracer::new(&ctx.args, "TraceSet", &format!("walk{}", $no), json!({})) };
                rec.walk(&$kind, &mut Sm::new(seed, 2400 + $no), $starts * more, $steps);
                rec.tr.finish(&ctx.rep);
            })),*];
            parallel(jobs);
        };
    }
    let corners = || {
        Kind::<Corner, 8> {
            name: "corners", by: "both", bound: true,
            all: Corner::SOLVED.into_iter().flat_map(|c| AXES.map(|a| Corner { orientation_axis: a, ..c.clone() })).collect(),
            place: Box::new(|p| p.iter().map(|d| sign(*d)).collect()),
            mark: |c| axis_no(c.orientation_axis) as i32 + 1,
            moves: |r| { let m = face_turn(r); let m2 = m.clone(); (Box::new(move |s| s.apply(&m)), Box::new(move |p| p.apply(&m2))) },
        }
    };
    let edges = || {
        Kind::<Edge, 12> {
            name: "edges", by: "both", bound: true,
            all: Edge::SOLVED.into_iter().flat_map(|c| [true, false].map(|o| Edge { oriented: o, ..c.clone() })).collect(),
            place: Box::new(|p| vec![axis_no(p.0) as i32 + 1, sign(p.1.x), sign(p.1.y)]),
            mark: |e| e.oriented as i32,
            moves: |r| { let m = face_turn(r); let m2 = m.clone(); (Box::new(move |s| s.apply(&m)), Box::new(move |p| p.apply(&m2))) },
        }
    };
    walks! {
        1 tokens::<true, 3>(4), 40, 12;
        2 tokens::<false, 4>(4), 40, 12;
        3 tokens::<true, 4>(4), 40, 12;
        4 tokens::<false, 2>(4), 20, 12;
        5 corners(), 40, 12;
        6 edges(), 40, 12;
        7 deep::<Wing, 24, 1, 0>("wings"), 20, 12;
        8 deep::<CenterCorner, 24, 2, 0>("centre corners"), 20, 12;
        9 deep::<CenterEdge, 24, 1, 0>("centre edges"), 20, 12;
        10 deep::<CenterWing, 48, 1, 2>("centre wings"), 12, 8;
    }
    if ctx.rep.failed() {
        return;
    }
    real_cubes(ctx);
}

/// Who is where on real cubes, both ways round.
fn real_cubes(ctx: &'static Ctx) {
    let Some(cs) = Cubes::new(ctx) else { return };
    let n = if ctx.args.thorough { 5_000_000 } else { 500_000 };
    let alg = |k: usize| {
        let mut r = Sm::new(ctx.args.seed, 24_000 + k as u64);
        let len = r.below(25);
        rand_alg(&mut r, 0, len)
    };
    let one = |k: usize| -> Option<String> {
        let mut m = Model::solved(cs.s);
        m.alg(&ctx.t, cs.s, &alg(k));
        let c = cs.build(&m);
        let obs = m.obs(cs.s);
        let place = |o: &[i32; 4]| [o[0], o[1], o[2]];
        // each in terms of the specification: the home, and what is seen of its piece
        let corner_home = |i: usize| Corner::REFERENCE_POSITIONS[i];
        for i in 0..8 {
            let o = obs[cs.home[12 + i]];
            let p = c.corners.piece_originally_at(&corner_home(i));
            let s = see_corner(3, p);
            if (s.place, s.mark) != (place(&o), o[3]) {
                return Some(format!("the corner from home {:?} is said to be at {:?}, it is at {:?}", cs.s.homes[cs.home[12 + i]], s.place, place(&o)));
            }
            if c.corners.original_position_of_piece_at(&p.position()) != corner_home(i) {
                return Some(format!("the corner at {:?} is said to be from another home than {:?}", s.place, cs.s.homes[cs.home[12 + i]]));
            }
        }
        let edge_home = |i: usize| Edge::REFERENCE_POSITIONS[i];
        for i in 0..12 {
            let o = obs[cs.home[i]];
            let p = c.edges.piece_originally_at(&edge_home(i));
            let s = see_edge(3, p);
            if (s.place, s.mark) != (place(&o), o[3]) {
                return Some(format!("the edge from home {:?} is said to be at {:?}, it is at {:?}", cs.s.homes[cs.home[i]], s.place, place(&o)));
            }
            if c.edges.original_position_of_piece_at(&p.position()) != edge_home(i) {
                return Some(format!("the edge at {:?} is said to be from another home than {:?}", s.place, cs.s.homes[cs.home[i]]));
            }
        }
        let solved = (m.g.iter().enumerate()).all(|(i, g)| cs.s.solved[i][*g as usize]);
        if (c.corners.is_solved() && c.edges.is_solved()) != solved {
            return Some("its sets are said to be solved, or not, wrongly".into());
        }
        None
    };
    match over(n, "lookups on real cubes", one) {
        None => ctx.rep.count("cubes_looked_up", n as u64),
        Some((k, e)) => {
            let a = show_alg(&alg(k));
            ctx.rep.violation(format!("the solved cube after {a}: {e}"), json!({"alg": a}));
        }
    }
}
