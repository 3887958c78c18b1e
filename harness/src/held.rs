//! C12, C13: orientations against Orientation.tla, held cubes against Held.tla.
use crate::observe::*;
use crate::tables::*;
use crate::turns::{conjugates, isolated, project, rand_alg, turned};
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::moves::rotation::{AxisRotation, Rotatable};
use barbarosa::cube_n::moves::ExtendedAxisMove;
use barbarosa::cube_n::space::{Axis, Face};
use barbarosa::cube_n::{AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, CubeN, Orientable, Orientation, WideAxisMove};
use barbarosa::generic::{Alg, Cube, Movable};
use serde_json::{json, Value};

fn img(r: &[i32; 3], s: i32) -> i32 {
    if s > 0 { r[s as usize - 1] } else { -r[-s as usize - 1] }
}
pub fn rot(axis: usize, amount: usize) -> AxisRotation {
    AxisRotation::new(AXES[axis], AMOUNTS[amount - 1])
}
/// The rotation the specification means by the faces at which R and U are.
fn rot_of_faces(t: &Tables, r: i32, u: i32) -> Option<usize> {
    t.rots.iter().position(|x| x[0] == r && x[1] == u)
}
fn faces_of(o: &Orientation) -> (i32, i32) {
    (face_signed(o.r_face()), face_signed(&o.u_face()))
}
fn rot_name(r: &AxisRotation) -> String {
    format!("{}{}", ["x", "y", "z"][axis_no(r.axis)], ["", "2", "'"][amount_no(r.amount) - 1])
}
fn names(rs: &[AxisRotation]) -> String {
    rs.iter().map(rot_name).collect::<Vec<_>>().join(" ")
}
fn rots_json(rs: &[AxisRotation]) -> Value {
    json!(rs.iter().map(|r| json!({"x": axis_no(r.axis) + 1, "a": amount_no(r.amount)})).collect::<Vec<_>>())
}

/// What the orientation reports, checked against the rotation it should be.
fn check_orientation(t: &Tables, o: &Orientation, want: usize) -> Result<Vec<AxisRotation>, String> {
    let (r, u) = guarded(|| faces_of(o))?;
    let w = &t.rots[want];
    if (r, u) != (w[0], w[1]) {
        return Err(format!("R and U are reported at faces {r} and {u}, they are at {} and {}", w[0], w[1]));
    }
    let rs = guarded(|| o.rotations().collect::<Vec<_>>())?;
    let mut g = 0;
    for x in &rs {
        g = t.mult[t.axisrot[axis_no(x.axis)][amount_no(x.amount) - 1]][g];
    }
    if g != want {
        return Err(format!("the rotations it lists ({}) lead R and U to {} and {}, not {r} and {u}", names(&rs), t.rots[g][0], t.rots[g][1]));
    }
    Ok(rs)
}

pub fn c12(ctx: &'static Ctx) {
    let t = &ctx.t;
    // every pair of faces
    let mut made: Vec<Option<Orientation>> = vec![None; 24];
    for a in FACES {
        for b in FACES {
            tick();
            let pair = [a.clone(), b.clone()];
            let got = guarded(|| Orientation::try_from(pair));
            let want = rot_of_faces(t, face_signed(&a), face_signed(&b));
            ctx.rep.count("face_pairs", 1);
            let what = match (got, want) {
                (Err(e), _) => Some(e),
                (Ok(Err(_)), None) => None,
                (Ok(Ok(_)), None) => Some("accepted, but the faces are parallel".into()),
                (Ok(Err(_)), Some(_)) => Some("refused, but the faces are perpendicular".into()),
                (Ok(Ok(o)), Some(g)) => {
                    let r = check_orientation(t, &o, g).err();
                    made[g] = Some(o);
                    r
                }
            };
            if let Some(w) = what {
                ctx.rep.violation(format!("orientation from faces {a}, {b}: {w}"), json!({"r": a.to_string(), "u": b.to_string()}));
            }
        }
    }
    // every orientation reached from the default, by every path of up to three rotations
    let mut paths: Vec<(Vec<AxisRotation>, usize, Orientation)> = vec![(vec![], 0, Orientation::default())];
    if let Err(e) = check_orientation(t, &Orientation::default(), 0) {
        ctx.rep.violation(format!("the default orientation: {e}"), json!({}));
    }
    let depth = if ctx.args.thorough { 4 } else { 3 };
    let mut reached = std::collections::HashSet::new();
    for _ in 0..depth {
        let mut next = vec![];
        for (path, g, o) in &paths {
            for axis in 0..3 {
                for amount in 1..=3 {
                    tick();
                    let r = rot(axis, amount);
                    let g2 = t.mult[t.axisrot[axis][amount - 1]][*g];
                    let mut p2 = path.clone();
                    p2.push(r.clone());
                    let o2 = match guarded(|| o.clone().rotated(&r)) {
                        Ok(x) => x,
                        Err(e) => {
                            ctx.rep.violation(format!("orientation after {}: {e}", names(&p2)), json!(names(&p2)));
                            return;
                        }
                    };
                    ctx.rep.count("orientation_transitions", 1);
                    reached.insert(g2);
                    if let Err(e) = check_orientation(t, &o2, g2) {
                        ctx.rep.violation(format!("orientation after {}: {e}", names(&p2)), json!(names(&p2)));
                        if ctx.rep.too_many() {
                            return;
                        }
                    }
                    next.push((p2, g2, o2));
                }
            }
        }
        paths = next;
    }
    ctx.rep.set("orientations_reached", reached.len() as u64);
    // every orientation made from faces, under every rotation
    for (g, o) in made.iter().enumerate() {
        let Some(o) = o else { continue };
        for axis in 0..3 {
            for amount in 1..=3 {
                let r = rot(axis, amount);
                let g2 = t.mult[t.axisrot[axis][amount - 1]][g];
                let res = guarded(|| o.clone().rotated(&r)).and_then(|o2| check_orientation(t, &o2, g2));
                ctx.rep.count("orientation_transitions", 1);
                if let Err(e) = res {
                    ctx.rep.violation(
                        format!("orientation with R, U at {}, {} rotated by {}: {e}", t.rots[g][0], t.rots[g][1], rot_name(&r)),
                        json!({"from": t.rots[g], "rotation": rot_name(&r)}),
                    );
                    if ctx.rep.too_many() {
                        return;
                    }
                }
            }
        }
    }
    // recorded for TLC: long random uses, through the orientation of a held cube too
    let mut r = Sm::new(ctx.args.seed, 12);
    let mut tr = Tracer::new(&ctx.args, "TraceOrient", "orient", json!({}));
    let n = if ctx.args.thorough { 20000 } else { 3000 };
    let mut o = Orientation::default();
    let mut cube = Orientable::<Cube2>::new(Cube2::SOLVED);
    let mut history: Vec<String> = vec![];
    for i in 0..n {
        tick();
        let mut ev = match r.below(20) {
            0 => {
                o = Orientation::default();
                tr.segments += 1;
                json!({"e": "default"})
            }
            1 => {
                let (a, b) = (r.below(6), r.below(6));
                let got = guarded(|| Orientation::try_from([FACES[a].clone(), FACES[b].clone()]));
                let ok = matches!(got, Ok(Ok(_)));
                if let Ok(Ok(x)) = got {
                    o = x;
                }
                json!({"e": "from", "r": FACE_SIGNED[a], "u": FACE_SIGNED[b], "ok": ok})
            }
            k => {
                let (x, a) = (r.below(3), 1 + r.below(3));
                let res = guarded(|| match k % 3 {
                    0 => o.rotate(&rot(x, a)),
                    1 => o = o.clone().rotated(&rot(x, a)),
                    _ => {
                        cube.orientation = o.clone();
                        cube.apply(&ExtendedAxisMove::Rotation(rot(x, a)));
                        o = cube.orientation.clone();
                    }
                });
                history.push(format!("{}{}", ["x", "y", "z"][x], ["", "2", "'"][a - 1]));
                if let Err(e) = res {
                    ctx.rep.violation(format!("rotating an orientation: {e}"), json!(history));
                    return;
                }
                json!({"e": "rotate", "x": x + 1, "a": a})
            }
        };
        let (f, rs) = match guarded(|| (faces_of(&o), o.rotations().collect::<Vec<_>>())) {
            Ok(x) => x,
            Err(e) => {
                ctx.rep.violation(format!("reading an orientation: {e}"), json!(history));
                return;
            }
        };
        ev["seen"] = json!([f.0, f.1]);
        ev["rs"] = rots_json(&rs);
        if i == 40 {
            ctx.rep.sample(json!({"rotations_so_far": history.join(" "), "event": ev}));
        }
        tr.push(ev);
    }
    tr.segments += 1;
    tr.finish(&ctx.rep);
}

/// A move of a held cube.
#[derive(Clone, Debug)]
enum Held {
    Wide { face: usize, amount: usize, depth: u32 },
    Slice { axis: usize, amount: usize, narrow: bool },
    Rotate { axis: usize, amount: usize },
}
impl Held {
    fn show(&self) -> String {
        let am = |a: usize| ["", "2", "'"][a - 1];
        match self {
            Held::Wide { face, amount, depth } => format!("{}{}@{}", FACE_NAMES[*face], am(*amount), depth),
            Held::Slice { axis, amount, narrow } => {
                format!("slice({}{},{})", ["x", "y", "z"][*axis], am(*amount), if *narrow { "middle layer" } else { "inner layers" })
            }
            Held::Rotate { axis, amount } => format!("{}{}", ["x", "y", "z"][*axis], am(*amount)),
        }
    }
    fn json(&self) -> Value {
        match self {
            Held::Wide { face, amount, depth } => {
                json!({"e": "wide", "f": FACE_SIGNED[*face], "a": amount, "d": (*depth).min(1000), "depth": depth.to_string()})
            }
            Held::Slice { axis, amount, narrow } => json!({"e": "slice", "x": axis + 1, "a": amount, "narrow": narrow}),
            Held::Rotate { axis, amount } => json!({"e": "rotate", "x": axis + 1, "a": amount}),
        }
    }
    fn extended(&self, way: usize) -> ExtendedAxisMove {
        match self {
            Held::Wide { face, amount, depth } => {
                let m = AxisMove::new(FACES[*face].clone(), AMOUNTS[*amount - 1]);
                match (way % 3, *depth) {
                    (0, 0) => ExtendedAxisMove::Regular(m),
                    (1, 0) => m.into(),
                    (1, d) if d <= 3 => m.widen::<3>(d).unwrap().into(),
                    (_, d) => ExtendedAxisMove::Wide(WideAxisMove::new(m.face, m.amount, d).unwrap()),
                }
            }
            Held::Slice { axis, amount, narrow } => {
                let r = rot(*axis, *amount);
                if way % 2 == 0 { ExtendedAxisMove::Slice { rot: r, wide: *narrow } } else { (r, *narrow).into() }
            }
            Held::Rotate { axis, amount } => {
                let r = rot(*axis, *amount);
                if way % 2 == 0 { ExtendedAxisMove::Rotation(r) } else { r.into() }
            }
        }
    }
    fn all(n: usize, r: &mut Sm) -> Vec<Held> {
        let mut depths: Vec<u32> = (0..n as u32 + 3).collect();
        depths.extend([u32::MAX, u32::MAX - 1, u32::MAX - 2, u32::MAX - n as u32, 1 << 31, (1 << 31) - 1, 255, 256, r.next() as u32]);
        let mut v = vec![];
        for amount in 1..=3 {
            for face in 0..6 {
                for d in &depths {
                    v.push(Held::Wide { face, amount, depth: *d });
                }
            }
            for axis in 0..3 {
                v.push(Held::Rotate { axis, amount });
                for narrow in [false, true] {
                    v.push(Held::Slice { axis, amount, narrow });
                }
            }
        }
        v
    }
}

/// The specification's held cube: pieces and core, as seen in the hand.
#[derive(Clone)]
struct Hand {
    m: Model,
    core: usize,
}
impl Hand {
    fn apply(&mut self, t: &Tables, s: &SizeT, h: &Held) {
        let (r, layer, core): (usize, Option<&Vec<bool>>, bool) = match h {
            Held::Wide { face, amount, depth } => {
                let d = (*depth as usize).min(s.inturn.len() - 1);
                (t.facerot[*face][amount - 1], Some(&s.inturn[d][*face]), s.coreturns[d][*face])
            }
            Held::Slice { axis, amount, narrow } => {
                (t.axisrot[*axis][amount - 1], Some(&s.slice[*narrow as usize][*axis]), s.n % 2 == 1)
            }
            Held::Rotate { axis, amount } => (t.axisrot[*axis][amount - 1], None, true),
        };
        for (i, g) in self.m.g.iter_mut().enumerate() {
            if layer.is_none_or(|l| l[s.wher[i][*g as usize]]) {
                *g = t.mult[r][*g as usize] as u8;
            }
        }
        if core {
            self.core = t.mult[r][self.core];
        }
    }
}

/// A held cube as made from outside: a base cube in some orientation.
fn check_hand<C>(t: &Tables, s: &SizeT, proj: &Projection, c: &Orientable<C>, want: &Hand) -> Result<(Vec<[i32; 4]>, (i32, i32)), String>
where
    C: Sut + CubeN,
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let obs = guarded(|| proj.observe(s, &c.base_cube))??;
    let f = guarded(|| faces_of(&c.orientation))?;
    let o = rot_of_faces(t, f.0, f.1).ok_or("R and U are reported at parallel faces")?;
    if s.n % 2 == 1 && o != want.core {
        let w = &t.rots[want.core];
        return Err(format!("the orientation has R and U at {} and {}, the face centres are at {} and {}", f.0, f.1, w[0], w[1]));
    }
    // the base cube that, held that way, looks like the one in the hand
    let g = want.m.g.iter().map(|g| t.mult[t.inv[o]][*g as usize] as u8).collect();
    match diff(s, &Model { g }.obs(s), &obs) {
        Some(d) => Err(format!("held with R, U at {}, {}: base cube: {d}", f.0, f.1)),
        None => Ok((obs, f)),
    }
}

fn orientation_of(t: &Tables, g: usize) -> Orientation {
    Orientation::try_from([face_of_signed(t.rots[g][0]), face_of_signed(img(&t.rots[g], 2))]).expect("perpendicular faces")
}

fn every_move<C>(ctx: &'static Ctx, proj: &Projection, bases: usize, stream: u64)
where
    C: Sut + CubeN,
    Orientable<C>: Movable<ExtendedAxisMove> + Movable<AxisMove>,
{
    let t = &ctx.t;
    let s = t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, stream);
    let all = Held::all(C::SIZE, &mut r);
    now(format!("held moves on size {}", C::SIZE));
    for o in 0..24 {
        for b in 0..bases {
            let (word, base) = if b == 0 && o % 4 == 0 {
                (vec![], C::SOLVED)
            } else {
                let w = rand_alg(&mut r, s.maxdepth, 15);
                let mut c = C::SOLVED;
                for x in &w {
                    c.turn(*x, 0);
                }
                (w, c)
            };
            let mut m = Model::solved(s);
            m.alg(t, s, &w_ref(&word));
            let hand = Hand { m: Model { g: m.g.iter().map(|g| t.mult[o][*g as usize] as u8).collect() }, core: o };
            for mv in &all {
                tick();
                let mut want = hand.clone();
                want.apply(t, s, mv);
                let way = r.below(6);
                let got = guarded(|| {
                    let mut c = Orientable::<C>::new(base.clone());
                    c.orientation = orientation_of(t, o);
                    match (mv, way) {
                        (Held::Wide { face, amount, depth: 0 }, 3) => {
                            <Orientable<C> as Movable<AxisMove>>::apply(&mut c, &AxisMove::new(FACES[*face].clone(), AMOUNTS[*amount - 1]))
                        }
                        (Held::Rotate { axis, amount }, 3) => c.orientation.rotate(&rot(*axis, *amount)),
                        (_, 4) => {
                            let alg: Alg<ExtendedAxisMove> = Alg::new(vec![mv.extended(0)]);
                            <Orientable<C> as Movable<Alg<ExtendedAxisMove>>>::apply(&mut c, &alg)
                        }
                        (_, k) => <Orientable<C> as Movable<ExtendedAxisMove>>::apply(&mut c, &mv.extended(k)),
                    }
                    c
                });
                ctx.rep.count("held_moves_replayed", 1);
                let res = got.and_then(|c| check_hand(t, s, proj, &c, &want));
                if let Err(e) = res {
                    ctx.rep.violation(
                        format!("{0}x{0}x{0} held with R, U at {1}, {2}: {3}: {e}", C::SIZE, t.rots[o][0], t.rots[o][1], mv.show()),
                        json!({"size": C::SIZE, "base": show_alg(&word), "held_R_U": [t.rots[o][0], t.rots[o][1]], "move": mv.show(), "way": way}),
                    );
                    if ctx.rep.too_many() {
                        return;
                    }
                }
            }
        }
    }
}
fn w_ref(w: &[Turn]) -> Vec<Turn> {
    w.to_vec()
}

fn sessions<C>(ctx: &'static Ctx, proj: &Projection, segments: usize, len: usize)
where
    C: Sut + CubeN,
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let t = &ctx.t;
    let s = t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, 1300 + C::SIZE as u64);
    let all = Held::all(C::SIZE, &mut r);
    let mut tr = Tracer::new(&ctx.args, "TraceHeld", &format!("held_{}", C::SIZE), json!({"N": C::SIZE, "MaxLayers": C::SIZE + 2}));
    for seg in 0..segments {
        let mut c = Orientable::<C>::new(C::SOLVED);
        let mut want = Hand { m: Model::solved(s), core: 0 };
        let mut path: Vec<Held> = vec![];
        let first = check_hand(t, s, proj, &c, &want);
        let Ok((obs, f)) = first else {
            ctx.rep.violation(format!("{0}x{0}x{0}: a new held cube is not solved in the default orientation", C::SIZE), json!({}));
            return;
        };
        tr.push(json!({"e": "reset", "obs": obs, "r": f.0, "u": f.1}));
        tr.segments += 1;
        for _ in 0..len {
            let mv = if r.chance(1, 4) {
                Held::Rotate { axis: r.below(3), amount: 1 + r.below(3) }
            } else if r.chance(1, 3) {
                Held::Slice { axis: r.below(3), amount: 1 + r.below(3), narrow: r.chance(1, 2) }
            } else {
                r.pick(&all).clone()
            };
            path.push(mv.clone());
            want.apply(t, s, &mv);
            let e = mv.extended(r.below(3));
            let res = guarded(|| <Orientable<C> as Movable<ExtendedAxisMove>>::apply(&mut c, &e));
            tick();
            let show = || path.iter().map(|m| m.show()).collect::<Vec<_>>().join(" ");
            match res.and_then(|_| check_hand(t, s, proj, &c, &want)) {
                Err(e) => {
                    ctx.rep.violation(format!("held {0}x{0}x{0} after {1} moves, the last {2}: {e}", C::SIZE, path.len(), mv.show()), json!({"size": C::SIZE, "moves": show()}));
                    break;
                }
                Ok((obs, f)) => {
                    let mut ev = mv.json();
                    ev["obs"] = json!(obs);
                    ev["r"] = json!(f.0);
                    ev["u"] = json!(f.1);
                    tr.push(ev);
                }
            }
        }
        if seg == 0 {
            ctx.rep.sample(json!({"size": C::SIZE, "held_session": path.iter().take(12).map(|m| m.show()).collect::<Vec<_>>().join(" ")}));
        }
    }
    tr.finish(&ctx.rep);
}

pub fn c13(ctx: &'static Ctx) {
    let mut v: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let big = ctx.args.thorough;
    macro_rules! held {
        ($($c:ty),*) => { $( {
            let Some(p) = project::<$c>(ctx) else { return };
            let p: &'static Projection = Box::leak(Box::new(p));
            for k in 0..if big { 6 } else { 2 } {
                v.push(Box::new(move || every_move::<$c>(ctx, p, if big { 12 } else { 1 }, 1313 + k)));
            }
            v.push(Box::new(move || sessions::<$c>(ctx, p, if big { 12 } else { 3 }, if big { 120 } else { 50 })));
        } )* };
    }
    held!(Cube2, Cube3, Cube4, Cube5, Cube6, Cube7);
    parallel(v);
    let _ = (turned::<Cube2>, Axis::X, Face::R);
}

// ------------------------------------------------------------------ C27

type State = (Vec<Turn>, Model);
/// States that are, look or nearly are solved, and others.
fn telling_states(ctx: &'static Ctx, s: &SizeT, per_orbit: usize, stream: u64) -> Vec<State> {
    let t = &ctx.t;
    let mut r = Sm::new(ctx.args.seed, stream);
    let mut v: Vec<Vec<Turn>> = vec![vec![]];
    for f in 0..3 {
        for k in 1..=3 {
            for d in 0..=s.maxdepth {
                v.push(vec![Turn { face: f, amount: k, depth: d }]);
                // for even sizes and the greatest depth: a rotated cube
                v.push(vec![Turn { face: f, amount: k, depth: d }, Turn { face: f + 3, amount: 4 - k, depth: d }]);
                v.push(vec![Turn { face: f, amount: k, depth: d }, Turn { face: f + 3, amount: k, depth: d }]);
            }
        }
    }
    for n in [2, 5, 20, 20] {
        v.push(rand_alg(&mut r, s.maxdepth, n));
    }
    let mut out: Vec<State> = v
        .into_iter()
        .map(|w| {
            let mut m = Model::solved(s);
            m.alg(t, s, &w);
            (w, m)
        })
        .collect();
    for (_, word, e) in isolated(ctx, s, &mut r, per_orbit, 4000 * per_orbit) {
        out.extend(conjugates(ctx, s, &mut r, &word, &e, 60));
        out.push((word, e));
    }
    out
}
fn made<C: Sut>(w: &[Turn]) -> C {
    let mut c = C::SOLVED;
    for x in w {
        c.turn(*x, 0);
    }
    c
}
/// A cube held in orientation `o`, whichever way it gets there.
fn held_in<C>(t: &Tables, base: &C, o: usize, way: usize, r: &mut Sm) -> Orientable<C>
where
    C: Sut + CubeN,
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let mut c: Orientable<C> = if way % 2 == 0 { Orientable::new(base.clone()) } else { base.clone().into() };
    match way % 4 {
        0 => c.orientation = orientation_of(t, o),
        3 if o == 0 => {}
        _ => {
            // rotations at random until it is there
            let mut at = 0;
            loop {
                if at == o && r.chance(1, 2) {
                    break;
                }
                let (x, a) = (r.below(3), 1 + r.below(3));
                at = t.mult[t.axisrot[x][a - 1]][at];
                <Orientable<C> as Movable<ExtendedAxisMove>>::apply(&mut c, &ExtendedAxisMove::Rotation(rot(x, a)));
            }
        }
    }
    c
}

fn whole_states<C>(ctx: &'static Ctx, per_orbit: usize)
where
    C: Sut + CubeN,
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let t = &ctx.t;
    let s = t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, 2700 + C::SIZE as u64);
    now(format!("held cubes of size {} as a whole", C::SIZE));
    let states = telling_states(ctx, s, per_orbit, 2710 + C::SIZE as u64);
    let bases: Vec<C> = match guarded(|| states.iter().map(|x| made::<C>(&x.0)).collect()) {
        Ok(b) => b,
        Err(e) => return ctx.rep.violation(format!("turning size {}: {e}", C::SIZE), json!({})),
    };
    for (i, ((w, m), base)) in states.iter().zip(&bases).enumerate() {
        if ctx.rep.too_many() {
            return;
        }
        let looks = m.looks_solved(s);
        for o in 0..24 {
            tick();
            let want = looks && o == 0;
            let got = guarded(|| {
                let c = held_in(t, base, o, r.below(4), &mut r);
                let solved = c.is_solved();
                // the same and another cube, in the same and in another orientation
                let c2 = held_in(t, base, o, r.below(4), &mut r);
                let p = (o + 1 + r.below(23)) % 24;
                let c3 = held_in(t, base, p, r.below(4), &mut r);
                let j = r.below(states.len());
                let c4 = held_in(t, &bases[j], o, r.below(4), &mut r);
                let c5 = held_in(t, &bases[j], p, r.below(4), &mut r);
                let eqs = [c == c2, c == c3, c3 == c, c == c4, c4 == c, c == c5, c.clone() == c, c == Orientable::<C>::SOLVED];
                (solved, eqs, p, j)
            });
            ctx.rep.count("solved_checks", 1);
            ctx.rep.count("equalities", 8);
            if looks {
                ctx.rep.count(if o == 0 { "states_that_look_solved" } else { "states_that_look_solved_held_otherwise" }, 1);
            }
            let fault = match got {
                Err(e) => Some(e),
                Ok((solved, eqs, p, j)) => {
                    let same = states[j].1 == *m;
                    let wants = [true, false, false, same, same, false, true, o == 0 && m.is_identity()];
                    if solved != want {
                        Some(format!("the solved check says {solved}, it is {want}"))
                    } else if eqs != wants {
                        Some(format!(
                            "comparing says {eqs:?}, should be {wants:?} (with itself again; held with R, U at {:?}, and the other way; after {}, and the other way; after that held otherwise; a copy; the solved cube)",
                            &t.rots[p][..2], show_alg(&states[j].0)
                        ))
                    } else {
                        None
                    }
                }
            };
            if let Some(e) = fault {
                ctx.rep.violation(
                    format!("{0}x{0}x{0} after {1}{2} (looks solved: {looks}), held with R, U at {3:?}: {e}", C::SIZE, show_alg(&w[..w.len().min(30)]), if w.len() > 30 { " ..." } else { "" }, &t.rots[o][..2]),
                    json!({"size": C::SIZE, "turns": show_alg(w), "held_R_U": &t.rots[o][..2]}),
                );
                break;
            }
        }
        if i == 5 {
            ctx.rep.sample(json!({"size": C::SIZE, "state": show_alg(w), "held": "all 24 ways", "looks_solved": looks}));
        }
    }
}

fn whole_sessions<C>(ctx: &'static Ctx, proj: &Projection, segments: usize, len: usize)
where
    C: Sut + CubeN,
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let t = &ctx.t;
    let s = t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, 2720 + C::SIZE as u64);
    let all = Held::all(C::SIZE, &mut r);
    let states = telling_states(ctx, s, 1, 2710 + C::SIZE as u64);
    let mut tr = Tracer::new(&ctx.args, "TraceWhole", &format!("whole_{}", C::SIZE), json!({"N": C::SIZE, "MaxLayers": C::SIZE + 2}));
    let seen = |tr: &mut Tracer, mut ev: Value, c: &Orientable<C>| -> Result<bool, String> {
        let (obs, f, solved) = guarded(|| proj.observe(s, &c.base_cube).map(|o| (o, faces_of(&c.orientation), c.is_solved())))??;
        ev["obs"] = json!(obs);
        ev["r"] = json!(f.0);
        ev["u"] = json!(f.1);
        ev["solved"] = json!(solved);
        tr.push(ev);
        Ok(solved)
    };
    for seg in 0..segments {
        let r2 = (|| -> Result<(), String> {
            let mut c = Orientable::<C>::SOLVED;
            seen(&mut tr, json!({"e": "reset"}), &c)?;
            tr.segments += 1;
            let mut kept: Vec<Orientable<C>> = vec![];
            let mut path: Vec<Held> = vec![];
            while path.len() < len {
                tick();
                match r.below(12) {
                    0 => {
                        c = held_in(t, &made::<C>(&r.pick(&states).0), if r.chance(1, 2) { 0 } else { r.below(24) }, 0, &mut r);
                        seen(&mut tr, json!({"e": "given"}), &c)?;
                        path.push(Held::Rotate { axis: 0, amount: 1 });
                    }
                    1 => {
                        c = if r.chance(1, 2) { Orientable::new(c.base_cube) } else { c.base_cube.into() };
                        seen(&mut tr, json!({"e": "wrap"}), &c)?;
                        path.push(Held::Rotate { axis: 0, amount: 1 });
                    }
                    2 | 3 => {
                        kept.push(c.clone());
                        seen(&mut tr, json!({"e": "save"}), &c)?;
                    }
                    4 | 5 if !kept.is_empty() => {
                        let k = r.below(kept.len());
                        let eq = guarded(|| kept[k] == c)?;
                        ctx.rep.count(if eq { "recorded_equal" } else { "recorded_unequal" }, 1);
                        seen(&mut tr, json!({"e": "cmp", "k": k + 1, "eq": eq}), &c)?;
                    }
                    k => {
                        // some moves, and often back again
                        let n = 1 + r.below(3);
                        let mut ms: Vec<Held> = (0..n)
                            .map(|_| match r.below(3) {
                                0 => Held::Rotate { axis: r.below(3), amount: 1 + r.below(3) },
                                1 => Held::Slice { axis: r.below(3), amount: 1 + r.below(3), narrow: r.chance(1, 2) },
                                _ => r.pick(&all).clone(),
                            })
                            .collect();
                        if k < 10 {
                            let back: Vec<Held> = ms
                                .iter()
                                .rev()
                                .map(|m| match m.clone() {
                                    Held::Wide { face, amount, depth } => Held::Wide { face, amount: 4 - amount, depth },
                                    Held::Slice { axis, amount, narrow } => Held::Slice { axis, amount: 4 - amount, narrow },
                                    Held::Rotate { axis, amount } => Held::Rotate { axis, amount: 4 - amount },
                                })
                                .collect();
                            ms.extend(back);
                        }
                        for m in ms {
                            guarded(|| <Orientable<C> as Movable<ExtendedAxisMove>>::apply(&mut c, &m.extended(r.below(3))))?;
                            if seen(&mut tr, m.json(), &c)? {
                                ctx.rep.count("recorded_solved", 1);
                            }
                            path.push(m);
                        }
                    }
                }
            }
            Ok(())
        })();
        if let Err(e) = r2 {
            ctx.rep.violation(format!("held {0}x{0}x{0}, session {seg}: {e}", C::SIZE), json!({"size": C::SIZE, "seed": ctx.args.seed}));
            break;
        }
    }
    tr.finish(&ctx.rep);
}

pub fn c27(ctx: &'static Ctx) {
    let mut v: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let big = ctx.args.thorough;
    macro_rules! held {
        ($($c:ty),*) => { $( {
            let Some(p) = project::<$c>(ctx) else { return };
            let p: &'static Projection = Box::leak(Box::new(p));
            v.push(Box::new(move || whole_states::<$c>(ctx, if big { 12 } else { 3 })));
            v.push(Box::new(move || whole_sessions::<$c>(ctx, p, if big { 12 } else { 3 }, if big { 120 } else { 60 })));
        } )* };
    }
    held!(Cube2, Cube3, Cube4, Cube5, Cube6, Cube7);
    parallel(v);
}
