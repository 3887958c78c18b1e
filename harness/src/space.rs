//! C23: faces, axes, directions, rotations and places against Space.tla.
use crate::observe::*;
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::center::corner::CenterCorner;
use barbarosa::cube_n::center::edge::CenterEdge;
use barbarosa::cube_n::center::wing::CenterWing;
use barbarosa::cube_n::moves::rotation::{rotate_vec2, AxisRotation, Rotatable};
use barbarosa::cube_n::moves::Amount;
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::{AxisMove, Corner, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, CubeN, Edge, Wing};
use barbarosa::generic::piece::{Coordinates, PieceSetDescriptor};
use barbarosa::generic::{Alg, Move, Piece};
use nalgebra::{vector, Vector2, Vector3};
use serde_json::{json, Value};

const DIRS: [Direction; 2] = [Direction::Positive, Direction::Negative];
type V3 = Vector3<Direction>;

fn ax(a: Axis) -> i32 {
    axis_no(a) as i32 + 1
}
fn am(a: Amount) -> i32 {
    amount_no(a) as i32
}
fn fc(f: &Face) -> i32 {
    face_signed(f)
}
fn v3(v: &V3) -> [i32; 3] {
    [sign(v.x), sign(v.y), sign(v.z)]
}
fn vi(v: Vector3<i8>) -> [i32; 3] {
    [v.x as i32, v.y as i32, v.z as i32]
}
fn vf(v: Vector3<f32>) -> Result<[i32; 3], String> {
    let r = [v.x.round() as i32, v.y.round() as i32, v.z.round() as i32];
    match (0..3).all(|i| (r[i] as f32 - v[i]).abs() < 1e-4) {
        true => Ok(r),
        false => Err(format!("coordinates {v:?}")),
    }
}
fn corner(c: &Corner) -> [i32; 4] {
    let s = see_corner(2, c);
    [s.place[0], s.place[1], s.place[2], s.mark]
}
fn edge(e: &Edge) -> [i32; 4] {
    let s = see_edge(3, e);
    [s.place[0], s.place[1], s.place[2], s.mark]
}
fn between(normal: Axis, sp: Vector2<Direction>) -> [i32; 3] {
    let mut p = [0; 3];
    p[(axis_no(normal) + 1) % 3] = sign(sp.x);
    p[(axis_no(normal) + 2) % 3] = sign(sp.y);
    p
}
/// On the two faces, 3 from the middle, and 1 to the side.
fn wing(w: &Wing) -> [i32; 3] {
    let mut p = between(w.normal_axis(), w.slice_position()).map(|x| 3 * x);
    p[axis_no(w.normal_axis())] = sign(w.normal_direction());
    p
}
/// 4 and 2 from the middle (as on a 5x5x5).
fn cedge(c: &CenterEdge) -> [i32; 3] {
    let mut p = [0; 3];
    let s = c.side_face();
    p[axis_no(c.main_face.axis)] = 4 * sign(c.main_face.direction);
    p[axis_no(s.axis)] = 2 * sign(s.direction);
    p
}
/// 5, 3 and 1 from the middle (as on a 6x6x6).
fn cwing(c: &CenterWing) -> [i32; 3] {
    let mut p = [0; 3];
    let (m, s) = (c.main_face(), c.side_face());
    p[axis_no(m.axis)] = 5 * sign(m.direction);
    p[axis_no(s.axis)] = 3 * sign(s.direction);
    p[axis_no(c.normal_axis())] = sign(c.normal_direction());
    p
}
fn ccorner(c: &CenterCorner) -> Result<[i32; 3], String> {
    let seen = see_debug(4, &format!("{c:?}"))?;
    seen.first().map(|s| s.place).ok_or("no centre corner to be read".into())
}
fn sorted<const K: usize>(f: [Face; K]) -> Vec<i32> {
    let mut v: Vec<i32> = f.iter().map(fc).collect();
    v.sort();
    v
}

trait Say {
    fn say(self) -> Value;
}
macro_rules! say {
    ($($t:ty),*) => { $(impl Say for $t { fn say(self) -> Value { json!(self) } })* };
}
say!(i8, i32, usize, Vec<i32>);
impl<const K: usize> Say for [i32; K] {
    fn say(self) -> Value {
        json!(self.to_vec())
    }
}

struct Rec<'a> {
    ctx: &'a Ctx,
    tr: Tracer,
}
impl Rec<'_> {
    fn ask<T: Say>(&mut self, op: &str, args: Value, f: impl FnOnce() -> T) {
        match guarded(f) {
            Ok(out) => {
                let out = out.say();
                self.tr.push(json!({"e": "call", "op": op, "args": args, "out": out}))
            },
            Err(e) => self.ctx.rep.violation(format!("{op} of {args}: {e}"), json!({"op": op, "args": args})),
        }
    }
    fn try_ask<T: Say>(&mut self, op: &str, args: Value, f: impl FnOnce() -> Result<T, String>) {
        match guarded(f) {
            Ok(Ok(out)) => {
                let out = out.say();
                self.tr.push(json!({"e": "call", "op": op, "args": args, "out": out}))
            },
            Ok(Err(e)) | Err(e) => self.ctx.rep.violation(format!("{op} of {args}: {e}"), json!({"op": op, "args": args})),
        }
    }
}

fn rotations() -> Vec<AxisRotation> {
    AXES.iter().flat_map(|x| AMOUNTS.iter().map(move |a| AxisRotation::new(*x, *a))).collect()
}
fn places() -> Vec<V3> {
    DIRS.iter().flat_map(|x| DIRS.iter().flat_map(move |y| DIRS.iter().map(move |z| Vector3::new(*x, *y, *z)))).collect()
}
fn slices() -> Vec<Vector2<Direction>> {
    DIRS.iter().flat_map(|x| DIRS.iter().map(move |y| vector![*x, *y])).collect()
}
fn corners() -> Vec<Corner> {
    places().iter().flat_map(|p| AXES.iter().map(move |a| Corner::new(*p, *a))).collect()
}
fn edges() -> Vec<Edge> {
    AXES.iter().flat_map(|x| slices().into_iter().flat_map(move |s| [true, false].map(|o| Edge::new(*x, s, o)))).collect()
}

fn axes(r: &mut Rec) {
    for a in AXES {
        let i = ax(a);
        r.ask("axis.vector", json!([i]), || vi(Vector3::from(&a)));
        r.ask("axis.basis", json!([i]), || Axis::basis(&a).map(ax));
        r.ask("axis.next", json!([i]), || ax(a.next()));
        r.ask("axis.prev", json!([i]), || ax(a.prev()));
        for d in DIRS {
            r.ask("axis.along", json!([i, sign(d)]), || ax(a.next_with_handedness(d)));
            r.ask("face.new", json!([i, sign(d)]), || fc(&Face::new(a, d)));
        }
        for b in AXES {
            let j = ax(b);
            r.ask("axis.offset", json!([i, j]), || a.offset(&b));
            r.ask("axis.handed", json!([i, j]), || a.get_handedness(&b).map_or(0, sign));
            r.ask("axis.other", json!([i, j]), || Axis::other(&a, &b).map_or(0, ax));
        }
        for q in rotations() {
            r.ask("axis.rotated", json!([i, ax(q.axis), am(q.amount)]), || ax(a.rotated(&q)));
        }
        let v = [10, 20, 30];
        let n: Vector3<i32> = Vector3::from(v);
        r.ask("axis.slice", json!([i, v]), || {
            let out: [i32; 3] = a.map_on_slice(n, |[x, y]| vector![100 + y, 200 + x]).into();
            out
        });
        r.ask("axis.at", json!([i, v]), || n[a]);
        r.ask("axis.plane", json!([i, v]), || {
            let s = barbarosa::generic::utils::slice_coords(n, a);
            [s.x, s.y]
        });
        r.ask("axis.put", json!([i, v]), || {
            let mut n = n;
            n[a] = 77;
            let out: [i32; 3] = n.into();
            out
        });
    }
    for d in DIRS {
        r.ask("dir.neg", json!([sign(d)]), || sign(-d));
        r.ask("dir.scalar", json!([sign(d)]), || d.scalar());
        r.ask("dir.scalar", json!([sign(d)]), || i8::from(&d));
        r.ask("dir.scalar", json!([sign(d)]), || d as i32);
        r.ask("amount.from", json!([sign(d)]), || am(Amount::from(d)));
    }
    for a in AMOUNTS {
        for d in DIRS {
            r.ask("amount.times", json!([am(a), sign(d)]), || am(a * d));
        }
        for b in AMOUNTS {
            r.ask("amount.plus", json!([am(a), am(b)]), || (a + b).map_or(0, am));
        }
        for v in slices() {
            r.ask("vec2.rotated", json!([[sign(v.x), sign(v.y)], am(a)]), || {
                let w = rotate_vec2(&a, &v);
                [sign(w.x), sign(w.y)]
            });
        }
    }
}

fn faces(r: &mut Rec) {
    r.ask("face.all", json!([]), || Face::iter().map(|f| fc(&f)).collect::<Vec<_>>());
    r.ask("face.all", json!([]), || {
        use barbarosa::cube_n::space::faces::*;
        [R, U, F, L, D, B].map(|f| fc(&f))
    });
    for f in FACES {
        let i = fc(&f);
        r.ask("face.opposite", json!([i]), || fc(&f.opposite()));
        r.ask("face.vector", json!([i]), || vi(f.coords()));
        r.ask("face.vector", json!([i]), || vi(Vector3::from(&f)));
        r.ask("face.index", json!([i]), || f.index());
        r.ask("face.name", json!([i]), || ["R", "U", "F", "L", "D", "B"].iter().position(|n| *n == f.to_string()).map_or(0, |x| x + 1));
        for a in AXES {
            r.ask("face.next", json!([i, ax(a)]), || fc(&f.clone().next_around(&a)));
            r.ask("face.prev", json!([i, ax(a)]), || fc(&f.clone().prev_around(&a)));
        }
        for g in FACES {
            let j = fc(&g);
            r.ask("face.cross", json!([i, j]), || f.cross(&g).map_or(0, |x| fc(&x)));
            r.ask("edge.between", json!([i, j]), || {
                Edge::position_from_faces([f.clone(), g.clone()]).map_or([0; 3], |(n, s)| between(n, s))
            });
            r.ask("edge.made", json!([i, j]), || Edge::try_from([f.clone(), g.clone()]).map_or([0; 4], |e| edge(&e)));
            for d in DIRS {
                r.ask("wing.made", json!([i, j, sign(d)]), || {
                    Wing::try_from_faces([f.clone(), g.clone()], d).map_or([0; 3], |w| wing(&w))
                });
            }
            r.ask("cedge.made", json!([i, j]), || {
                CenterEdge::try_from_faces(f.clone(), g.clone()).map_or([0; 3], |c| cedge(&c))
            });
        }
        for p in places() {
            r.ask("face.hascorner", json!([i, v3(&p)]), || f.contains_vector(&p) as i32);
        }
        for e in edges() {
            r.ask("face.hasedge", json!([i, edge(&e)]), || f.contains_edge(&e) as i32);
        }
        for q in rotations() {
            let args = json!([i, ax(q.axis), am(q.amount)]);
            r.ask("face.rotated", args.clone(), || fc(&f.clone().rotated(&q)));
            r.ask("face.rotated", args, || {
                let mut f = f.clone();
                f.rotate(&q);
                fc(&f)
            });
        }
        for a in AMOUNTS {
            let m = AxisMove::new(f.clone(), a);
            r.ask("rot.from", json!([i, am(a)]), || {
                let q = AxisRotation::from(&m);
                [ax(q.axis), am(q.amount)]
            });
            r.ask("move.inverse", json!([i, am(a)]), || {
                let m = m.inverse();
                [fc(&m.face), am(m.amount)]
            });
            for q in rotations() {
                r.ask("move.rotated", json!([i, am(a), ax(q.axis), am(q.amount)]), || {
                    let m = m.clone().rotated(&q);
                    [fc(&m.face), am(m.amount)]
                });
            }
        }
    }
    for q in rotations() {
        let args = [ax(q.axis), am(q.amount)];
        r.ask("rot.inverse", json!(args), || {
            let q = q.inverse();
            [ax(q.axis), am(q.amount)]
        });
        for n in AXES {
            r.ask("rot.flips", json!([args[0], args[1], ax(n)]), || q.flips_edge_orientation(n) as i32);
        }
    }
}

fn pieces(r: &mut Rec) {
    for p in places() {
        for q in rotations() {
            r.ask("vec.rotated", json!([v3(&p), ax(q.axis), am(q.amount)]), || v3(&p.rotated(&q)));
        }
    }
    for c in corners() {
        let o = corner(&c);
        r.ask("corner.faces", json!([o]), || sorted(c.faces()));
        r.ask("corner.next", json!([o]), || ax(Corner::next_axis(&c.position, &c.orientation_axis)));
        r.ask("corner.twist", json!([o]), || {
            let mut c = c.clone();
            c.twist();
            corner(&c)
        });
        r.ask("corner.twists", json!([o]), || c.orientation_index());
        r.ask("corner.oriented", json!([o]), || c.is_oriented() as i32);
        r.try_ask("corner.coords", json!([o]), || vf(c.coordinates()));
        for q in rotations() {
            r.ask("corner.rotated", json!([o, ax(q.axis), am(q.amount)]), || corner(&c.clone().rotated(&q)));
        }
    }
    for e in edges() {
        let o = edge(&e);
        r.ask("edge.faces", json!([o]), || sorted(e.faces()));
        r.ask("edge.markface", json!([o]), || fc(&Edge::orientation_face(e.position())));
        r.ask("edge.otherface", json!([o]), || fc(&Edge::non_orientation_face(e.position())));
        for a in AXES {
            r.ask("edge.towards", json!([o, ax(a)]), || Edge::direction_on_axis(&e.position(), a).map_or(0, sign));
        }
        r.ask("edge.flipped", json!([o]), || edge(&e.clone().flipped()));
        r.ask("edge.flipped", json!([o]), || {
            let mut e = e.clone();
            e.flip();
            edge(&e)
        });
        r.try_ask("edge.coords", json!([o]), || vf(e.coordinates()));
        for q in rotations() {
            r.ask("edge.rotated", json!([o, ax(q.axis), am(q.amount)]), || edge(&e.clone().rotated(&q)));
        }
    }
    for q in rotations() {
        let args = |p: [i32; 3]| json!([p, ax(q.axis), am(q.amount)]);
        for x in AXES {
            for s in slices() {
                for d in DIRS {
                    let w = Wing::new(x, s, d);
                    let mut want = between(x, s).map(|x| 3 * x);
                    want[axis_no(x)] = sign(d);
                    r.ask("wing.rotated", args(want), || wing(&w.clone().rotated(&q)));
                }
            }
        }
        for c in CenterEdge::SOLVED {
            r.ask("wing.rotated", args(cedge(&c)), || cedge(&c.clone().rotated(&q)));
        }
        for c in CenterWing::SOLVED {
            r.ask("wing.rotated", args(cwing(&c)), || cwing(&c.clone().rotated(&q)));
        }
        for c in CenterCorner::SOLVED {
            match guarded(|| ccorner(&c)) {
                Ok(Ok(p)) => r.try_ask("wing.rotated", args(p), || ccorner(&c.clone().rotated(&q))),
                Ok(Err(e)) | Err(e) => r.ctx.rep.violation(e, json!({})),
            }
        }
    }
    r.ask("cube.size", json!([2]), || Cube2::N as i32);
    r.ask("cube.size", json!([3]), || Cube3::N as i32);
    r.ask("cube.size", json!([4]), || Cube4::N as i32);
    r.ask("cube.size", json!([5]), || Cube5::N as i32);
    r.ask("cube.size", json!([6]), || Cube6::N as i32);
    r.ask("cube.size", json!([7]), || Cube7::N as i32);
    for f in FACES {
        for h in DIRS {
            for s in DIRS {
                // told apart by which of the two it is, not by the side
                let side = CenterEdge::new(f.clone(), h, s).side_face();
                r.ask("cwing.pair", json!([fc(&f), fc(&side)]), || {
                    let mut two = [true, false].map(|o| cwing(&CenterWing::new_with_orientation(f.clone(), h, s, o)));
                    two.sort_by_key(|p| (0..3).map(|i| if p[i].abs() == 1 { p[i] } else { 0 }).sum::<i32>());
                    two.concat()
                });
                let c = CenterEdge::new(f.clone(), h, s);
                r.ask("centre.axes", json!([fc(&f), sign(h)]), || [ax(c.main_face.axis), ax(c.side_face().axis), ax(c.normal_axis())]);
                for n in DIRS {
                    let c = CenterWing::new(f.clone(), h, s, n);
                    r.ask("centre.axes", json!([fc(&f), sign(h)]), || [ax(c.main_face().axis), ax(c.side_face().axis), ax(c.normal_axis())]);
                    // made to be on that side, it is
                    r.ask("dir.scalar", json!([sign(n)]), || sign(c.normal_direction()));
                    r.ask("dir.scalar", json!([sign(s)]), || sign(c.side_face().direction));
                }
            }
        }
    }
}

#[derive(Clone)]
struct Things {
    faces: Vec<Face>,
    axes: Vec<Axis>,
    vecs: Vec<V3>,
    corners: Vec<Corner>,
    edges: Vec<Edge>,
    wings: Vec<Wing>,
    cedges: Vec<CenterEdge>,
    cwings: Vec<CenterWing>,
    ccorners: Vec<CenterCorner>,
    alg: Alg<AxisMove>,
}
impl Things {
    fn some(r: &mut Sm) -> Things {
        fn take<T: Clone>(r: &mut Sm, v: &[T], n: usize) -> Vec<T> {
            (0..n).map(|_| r.pick(v).clone()).collect()
        }
        let wings: Vec<Wing> = Wing::SOLVED.to_vec();
        let moves = AxisMove::all();
        let n = r.below(6);
        Things {
            faces: take(r, &FACES, 3),
            axes: take(r, &AXES, 2),
            vecs: take(r, &places(), 2),
            corners: take(r, &corners(), 3),
            edges: take(r, &edges(), 3),
            wings: take(r, &wings, 2),
            cedges: take(r, &CenterEdge::SOLVED, 2),
            cwings: take(r, &CenterWing::SOLVED, 2),
            ccorners: take(r, &CenterCorner::SOLVED, 2),
            alg: Alg::new(take(r, &moves, n)),
        }
    }
    fn rotate(&mut self, q: &AxisRotation) {
        fn all<T: Rotatable>(v: &mut [T], q: &AxisRotation) {
            v.iter_mut().for_each(|x| x.rotate(q));
        }
        all(&mut self.faces, q);
        all(&mut self.axes, q);
        all(&mut self.vecs, q);
        all(&mut self.corners, q);
        all(&mut self.edges, q);
        all(&mut self.wings, q);
        all(&mut self.cedges, q);
        all(&mut self.cwings, q);
        all(&mut self.ccorners, q);
        self.alg.rotate(q);
    }
    fn see(&self) -> Result<Value, String> {
        let mut places: Vec<[i32; 3]> = self.wings.iter().map(wing).collect();
        places.extend(self.cedges.iter().map(cedge));
        places.extend(self.cwings.iter().map(cwing));
        for c in &self.ccorners {
            places.push(ccorner(c)?);
        }
        Ok(json!({
            "faces": self.faces.iter().map(fc).collect::<Vec<_>>(),
            "axes": self.axes.iter().map(|a| ax(*a)).collect::<Vec<_>>(),
            "vecs": self.vecs.iter().map(v3).collect::<Vec<_>>(),
            "corners": self.corners.iter().map(corner).collect::<Vec<_>>(),
            "edges": self.edges.iter().map(edge).collect::<Vec<_>>(),
            "places": places,
            "alg": self.alg.moves.iter().map(|m| [fc(&m.face), am(m.amount)]).collect::<Vec<_>>(),
        }))
    }
}

pub fn c23(ctx: &'static Ctx) {
    now("questions about space");
    let mut r = Rec { ctx, tr: Tracer::new(&ctx.args, "TraceSpace", "questions", json!({})) };
    axes(&mut r);
    faces(&mut r);
    pieces(&mut r);
    ctx.rep.count("questions", r.tr.events);
    r.tr.finish(&ctx.rep);
    // rotated again and again
    let (walks, steps) = if ctx.args.thorough { (400, 100) } else { (60, 60) };
    let mut tr = Tracer::new(&ctx.args, "TraceSpace", "walks", json!({}));
    let mut sm = Sm::new(ctx.args.seed, 2323);
    for _ in 0..walks {
        tick();
        let mut things = Things::some(&mut sm);
        let mut path = vec![];
        tr.segments += 1;
        let seen = match guarded(|| things.see()) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) | Err(e) => return ctx.rep.violation(e, json!({})),
        };
        tr.push(json!({"e": "start", "obj": seen}));
        for _ in 0..steps {
            let q = sm.pick(&rotations()).clone();
            path.push([ax(q.axis), am(q.amount)]);
            match guarded(|| {
                things.rotate(&q);
                things.see()
            }) {
                Ok(Ok(v)) => tr.push(json!({"e": "rotate", "x": ax(q.axis), "a": am(q.amount), "obj": v})),
                Ok(Err(e)) | Err(e) => return ctx.rep.violation(format!("after rotations {path:?}: {e}"), json!({"path": path})),
            }
        }
    }
    ctx.rep.count("rotations_of_everything", (walks * steps) as u64);
    ctx.rep.sample(json!({"asked": "face.rotated, corner.rotated, ... all arguments"}));
    tr.finish(&ctx.rep);
}
