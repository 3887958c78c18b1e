//! The projection from the implementation's cubes to the specification's
//! observations: for every home, where that piece is now and its mark.
use barbarosa::cube_n::moves::{NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::{AxisMove, Corner, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, Edge, WideAxisMove};
use barbarosa::cube_n::moves::Amount;
use barbarosa::generic::{Alg, Cube, Movable};
use std::collections::HashMap;

use crate::tables::{SizeT, Turn};

pub const FACES: [Face; 6] = [Face::R, Face::U, Face::F, Face::L, Face::D, Face::B];
pub const AMOUNTS: [Amount; 3] = [Amount::Single, Amount::Double, Amount::Inverse];
pub const AXES: [Axis; 3] = [Axis::X, Axis::Y, Axis::Z];

pub fn sign(d: Direction) -> i32 {
    match d {
        Direction::Positive => 1,
        Direction::Negative => -1,
    }
}
pub fn axis_no(a: Axis) -> usize {
    match a {
        Axis::X => 0,
        Axis::Y => 1,
        Axis::Z => 2,
    }
}
pub fn face_idx(f: &Face) -> usize {
    FACES.iter().position(|x| x == f).unwrap()
}
pub fn face_signed(f: &Face) -> i32 {
    sign(f.direction) * (axis_no(f.axis) as i32 + 1)
}
pub fn face_of_signed(s: i32) -> Face {
    FACES[crate::tables::FACE_SIGNED.iter().position(|x| *x == s).unwrap()].clone()
}
pub fn amount_no(a: Amount) -> usize {
    match a {
        Amount::Single => 1,
        Amount::Double => 2,
        Amount::Inverse => 3,
    }
}
pub fn axis_move(t: Turn) -> AxisMove {
    AxisMove::new(FACES[t.face].clone(), AMOUNTS[t.amount - 1])
}
pub fn wide<const N: u32>(t: Turn) -> WideAxisMove<N> {
    WideAxisMove::new(FACES[t.face].clone(), AMOUNTS[t.amount - 1], t.depth as u32).expect("depth within limit")
}

/// A piece as seen from outside: kind with depths, place, mark.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Seen {
    pub kind: &'static str,
    pub place: [i32; 3],
    pub mark: i32,
}

pub fn see_corner(n: usize, c: &Corner) -> Seen {
    let e = n as i32 - 1;
    Seen {
        kind: "corner",
        place: [e * sign(c.position.x), e * sign(c.position.y), e * sign(c.position.z)],
        mark: axis_no(c.orientation_axis) as i32 + 1,
    }
}
pub fn see_edge(n: usize, c: &Edge) -> Seen {
    let e = n as i32 - 1;
    let mut place = [0; 3];
    // the basis is the two axes after the normal one, in cyclic order
    let a = (axis_no(c.normal_axis) + 1) % 3;
    let b = (a + 1) % 3;
    place[a] = e * sign(c.slice_position.x);
    place[b] = e * sign(c.slice_position.y);
    Seen { kind: "edge", place, mark: c.oriented as i32 }
}

// ------------------------------------------------------------------------
// Cubes 4 to 7 keep their pieces private: they are read from the Debug text.
// ------------------------------------------------------------------------

fn face_letter(c: char) -> Option<(usize, i32)> {
    Some(match c {
        'R' => (0, 1),
        'L' => (0, -1),
        'U' => (1, 1),
        'D' => (1, -1),
        'F' => (2, 1),
        'B' => (2, -1),
        _ => return None,
    })
}

/// Pieces in the order the text lists them, one vector per piece set.
pub fn see_debug(n: usize, text: &str) -> Result<Vec<Seen>, String> {
    let e = n as i32 - 1;
    let inner = |d: i32| n as i32 - 1 - 2 * d;
    let b = text.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    let mut label_depth: Option<i32> = None;
    let mut set_no: HashMap<&'static str, i32> = HashMap::new();
    let mut fresh_set = true;
    let mut cur_depth = 1;
    let mut nested = false;
    // value of the field `name` after position `from`, as text up to one of the stops
    let field = |from: usize, name: &str| -> Result<&str, String> {
        let pat = format!("{name}: ");
        let s = text[from..].find(&pat).ok_or(format!("no field {name}"))? + from + pat.len();
        Ok(&text[s..(s + 40).min(text.len())])
    };
    let dir = |s: &str| -> Result<i32, String> {
        if s.starts_with("Positive") {
            Ok(1)
        } else if s.starts_with("Negative") {
            Ok(-1)
        } else {
            Err(format!("bad direction {s}"))
        }
    };
    let axis = |s: &str| -> Result<usize, String> {
        match s.chars().next() {
            Some('X') => Ok(0),
            Some('Y') => Ok(1),
            Some('Z') => Ok(2),
            _ => Err(format!("bad axis {s}")),
        }
    };
    let face = |s: &str| -> Result<(usize, i32), String> {
        let s = s.strip_prefix("Face { ").unwrap_or(s);
        s.chars().next().and_then(face_letter).ok_or(format!("bad face {s}"))
    };
    while i < b.len() {
        if !b[i].is_ascii_alphabetic() && b[i] != b'_' {
            i += 1;
            continue;
        }
        let st = i;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
            i += 1;
        }
        let word = &text[st..i];
        let is_field = text[i..].starts_with(": ");
        if is_field {
            // a set's own field: depth is the digit in its name, if any
            if text[i + 2..].starts_with("DepthPieceSet") || text[i + 2..].starts_with("PieceSet") {
                // (not the set within a set of layered pieces)
                if !nested {
                    label_depth = word.chars().rev().find(|c| c.is_ascii_digit()).map(|c| c as i32 - '0' as i32);
                }
                fresh_set = true;
            }
            continue;
        }
        nested = word == "DepthPieceSet";
        let kind = match word {
            "Corner" => "corner",
            "Edge" => "edge",
            "Wing" => "wing",
            "CenterCorner" => "ccorner",
            "CenterEdge" => "cedge",
            "CenterWing" => "cwing",
            _ => continue,
        };
        if fresh_set {
            let c = set_no.entry(kind).or_insert(0);
            *c += 1;
            cur_depth = label_depth.unwrap_or(*c);
            fresh_set = false;
        }
        let d = cur_depth;
        let mut place = [0; 3];
        let mut mark = 0;
        match kind {
            "corner" => {
                for c in field(i, "faces")?.chars().take(3) {
                    let (a, s) = face_letter(c).ok_or("bad corner")?;
                    place[a] = e * s;
                }
                mark = axis(field(i, "orientation_axis")?)? as i32 + 1;
            }
            "edge" => {
                for c in field(i, "faces")?.chars().take(2) {
                    let (a, s) = face_letter(c).ok_or("bad edge")?;
                    place[a] = e * s;
                }
                mark = field(i, "oriented")?.starts_with("true") as i32;
            }
            "wing" => {
                let mut used = [false; 3];
                for c in field(i, "faces")?.chars().take(2) {
                    let (a, s) = face_letter(c).ok_or("bad wing")?;
                    place[a] = e * s;
                    used[a] = true;
                }
                let na = used.iter().position(|u| !u).ok_or("bad wing")?;
                place[na] = inner(d) * dir(field(i, "normal_direction")?)?;
            }
            "ccorner" => {
                // by shape, as its fields are private: three directions and an axis
                let end = text[i..].find('}').ok_or("bad centre")? + i;
                let words = || text[i..end].split(|c: char| !c.is_ascii_alphanumeric());
                let dirs: Vec<i32> = words().filter_map(|w| dir(w).ok()).collect();
                let axes: Vec<usize> = words().filter(|w| w.len() == 1).filter_map(|w| axis(w).ok()).collect();
                if dirs.len() != 3 || axes.len() != 1 {
                    return Err(format!("bad centre {}", &text[i..end]));
                }
                for (a, s) in dirs.iter().enumerate() {
                    place[a] = s * if a == axes[0] { e } else { inner(d) };
                }
            }
            "cedge" => {
                let (m, s) = face(field(i, "main_face")?)?;
                place[m] = e * s;
                let side = if dir(field(i, "handedness")?)? > 0 { (m + 1) % 3 } else { (m + 2) % 3 };
                place[side] = inner(d) * dir(field(i, "side_direction")?)?;
            }
            _ => {
                let (m, s) = face(field(i, "main_face")?)?;
                let (sa, ss) = face(field(i, "side_face")?)?;
                place[m] = e * s;
                place[sa] = inner(1) * ss;
                place[3 - m - sa] = inner(2) * dir(field(i, "normal_direction")?)?;
            }
        }
        out.push(Seen { kind, place, mark });
    }
    Ok(out)
}

/// Every cube the implementation offers, driven through its public interface.
pub trait Sut: Cube + Send + Sync + 'static {
    const SIZE: usize;
    fn see(&self) -> Result<Vec<Seen>, String>;
    /// Ways of carrying a depth-`d` turn: all must have the same effect.
    fn carriers(depth: usize) -> usize;
    fn turn(&mut self, t: Turn, carrier: usize);
    fn apply_alg(&mut self, alg: &Alg<AxisMove>);
    fn hash_of(&self) -> Option<u64>;
    fn display(&self) -> Option<String> {
        None
    }
}

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    Hash::hash(t, &mut h);
    h.finish()
}

/// A cube's own moves: of all turns it has.
trait Own: Sized {
    fn own(t: Turn) -> Option<Self>;
}
impl Own for AxisMove {
    fn own(t: Turn) -> Option<Self> {
        (t.depth == 0).then(|| axis_move(t))
    }
}
impl<const N: u32> Own for WideAxisMove<N> {
    fn own(t: Turn) -> Option<Self> {
        let m = axis_move(t);
        WideAxisMove::new(m.face, m.amount, t.depth as u32).ok()
    }
}
/// Turned through an alg of the cube's own moves.
fn own<C: Cube + Movable<Alg<C>>>(c: &mut C, t: Turn)
where
    C::Move: Own,
{
    let m = C::Move::own(t).unwrap_or_else(|| panic!("the cube's own moves lack {}", t.show()));
    c.apply(&Alg::<C>::new(vec![m]))
}
/// Carriers of a depth-0 turn common to every cube.
fn common<C: Cube + Movable<AxisMove>>(c: &mut C, t: Turn, carrier: usize) {
    let m = axis_move(t);
    match carrier {
        0 => c.apply(&m),
        1 => c.apply(&wide::<0>(t)),
        2 => {
            // quarter turns
            let alg: Alg<QuarterAxisMove> = Alg::<AxisMove>::new(vec![m]).into();
            c.apply(&alg)
        }
        3 => c.apply(&NonRedundantAxisMove::from(m)),
        4 => c.apply(&Alg::<AxisMove>::new(vec![m])),
        5 => {
            let moved = c.clone().moved(&m);
            *c = moved;
        }
        _ => c.apply(&[m][..]),
    }
}
const COMMON: usize = 7;

macro_rules! small {
    ($t:ty, $n:literal, |$s:ident| $see:expr) => {
        impl Sut for $t {
            const SIZE: usize = $n;
            fn see(&self) -> Result<Vec<Seen>, String> {
                let $s = self;
                Ok($see)
            }
            fn carriers(_: usize) -> usize {
                COMMON + 1
            }
            fn turn(&mut self, t: Turn, carrier: usize) {
                if carrier == COMMON {
                    return own(self, t);
                }
                common(self, t, carrier)
            }
            fn apply_alg(&mut self, alg: &Alg<AxisMove>) {
                self.apply(alg)
            }
            fn hash_of(&self) -> Option<u64> {
                Some(hash_of(self))
            }
        }
    };
}
small!(Cube2, 2, |c| c.corners.iter().map(|x| see_corner(2, x)).collect());
small!(Cube3, 3, |c| c
    .edges
    .iter()
    .map(|x| see_edge(3, x))
    .chain(c.corners.iter().map(|x| see_corner(3, x)))
    .collect());

macro_rules! big {
    ($t:ty, $n:literal, $hash:expr, |$c:ident, $turn:ident, $k:ident| $wide:expr, $extra:expr) => {
        impl Sut for $t {
            const SIZE: usize = $n;
            fn see(&self) -> Result<Vec<Seen>, String> {
                see_debug($n, &format!("{:?}", self))
            }
            fn carriers(depth: usize) -> usize {
                1 + if depth == 0 { COMMON + $extra } else { $extra + 1 - depth }
            }
            fn turn(&mut self, t: Turn, carrier: usize) {
                if carrier + 1 == Self::carriers(t.depth) {
                    return own(self, t);
                }
                if t.depth == 0 && carrier < COMMON {
                    return common(self, t, carrier);
                }
                // 0 = the widest type, 1 = the next narrower, ...
                let $k = if t.depth == 0 { carrier - COMMON } else { carrier };
                let $c = self;
                let $turn = t;
                $wide
            }
            fn apply_alg(&mut self, alg: &Alg<AxisMove>) {
                self.apply(alg)
            }
            fn hash_of(&self) -> Option<u64> {
                let f: fn(&Self) -> Option<u64> = $hash;
                f(self)
            }
        }
    };
}
big!(Cube4, 4, |c| Some(hash_of(c)), |c, t, k| match k {
    0 => c.apply(&wide::<1>(t)),
    _ => c.apply(&Alg::<WideAxisMove<1>>::new(vec![wide::<1>(t)])),
}, 1);
big!(Cube5, 5, |_| None, |c, t, k| match k {
    0 => c.apply(&wide::<1>(t)),
    _ => c.apply(&Alg::<WideAxisMove<1>>::new(vec![wide::<1>(t)])),
}, 1);
big!(Cube6, 6, |_| None, |c, t, k| match k {
    0 => c.apply(&wide::<2>(t)),
    _ => c.apply(&wide::<1>(t)),
}, 2);
big!(Cube7, 7, |_| None, |c, t, k| match k {
    0 => c.apply(&wide::<2>(t)),
    _ => c.apply(&wide::<1>(t)),
}, 2);

/// Fixes which of the implementation's pieces belongs to which home: the piece
/// found there on the solved cube.
pub struct Projection {
    pub home_of: Vec<Option<usize>>,
    pub problem: Option<String>,
}

impl Projection {
    pub fn of<C: Sut>(s: &SizeT) -> Projection {
        let seen = match C::SOLVED.see() {
            Ok(x) => x,
            Err(e) => return Projection { home_of: vec![], problem: Some(format!("cannot read the solved cube: {e}")) },
        };
        let mut used = vec![false; s.homes.len()];
        let mut problem = None;
        let mut home_of = Vec::new();
        for p in &seen {
            let h = s.home_idx.get(&p.place).copied();
            match h {
                Some(h) if s.kinds[h] == p.kind && !used[h] => {
                    used[h] = true;
                    home_of.push(Some(h));
                }
                _ => {
                    problem.get_or_insert(format!("the solved cube lists {} at {:?}, which is no free home of that kind", p.kind, p.place));
                    home_of.push(None);
                }
            }
        }
        for (h, u) in used.iter().enumerate() {
            if !u {
                problem.get_or_insert(format!("the cube has no {} piece with home {:?}", s.orbits[h], s.homes[h]));
            }
        }
        Projection { home_of, problem }
    }

    /// Observation per home, [0,0,0,-1] for a home without piece.
    pub fn observe<C: Sut>(&self, s: &SizeT, c: &C) -> Result<Vec<[i32; 4]>, String> {
        let seen = c.see()?;
        if seen.len() != self.home_of.len() {
            return Err(format!("the cube now lists {} pieces, it had {}", seen.len(), self.home_of.len()));
        }
        let mut out = vec![[0, 0, 0, -1]; s.homes.len()];
        for (p, h) in seen.iter().zip(&self.home_of) {
            if let Some(h) = h {
                out[*h] = [p.place[0], p.place[1], p.place[2], p.mark];
            }
        }
        Ok(out)
    }
}

/// First difference between the model and what is observed, as text.
pub fn diff(s: &SizeT, expect: &[[i32; 4]], got: &[[i32; 4]]) -> Option<String> {
    let bad: Vec<usize> = (0..expect.len()).filter(|i| expect[*i] != got[*i]).collect();
    let i = *bad.first()?;
    Some(format!(
        "{} of {} pieces differ; first: {} from home {:?} should be at {:?} mark {}, is at {:?} mark {}",
        bad.len(),
        expect.len(),
        s.orbits[i],
        s.homes[i],
        &expect[i][..3],
        expect[i][3],
        &got[i][..3],
        got[i][3]
    ))
}
