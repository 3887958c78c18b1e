//! C28: pictures of any size against Sheet.tla and Picture.tla.
use crate::net::*;
use crate::observe::*;
use crate::tables::*;
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::visualization::unfolded::{Square, Unfolded};
use barbarosa::cube_n::visualization::{Color, Colorscheme};
use barbarosa::cube_n::Cube3;
use barbarosa::generic::{Cube, Movable};
use nalgebra::Vector3;
use serde_json::{json, Value};
use std::fmt;

struct SizeSheet {
    size: usize,
    places: Vec<Vec<Vec<[i32; 3]>>>,
    sheet: Vec<Vec<i32>>,
}
fn load(dir: &str) -> Vec<SizeSheet> {
    let v = read_json(&format!("{dir}/sheets.json"));
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| SizeSheet {
            size: x["size"].as_u64().unwrap() as usize,
            places: serde_json::from_value(x["places"].clone()).unwrap(),
            sheet: serde_json::from_value(x["sheet"].clone()).unwrap(),
        })
        .collect()
}
struct Written<'a, const N: usize>(&'a Unfolded<N>, &'a Colorscheme<palette::Srgb>);
impl<const N: usize> fmt::Display for Written<'_, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.write(self.1, f)
    }
}
struct One<'a, const N: usize>(&'a Square<N>, &'a Colorscheme<palette::Srgb>, usize);
impl<const N: usize> fmt::Display for One<'_, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.write(self.1, self.2, f)
    }
}
type Grid = Vec<Vec<Vec<i32>>>;
fn squares<const N: usize>(u: &Unfolded<N>) -> Grid {
    (0..6).map(|f| u[&FACES[f]].data.iter().map(|row| row.iter().map(|c| face_signed(&c.face)).collect()).collect()).collect()
}
fn colour(s: i32) -> Color {
    Color::new(face_of_signed(s))
}
/// A point in fifths of the distance between neighbouring squares.
fn point(n: usize, p: [i32; 3]) -> Vector3<f32> {
    let k = 2.0 / (5.0 * (n as f32 - 1.0));
    Vector3::new(p[0] as f32 * k, p[1] as f32 * k, p[2] as f32 * k)
}
/// Near the middle of a square of a face, at any height over it.
fn near(t: &SizeSheet, f: usize, row: usize, col: usize, r: &mut Sm, off: [i32; 2]) -> [i32; 3] {
    let n = t.size;
    let place = t.places[f][row][col];
    let axis = FACE_SIGNED[f].unsigned_abs() as usize - 1;
    let mut k = 0;
    std::array::from_fn(|a| {
        if a == axis {
            r.below(10 * n) as i32 - 5 * n as i32
        } else {
            // the nearest fifths on either side
            let (v, o) = (5 * place[a], off[k]);
            k += 1;
            if v % 2 == 0 { v / 2 + o } else { (v + if o < 0 { -1 } else { 1 }) / 2 }
        }
    })
}
fn random_scheme(r: &mut Sm) -> ([Rgb; 6], Colorscheme<palette::Srgb>) {
    let rgb: [Rgb; 6] = loop {
        let v: [Rgb; 6] = std::array::from_fn(|_| (51 * r.below(6) as u8, 51 * r.below(6) as u8, 51 * r.below(6) as u8));
        if (0..6).all(|a| (0..a).all(|b| v[a] != v[b])) {
            break v;
        }
    };
    let part = |x: u8| x as f32 / 255.0;
    (rgb, Colorscheme::new(rgb.map(|c| palette::Srgb::new(part(c.0), part(c.1), part(c.2)))))
}

/// Every square of every face, found at points near its middle.
fn found<const N: usize>(ctx: &Ctx, t: &SizeSheet) -> Result<(), String> {
    let mut r = Sm::new(ctx.args.seed, 2800 + N as u64);
    let mut u = Unfolded::<N>::default();
    for (i, (f, sq)) in u.iter().enumerate() {
        if face_idx(&f) != i || !std::ptr::eq(sq, &u[&f]) {
            return Err(format!("iterating, face {f} comes {i}th or with another face's square"));
        }
    }
    if u.iter().count() != 6 {
        return Err(format!("iterating gives {} faces", u.iter().count()));
    }
    let fresh = squares(&u);
    for f in 0..6 {
        if fresh[f].iter().flatten().any(|c| *c != FACE_SIGNED[f]) || fresh[f].len() != N {
            return Err(format!("a new picture's face {} is {:?}", FACE_NAMES[f], fresh[f]));
        }
    }
    for (f, face) in FACES.iter().enumerate() {
        for row in 0..N {
            for col in 0..N {
                tick();
                let mut offs = vec![];
                for a in -1..=1 {
                    for b in -1..=1 {
                        offs.push([a, b]);
                    }
                }
                for off in offs {
                    let p5 = near(t, f, row, col, &mut r, off);
                    let p = point(N, p5);
                    let want: *const Color = &u[face].data[row][col];
                    let got = [
                        u[face].at(&p, face).map(|x| x as *const Color),
                        u[face].at_mut(&p, face).map(|x| &*x as *const Color),
                        u.at_mut(&p, face).map(|x| &*x as *const Color),
                        Square::<N>::at(&u[face], &p, face).map(|x| x as *const Color),
                    ];
                    ctx.rep.count("points_looked_up", 4);
                    for (k, g) in got.iter().enumerate() {
                        if *g != Some(want) {
                            let at = (0..N * N).map(|q| (q / N, q % N)).find(|(i, j)| *g == Some(&u[face].data[*i][*j] as *const Color));
                            return Err(format!(
                                "on face {} the point {p:?} is in row {row} and column {col}; {} gives {at:?}",
                                FACE_NAMES[f],
                                ["Square::at", "Square::at_mut", "Unfolded::at_mut", "Square::at"][k]
                            ));
                        }
                    }
                }
                // too far out in one direction or both
                for k in 1..4 {
                    let mut p5 = near(t, f, row, col, &mut r, [0, 0]);
                    let axis = FACE_SIGNED[f].unsigned_abs() as usize - 1;
                    let mut nth = 0;
                    for (a, v) in p5.iter_mut().enumerate() {
                        if a != axis {
                            nth += 1;
                            if nth & k != 0 {
                                *v = (if r.chance(1, 2) { 1 } else { -1 }) * ((5 * (N as i32 + 1) + 1) / 2 + if r.chance(1, 2) { r.below(8) } else { r.below(100 * N) } as i32);
                            }
                        }
                    }
                    let p = point(N, p5);
                    ctx.rep.count("points_too_far", 3);
                    if u[face].at(&p, face).is_some() || u[face].at_mut(&p, face).is_some() || u.at_mut(&p, face).is_some() {
                        return Err(format!("there is a square at {p:?} on face {}", FACE_NAMES[f]));
                    }
                }
            }
        }
    }
    // one colour, then every square of its own, printed with space in front
    for f in 0..6 {
        let mut sq = Square::<N>::new(colour(FACE_SIGNED[f]));
        if sq.data.iter().flatten().any(|c| face_signed(&c.face) != FACE_SIGNED[f]) {
            return Err(format!("a new square of the colour of {} is not all that colour", FACE_NAMES[f]));
        }
        let want: Vec<Vec<i32>> = (0..N).map(|_| (0..N).map(|_| FACE_SIGNED[r.below(6)]).collect()).collect();
        for row in 0..N {
            for col in 0..N {
                sq.data[row][col] = colour(want[row][col]);
            }
        }
        let (rgb, scheme) = random_scheme(&mut r);
        for pad in [0, 1, N + 1, 9] {
            let text = One(&sq, &scheme, pad).to_string();
            let got = named(&see_sheet(&text, N, N + pad)?, &rgb)?;
            let want: Vec<Vec<i32>> = want.iter().map(|x| [vec![0; pad], x.clone()].concat()).collect();
            ctx.rep.count("squares_printed", (N * N) as u64);
            if got != want {
                return Err(format!("a face {want:?} with {pad} in front prints as {}", show_sheet(&got)));
            }
        }
    }
    Ok(())
}

fn sessions<const N: usize>(ctx: &Ctx, t: &SizeSheet, plain: &[Rgb; 6]) -> Result<(), String> {
    let mut r = Sm::new(ctx.args.seed, 2830 + N as u64);
    let mut tr = Tracer::new(&ctx.args, "TracePicture", &format!("picture_{N}"), json!({"N": 3, "S": N}));
    let (rows, cols) = (t.sheet.len(), t.sheet[0].len());
    let look = |u: &Unfolded<N>, r: &mut Sm| -> Result<Value, String> {
        let (rgb, scheme) = random_scheme(r);
        let sheet = named(&see_sheet(&Written(u, &scheme).to_string(), rows, cols)?, &rgb)?;
        let again = named(&see_sheet(&u.to_string(), rows, cols)?, plain)?;
        if sheet != again {
            return Err(format!("with another scheme it prints {}, by default {}", show_sheet(&sheet), show_sheet(&again)));
        }
        Ok(json!({"e": "look", "squares": squares(u), "sheet": sheet}))
    };
    let segments = if ctx.args.thorough { 60 } else { 30 };
    let mut back: Vec<Turn> = vec![];
    for _ in 0..segments {
        let mut u = Unfolded::<N>::default();
        let mut c = Cube3::SOLVED;
        tr.push(json!({"e": "fresh"}));
        // the recorded cube goes on where it was: turned back first
        for m in &back {
            tr.push(json!({"e": "turn", "f": FACE_SIGNED[m.face], "a": m.amount}));
        }
        let mut turns: Vec<Turn> = vec![];
        let still = r.chance(1, 3);
        for _ in 0..40 {
            tick();
            let f = r.below(6);
            let (row, col) = (r.below(N), r.below(N));
            match r.below(10) {
                9 => {
                    // a new square in place of the old one
                    let col = FACE_SIGNED[r.below(6)];
                    u[&FACES[f]] = Square::new(colour(col));
                    tr.push(json!({"e": "flood", "f": FACE_SIGNED[f], "col": col}));
                }
                0..=1 if !still => {
                    let m = Turn { face: f, amount: 1 + r.below(3), depth: 0 };
                    guarded(|| c.apply(&axis_move(m)))?;
                    turns.push(m);
                    tr.push(json!({"e": "turn", "f": FACE_SIGNED[f], "a": m.amount}));
                }
                0..=2 => {
                    guarded(|| u.populate_with(&c.corners))?;
                    tr.push(json!({"e": "fill", "kind": "corner"}));
                }
                3 if N % 2 == 1 => {
                    guarded(|| u.populate_with(&c.edges))?;
                    tr.push(json!({"e": "fill", "kind": "edge"}));
                }
                3 | 4 => {
                    let off = [r.below(3) as i32 - 1, r.below(3) as i32 - 1];
                    let mut p = near(t, f, row, col, &mut r, off);
                    if r.chance(1, 6) {
                        let a = r.below(3);
                        if a + 1 != FACE_SIGNED[f].unsigned_abs() as usize {
                            p[a] = (if r.chance(1, 2) { 1 } else { -1 }) * ((5 * (N as i32 + 1) + 1) / 2 + r.below(20) as i32);
                        }
                    }
                    let col = guarded(|| u[&FACES[f]].at(&point(N, p), &FACES[f]).map_or(0, |c| face_signed(&c.face)))?;
                    tr.push(json!({"e": "ask", "f": FACE_SIGNED[f], "p": p, "col": col}));
                }
                5 => {
                    let off = [r.below(3) as i32 - 1, r.below(3) as i32 - 1];
                    let p = near(t, f, row, col, &mut r, off);
                    let col = FACE_SIGNED[r.below(6)];
                    let via = r.chance(1, 2);
                    let done = guarded(|| {
                        let at = point(N, p);
                        let x = if via { u.at_mut(&at, &FACES[f]) } else { u[&FACES[f]].at_mut(&at, &FACES[f]) };
                        x.map(|x| *x = colour(col)).is_some()
                    })?;
                    if !done {
                        return Err(format!("no square at {:?} on face {}", point(N, p), FACE_NAMES[f]));
                    }
                    tr.push(json!({"e": "paint", "f": FACE_SIGNED[f], "p": p, "col": col}));
                }
                6 => {
                    let to = FACE_SIGNED[r.below(6)];
                    u[&FACES[f]].data[row][col] = colour(to);
                    tr.push(json!({"e": "put", "f": FACE_SIGNED[f], "r": row + 1, "c": col + 1, "col": to}));
                }
                7 => {
                    u = Unfolded::default();
                    tr.push(json!({"e": "fresh"}));
                }
                _ => {
                    let ev = guarded(|| look(&u, &mut r))??;
                    tr.push(ev);
                }
            }
        }
        tr.push(guarded(|| look(&u, &mut r))??);
        tr.segments += 1;
        back = inverse_alg(&turns);
    }
    if N == 5 {
        ctx.rep.sample(json!({"size": N, "session": "paint, fill with corners and edges, ask, print", "events": tr.events}));
    }
    tr.finish(&ctx.rep);
    Ok(())
}

pub fn c28(ctx: &'static Ctx) {
    std::env::remove_var("NO_COLOR");
    let plain = default_scheme(&ctx.rep);
    let all = load(&ctx.args.dir);
    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    macro_rules! sizes {
        ($($n:literal),*) => { $( if let Some(t) = all.iter().find(|t| t.size == $n) {
            jobs.push(Box::new(move || {
                now(format!("pictures of size {}", $n));
                let r = guarded(|| found::<$n>(ctx, t)).and_then(|x| x);
                let r = r.and_then(|_| if $n < 8 { guarded(|| sessions::<$n>(ctx, t, &plain)).and_then(|x| x) } else { Ok(()) });
                if let Err(e) = r {
                    ctx.rep.violation(format!("pictures of size {}: {e}", $n), json!({"size": $n, "seed": ctx.args.seed}));
                }
            }));
        } )* };
    }
    sizes!(2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 24, 33, 64);
    parallel(jobs);
}
