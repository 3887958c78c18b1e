//! C21: the unfolded picture of a 3x3x3 against Net.tla.
use crate::cubes::*;
use crate::observe::*;
use crate::tables::*;
use crate::turns::rand_alg;
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::visualization::unfolded::Unfolded;
use barbarosa::cube_n::visualization::{Color, Colored, Colorscheme};
use barbarosa::cube_n::Cube3;
use barbarosa::generic::piece::{Coordinates, PieceSetDescriptor};
use barbarosa::generic::{Cube, Movable, PieceSet};
use serde_json::{json, Value};
use std::fmt;

/// Signed axes, face by face in the order of FACE_NAMES, each by rows.
pub type Squares = [[[i32; 3]; 3]; 6];
pub type Sheet = Vec<Vec<i32>>;
pub type Rgb = (u8, u8, u8);

pub struct Net {
    /// home under each square, 0 in the middle
    squares: Vec<Vec<Vec<usize>>>,
    shows: Vec<Vec<i32>>,
    /// the face at each square of the sheet, 0 for none
    sheet: Sheet,
}
impl Net {
    pub fn load(dir: &str) -> Net {
        let v = read_json(&format!("{dir}/net.json"));
        fn table(v: &Value) -> Vec<Vec<i32>> {
            serde_json::from_value(v.clone()).unwrap()
        }
        Net {
            squares: serde_json::from_value(v["squares"].clone()).unwrap(),
            shows: table(&v["shows"]),
            sheet: table(&v["sheet"]),
        }
    }
    pub fn squares(&self, s: &SizeT, m: &Model) -> Squares {
        let mut at = vec![0; s.homes.len()];
        for (i, g) in m.g.iter().enumerate() {
            at[s.wher[i][*g as usize]] = *g as usize;
        }
        std::array::from_fn(|f| {
            std::array::from_fn(|r| {
                std::array::from_fn(|c| match self.squares[f][r][c] {
                    0 => FACE_SIGNED[f],
                    p => self.shows[at[p - 1]][f],
                })
            })
        })
    }
    pub fn sheet(&self, sq: &Squares) -> Sheet {
        self.sheet
            .iter()
            .enumerate()
            .map(|(r, row)| {
                row.iter()
                    .enumerate()
                    .map(|(c, f)| match FACE_SIGNED.iter().position(|x| x == f) {
                        None => 0,
                        Some(f) => sq[f][r % 4][c % 4],
                    })
                    .collect()
            })
            .collect()
    }
    /// The row and column of the square of a face over a home.
    fn over(&self, f: usize, home: usize) -> Option<(usize, usize)> {
        (0..9).map(|q| (q / 3, q % 3)).find(|(r, c)| self.squares[f][*r][*c] == home + 1)
    }
}

/// What a terminal shows for a text that colours the background: two
/// characters make a square; missing squares are None.
pub fn see_sheet(text: &str, rows: usize, cols: usize) -> Result<Vec<Vec<Option<Rgb>>>, String> {
    let mut grid: Vec<Vec<Option<Rgb>>> = vec![vec![]];
    let mut bg: Option<Rgb> = None;
    let mut cs = text.chars().peekable();
    while let Some(c) = cs.next() {
        match c {
            '\x1b' => {
                if cs.next() != Some('[') {
                    return Err("a strange escape sequence".into());
                }
                let mut arg = String::new();
                let end = loop {
                    match cs.next() {
                        Some(c) if c.is_ascii_digit() || c == ';' => arg.push(c),
                        Some(c) => break c,
                        None => return Err("an unfinished escape sequence".into()),
                    }
                };
                if end != 'm' {
                    return Err(format!("an escape sequence for something else than colour ({arg}{end})"));
                }
                let p: Vec<u32> = arg.split(';').map(|x| x.parse().unwrap_or(0)).collect();
                let mut i = 0;
                while i < p.len() {
                    match p[i] {
                        0 | 49 => bg = None,
                        48 if p.get(i + 1) == Some(&2) && i + 4 < p.len() => {
                            bg = Some((p[i + 2] as u8, p[i + 3] as u8, p[i + 4] as u8));
                            i += 4;
                        }
                        38 if p.get(i + 1) == Some(&2) => i += 4,
                        48 | 40..=47 | 100..=107 => return Err(format!("a colour not in the scheme ({arg})")),
                        _ => {}
                    }
                    i += 1;
                }
            }
            '\n' => grid.push(vec![]),
            '\r' => {}
            _ => grid.last_mut().unwrap().push(bg),
        }
    }
    let mut out = vec![];
    for (r, line) in grid.iter().enumerate() {
        let mut row = vec![];
        for k in 0..cols.max((line.len() + 1) / 2) {
            let (a, b) = (line.get(2 * k).copied().flatten(), line.get(2 * k + 1).copied().flatten());
            if a != b {
                return Err(format!("half a square in row {r}, column {k}"));
            }
            if k < cols {
                row.push(a);
            } else if a.is_some() {
                return Err(format!("a square in row {r}, column {k}"));
            }
        }
        out.push(row);
    }
    while out.len() > rows && out.last().unwrap().iter().all(|x| x.is_none()) {
        out.pop();
    }
    while out.len() < rows {
        out.push(vec![None; cols]);
    }
    if out.len() > rows {
        return Err(format!("{} rows", out.len()));
    }
    Ok(out)
}
/// The same in terms of the faces whose colours they are.
pub fn named(grid: &[Vec<Option<Rgb>>], scheme: &[Rgb; 6]) -> Result<Sheet, String> {
    grid.iter()
        .map(|row| {
            row.iter()
                .map(|x| match x {
                    None => Ok(0),
                    Some(c) => (0..6)
                        .find(|f| close(scheme[*f], *c))
                        .map(|f| FACE_SIGNED[f])
                        .ok_or(format!("the colour {c:?} is not one of the scheme {scheme:?}")),
                })
                .collect()
        })
        .collect()
}
/// Rounding a fraction of 255 up or down makes no difference.
fn close(a: Rgb, b: Rgb) -> bool {
    a.0.abs_diff(b.0) <= 1 && a.1.abs_diff(b.1) <= 1 && a.2.abs_diff(b.2) <= 1
}
/// The default scheme's colours, which have to be the ones Color's names say.
pub fn default_scheme(rep: &Report) -> [Rgb; 6] {
    let s = Colorscheme::default();
    let rgb: [Rgb; 6] = std::array::from_fn(|f| {
        let c = s.get(&FACES[f]);
        ((c.red * 255.0) as u8, (c.green * 255.0) as u8, (c.blue * 255.0) as u8)
    });
    let hue = |c: Rgb| {
        let (r, g, b) = (c.0 as i32, c.1 as i32, c.2 as i32);
        let (hi, lo) = (r.max(g).max(b), r.min(g).min(b));
        if hi - lo < 40 {
            "white"
        } else if hi == b {
            "blue"
        } else if hi == g {
            "green"
        } else if (g - lo) * 4 < (hi - lo) {
            "red"
        } else if (g - lo) * 3 < 2 * (hi - lo) {
            "orange"
        } else {
            "yellow"
        }
    };
    for (f, name) in ["red", "white", "green", "orange", "yellow", "blue"].iter().enumerate() {
        if hue(rgb[f]) != *name {
            rep.violation(format!("the default colour of {} is {:?}, which is {}, not {name}", FACE_NAMES[f], rgb[f], hue(rgb[f])), json!({"face": FACE_NAMES[f], "rgb": rgb[f]}));
        }
        let d = format!("{:?}", Color::new(FACES[f].clone()));
        if !d.contains(name) {
            rep.violation(format!("the colour of {} is called {d}, not {name}", FACE_NAMES[f]), json!({"face": FACE_NAMES[f]}));
        }
    }
    for a in 0..6 {
        for b in 0..a {
            if close(rgb[a], rgb[b]) {
                rep.violation(format!("{} and {} have the same default colour", FACE_NAMES[a], FACE_NAMES[b]), json!({}));
            }
        }
    }
    rgb
}

struct Painted<'a>(&'a Unfolded<3>, &'a Colorscheme<palette::Srgb>);
impl fmt::Display for Painted<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.write(self.1, f)
    }
}
fn see_squares(u: &Unfolded<3>) -> Squares {
    std::array::from_fn(|f| u[&FACES[f]].data.clone().map(|row| row.map(|c| face_signed(&c.face))))
}
fn show(sq: &[[i32; 3]; 3]) -> String {
    let name = |x: i32| FACE_NAMES[FACE_SIGNED.iter().position(|s| *s == x).unwrap()];
    sq.iter().map(|r| r.iter().map(|x| name(*x)).collect::<String>()).collect::<Vec<_>>().join("/")
}
pub fn show_sheet(s: &Sheet) -> String {
    let name = |x: i32| FACE_SIGNED.iter().position(|s| *s == x).map_or(".", |f| FACE_NAMES[f]);
    s.iter().map(|r| r.iter().map(|x| name(*x)).collect::<String>()).collect::<Vec<_>>().join("/")
}

/// Every colour each piece says it shows, and where, against the squares.
fn pieces<P, const M: usize>(net: &Net, s: &SizeT, u: &mut Unfolded<3>, want: &Squares, set: &PieceSet<P, M>, see: impl Fn(&P) -> Seen) -> Result<(), String>
where
    P: Colored + Coordinates + PieceSetDescriptor<M>,
{
    for (home, piece) in set.iter_with_pos() {
        let seen = see(piece);
        let place = *s.home_idx.get(&seen.place).ok_or("a piece at no place")?;
        let mut shown: Vec<(usize, i32)> = piece.colors(home).iter().map(|(f, c)| (face_idx(f), face_signed(&c.face))).collect();
        shown.sort();
        let mut should: Vec<(usize, i32)> = (0..6).filter_map(|f| net.over(f, place).map(|(r, c)| (f, want[f][r][c]))).collect();
        should.sort();
        if shown != should {
            return Err(format!("the piece at {:?} says its colours (face, colour) are {shown:?}, they are {should:?}", seen.place));
        }
        let at = piece.coordinates();
        for f in 0..6 {
            let Some((r, c)) = net.over(f, place) else { continue };
            let col = u[&FACES[f]].at(&at, &FACES[f]).map(|c| face_signed(&c.face));
            if col != Some(want[f][r][c]) {
                return Err(format!("at({:?}, {}) is {col:?}, not {}", seen.place, FACE_NAMES[f], want[f][r][c]));
            }
            let col = u.at_mut(&at, &FACES[f]).map(|c| face_signed(&c.face));
            if col != Some(want[f][r][c]) {
                return Err(format!("at_mut({:?}, {}) is {col:?}, not {}", seen.place, FACE_NAMES[f], want[f][r][c]));
            }
        }
    }
    Ok(())
}

fn look(cube: &Cube3, net: &Net, scheme: &[Rgb; 6]) -> Result<(Squares, Sheet), String> {
    let u: Unfolded<3> = cube.clone().into();
    let sq = see_squares(&u);
    let grid = see_sheet(&cube.to_string(), net.sheet.len(), net.sheet[0].len())?;
    Ok((sq, named(&grid, scheme)?))
}

fn check(cs: &Cubes, net: &Net, m: &Model, cube: &Cube3, scheme: &[Rgb; 6], r: &mut Sm, deep: bool) -> Result<(), String> {
    let want = net.squares(cs.s, m);
    let mut u: Unfolded<3> = cube.clone().into();
    let got = see_squares(&u);
    for f in 0..6 {
        if got[f] != want[f] {
            return Err(format!("face {} is {}, a cube in that state shows {}", FACE_NAMES[f], show(&got[f]), show(&want[f])));
        }
    }
    if !deep {
        return Ok(());
    }
    for (i, (f, sq)) in u.iter().enumerate() {
        let sq = sq.data.clone().map(|row| row.map(|c| face_signed(&c.face)));
        if face_idx(&f) != i || sq != want[i] {
            return Err(format!("iterating, face {} comes with {}, it is {}", f, show(&sq), show(&want[face_idx(&f)])));
        }
    }
    pieces(net, cs.s, &mut u, &want, &cube.corners, |c| see_corner(3, c))?;
    pieces(net, cs.s, &mut u, &want, &cube.edges, |e| see_edge(3, e))?;
    let sheet = net.sheet(&want);
    let (rows, cols) = (sheet.len(), sheet[0].len());
    for (name, text) in [("the cube", cube.to_string()), ("the picture", u.to_string())] {
        let got = named(&see_sheet(&text, rows, cols)?, scheme)?;
        if got != sheet {
            return Err(format!("{name} prints as {}, not {}", show_sheet(&got), show_sheet(&sheet)));
        }
    }
    // another scheme
    let rgb: [Rgb; 6] = loop {
        let v: [Rgb; 6] = std::array::from_fn(|_| (51 * r.below(6) as u8, 51 * r.below(6) as u8, 51 * r.below(6) as u8));
        if (0..6).all(|a| (0..a).all(|b| v[a] != v[b])) {
            break v;
        }
    };
    let part = |x: u8| x as f32 / 255.0;
    let scheme = Colorscheme::new(rgb.map(|c| palette::Srgb::new(part(c.0), part(c.1), part(c.2))));
    let got = named(&see_sheet(&Painted(&u, &scheme).to_string(), rows, cols)?, &rgb)?;
    if got != sheet {
        return Err(format!("with scheme {rgb:?} it prints as {}, not {}", show_sheet(&got), show_sheet(&sheet)));
    }
    // a picture that was of another cube shows this one after being filled again
    let mut again: Unfolded<3> = cs.build(&cs.random(r, 20)).into();
    again.populate_with(&cube.edges);
    again.populate_with(&cube.corners);
    if see_squares(&again) != want {
        return Err("a picture of another cube, filled with the pieces of this one, shows something else".into());
    }
    Ok(())
}

pub fn c21(ctx: &'static Ctx) {
    std::env::remove_var("NO_COLOR");
    let net = Net::load(&ctx.args.dir);
    let scheme = default_scheme(&ctx.rep);
    let Some(cs) = Cubes::new(ctx) else { return };
    // every single turn, every pair of turns, and random cubes
    let turns: Vec<Turn> = (0..18).map(|k| Turn { face: k / 3, amount: k % 3 + 1, depth: 0 }).collect();
    let mut algs: Vec<Vec<Turn>> = vec![vec![]];
    for a in &turns {
        algs.push(vec![*a]);
        for b in &turns {
            algs.push(vec![*a, *b]);
        }
    }
    let seed = ctx.args.seed;
    let random = if ctx.args.thorough { 20_000_000 } else { 2_000_000 };
    let few = algs.len();
    let case = |k: usize| -> (Vec<Turn>, Model) {
        let mut r = Sm::new(seed, k as u64 + 77);
        let alg = if k < few { algs[k].clone() } else { let n = 3 + r.below(25); rand_alg(&mut r, 0, n) };
        let mut m = Model::solved(cs.s);
        m.alg(&ctx.t, cs.s, &alg);
        (alg, m)
    };
    let one = |k: usize| -> Option<String> {
        let (alg, m) = case(k);
        let mut r = Sm::new(seed, k as u64 + 1077);
        // built from its pieces, or turned
        let cube = if k % 4 == 0 || k < few {
            let mut c = Cube3::SOLVED;
            for t in &alg {
                c.apply(&axis_move(*t));
            }
            c
        } else {
            cs.build(&m)
        };
        let bad = check(&cs, &net, &m, &cube, &scheme, &mut r, k < few || k % 16 == 0).err();
        if bad.is_some() || k % 16 != 0 {
            return bad;
        }
        // cubes that have something in common with the last one
        cs.twins(&m, &mut r).iter().find_map(|twin| {
            check(&cs, &net, twin, &cs.build(twin), &scheme, &mut r, false)
                .or_else(|e| Err(format!("{e} (a cube of rotations {:?}, pictured after it)", twin.g)))
                .and_then(|_| check(&cs, &net, &m, &cube, &scheme, &mut r, false))
                .err()
        })
    };
    match over(few + random, "pictures of cubes", one) {
        None => ctx.rep.count("pictures", (few + random) as u64),
        Some((k, e)) => {
            let alg = show_alg(&case(k).0);
            ctx.rep.violation(format!("the solved cube after {alg}: {e}"), json!({"alg": alg}));
        }
    }
    ctx.rep.count("squares_compared", 54 * (few + random) as u64);
    if ctx.rep.failed() {
        return;
    }
    record(ctx, &cs, &net, &scheme);
}

fn record(ctx: &Ctx, cs: &Cubes, net: &Net, scheme: &[Rgb; 6]) {
    let mut tr = Tracer::new(&ctx.args, "TraceNet", "pictures", json!({"N": 3}));
    let mut r = Sm::new(ctx.args.seed, 2121);
    let event = |e: Value, c: &Cube3| -> Result<Value, String> {
        let (sq, sheet) = guarded(|| look(c, net, scheme))??;
        let mut e = e;
        e["squares"] = json!(sq);
        e["sheet"] = json!(sheet);
        Ok(e)
    };
    let segments = if ctx.args.thorough { 200 } else { 40 };
    let mut go = || -> Result<(), String> {
        for s in 0..segments {
            let mut c = Cube3::SOLVED;
            if s % 2 == 0 {
                tr.push(event(json!({"e": "reset"}), &c)?);
            } else {
                c = cs.build(&cs.random(&mut r, 30));
                let obs = cs.proj.observe(cs.s, &c)?;
                tr.push(event(json!({"e": "given", "obs": obs}), &c)?);
            }
            for _ in 0..20 {
                let t = Turn { face: r.below(6), amount: 1 + r.below(3), depth: 0 };
                c.apply(&axis_move(t));
                tr.push(event(json!({"e": "turn", "f": FACE_SIGNED[t.face], "a": t.amount}), &c)?);
            }
            tr.segments += 1;
        }
        Ok(())
    };
    if let Err(e) = go() {
        ctx.rep.violation(format!("while recording pictures: {e}"), json!({}));
    }
    ctx.rep.sample(json!({"turned": "R", "picture": show_sheet(&{
        let mut m = Model::solved(cs.s);
        m.turn(&ctx.t, cs.s, Turn { face: 0, amount: 1, depth: 0 });
        net.sheet(&net.squares(cs.s, &m))
    })}));
    tr.finish(&ctx.rep);
}
