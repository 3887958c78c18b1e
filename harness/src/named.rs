//! C34: the algs that have names, against Named.tla.
use crate::observe::*;
use crate::tables::*;
use crate::turns::{project, rand_alg};
use crate::util::*;
use crate::Ctx;
use barbarosa::cube_n::moves::perms::{self, pll};
use barbarosa::cube_n::moves::NonRedundantAxisMove;
use barbarosa::cube_n::{AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, WideAxisMove};
use barbarosa::generic::{Alg, Movable};
use serde_json::json;

type Named = &'static Alg<AxisMove>;
fn all() -> [(&'static str, Named); 4] {
    [("sexy", &perms::SEXY_MOVE), ("T", &pll::T), ("U", &pll::U), ("J", &pll::J)]
}
fn order(name: &str) -> usize {
    match name {
        "sexy" => 6,
        "U" => 3,
        _ => 2,
    }
}
/// Ways to do an alg of plain turns.
fn plainly<C: Sut + Movable<AxisMove>>(c: &mut C, name: &str, alg: Named, back: bool, way: usize) {
    if back {
        let b = alg.reversed();
        return match way % 3 {
            0 => c.apply(&b),
            1 => c.apply(&b.normalized()),
            _ => b.moves.iter().for_each(|m| c.apply(m)),
        };
    }
    match way % 5 {
        0 => match name {
            "sexy" => c.apply(&perms::SEXY_MOVE),
            "T" => c.apply(&pll::T),
            "U" => c.apply(&pll::U),
            _ => c.apply(&pll::J),
        },
        1 => c.apply(alg),
        2 => c.apply(&alg.moves[..]),
        3 => alg.moves.iter().for_each(|m| c.apply(&NonRedundantAxisMove::from(m.clone()))),
        _ => *c = c.clone().moved(&Alg::<AxisMove>::clone(alg)),
    }
}
fn of_size<C: Sut + Movable<AxisMove>>(ctx: &'static Ctx, widened: impl Fn(&mut C, &Alg<AxisMove>, usize) -> Result<(), String>) {
    let rep = &ctx.rep;
    let Some(proj) = project::<C>(ctx) else { return };
    let s = ctx.t.size(C::SIZE);
    let mut r = Sm::new(ctx.args.seed, 3400 + C::SIZE as u64);
    let mut tr = Tracer::new(&ctx.args, "TraceNamed", &format!("named_{}", C::SIZE), json!({"N": C::SIZE}));
    let top = s.maxdepth;
    let rounds = if ctx.args.thorough { 200 } else { 24 };
    for (name, alg) in all() {
        now(format!("{name} on size {}", C::SIZE));
        let w = match guarded(|| alg.moves.iter().map(|m| json!([face_signed(&m.face), amount_no(m.amount)])).collect::<Vec<_>>()) {
            Ok(w) => w,
            Err(e) => {
                rep.violation(format!("the alg {name}: {e}"), json!({"name": name}));
                return;
            }
        };
        tr.push(json!({"e": "word", "name": name, "w": w}));
        for k in 0..rounds {
            tick();
            let (back, d) = (k % 2 == 1, k / 2 % (top + 1));
            let len = if k < 4 { 0 } else { 1 + r.below(8) };
            let pre = rand_alg(&mut r, top, len);
            let mut c = C::SOLVED;
            pre.iter().for_each(|t| c.turn(*t, 0));
            let what = format!("{name}{} widened by {d}, on size {} after {:?}", if back { " undone" } else { "" }, C::SIZE, show_alg(&pre));
            let done = guarded(|| {
                if d == 0 && k % 3 != 2 {
                    plainly(&mut c, name, alg, back, k);
                    Ok(())
                } else {
                    let a = if back { alg.reversed() } else { Alg::clone(alg) };
                    widened(&mut c, &a, d)
                }
            });
            if let Err(e) | Ok(Err(e)) = done {
                rep.violation(format!("{what}: {e}"), json!({"name": name, "size": C::SIZE}));
                continue;
            }
            match proj.observe(s, &c) {
                Ok(o) => {
                    let pre: Vec<_> = pre.iter().map(|t| t.json()).collect();
                    let e = json!({"e": "does", "name": name, "back": back, "d": d, "pre": pre, "obs": o});
                    if k == 0 {
                        rep.sample(json!({"name": name, "size": C::SIZE, "obs": o}));
                    }
                    tr.push(e);
                    rep.count("algs_done", 1);
                }
                Err(e) => rep.violation(format!("{what}: {e}"), json!({"name": name, "size": C::SIZE})),
            }
        }
        for d in 0..top + 1 {
            let mut c = C::SOLVED;
            for k in 1..2 * order(name) + 1 {
                match guarded(|| widened(&mut c, alg, d).map(|_| c.is_solved())) {
                    Ok(Ok(solved)) => tr.push(json!({"e": "again", "name": name, "d": d, "k": k, "solved": solved})),
                    Err(e) | Ok(Err(e)) => rep.violation(format!("{name} widened by {d}: {e}"), json!({"name": name, "size": C::SIZE})),
                }
            }
        }
    }
    tr.segments = 1;
    tr.finish(rep);
}
pub fn c34(ctx: &'static Ctx) {
    macro_rules! size {
        ($c:ty, $m:literal) => {
            of_size::<$c>(ctx, |c, a, d| {
                let wide: Alg<WideAxisMove<$m>> = a.clone().widen::<$m>(d as u32).map_err(|e| format!("widening by {d}: {e:?}"))?;
                c.apply(&wide);
                Ok(())
            })
        };
    }
    size!(Cube2, 0);
    size!(Cube3, 0);
    size!(Cube4, 1);
    size!(Cube5, 1);
    size!(Cube6, 2);
    size!(Cube7, 2);
}
