//! Conformance harness: replays behaviours of the TLA+ specification into the
//! real crate, and records traces of the real code for TLC to validate.
#[cfg(feature = "algs")]
mod algs;
#[cfg(feature = "answers")]
mod answers;
#[cfg(feature = "turns")]
mod cubes;
#[cfg(feature = "random")]
mod drawn;
#[cfg(feature = "random")]
mod estimate;
#[cfg(feature = "held")]
mod held;
#[cfg(feature = "mus")]
mod mus;
#[cfg(feature = "turns")]
mod named;
#[cfg(feature = "net")]
mod net;
#[cfg(feature = "notation")]
mod notation;
mod observe;
#[cfg(feature = "picture")]
mod picture;
#[cfg(feature = "play")]
mod play;
#[cfg(feature = "mus")]
mod race;
#[cfg(feature = "random")]
mod random;
#[cfg(feature = "random")]
mod source;
#[cfg(feature = "search")]
mod search;
#[cfg(feature = "sets")]
mod sets;
#[cfg(feature = "space")]
mod space;
mod tables;
#[cfg(feature = "turns")]
mod turns;
mod util;

use serde_json::Value;
use std::sync::atomic::Ordering;
use util::*;

pub struct Ctx {
    pub t: tables::Tables,
    pub args: Args,
    pub rep: Report,
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let args = Args {
        dir: get("--dir").expect("--dir"),
        out: get("--out").expect("--out"),
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        scratch: get("--scratch").unwrap_or_else(|| "/tmp".into()),
        extra: a.clone(),
    };
    let limit: u64 = get("--watchdog").and_then(|s| s.parse().ok()).unwrap_or(120);
    let id = a[0].clone();
    install_panic_hook();
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
        t: tables::Tables::load(&format!("{}/tables.json", args.dir)),
        args,
        rep: Report::default(),
    }));
    // A hang of the code under test is a violation, reported by the watchdog.
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p == last {
                idle += 1;
            } else {
                idle = 0;
                last = p;
            }
            if idle >= limit {
                let cur = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                ctx.rep.violation(format!("no progress for {limit} s: {cur}"), Value::String(cur.clone()));
                ctx.rep.write(&ctx.args.out);
                std::process::exit(0);
            }
        }
    });
    let r = guarded(|| match id.as_str() {
        #[cfg(feature = "turns")]
        "C01" => turns::c01(ctx),
        #[cfg(feature = "turns")]
        "C02" => turns::c02(ctx),
        #[cfg(feature = "turns")]
        "C03" => turns::c03(ctx),
        #[cfg(feature = "turns")]
        "C04" => turns::c04(ctx),
        #[cfg(feature = "turns")]
        "C05" => turns::c05(ctx),
        #[cfg(feature = "turns")]
        "C06" => turns::c06(ctx),
        #[cfg(feature = "turns")]
        "C34" => named::c34(ctx),
        #[cfg(feature = "held")]
        "C12" => held::c12(ctx),
        #[cfg(feature = "held")]
        "C13" => held::c13(ctx),
        #[cfg(feature = "held")]
        "C27" => held::c27(ctx),
        #[cfg(feature = "notation")]
        "C07" => notation::c07(ctx),
        #[cfg(feature = "notation")]
        "C08" => notation::c08(ctx),
        #[cfg(feature = "notation")]
        "C25" => notation::c25(ctx),
        #[cfg(feature = "algs")]
        "C09" => algs::c09(ctx),
        #[cfg(feature = "algs")]
        "C10" => algs::c10(ctx),
        #[cfg(feature = "algs")]
        "C11" => algs::c11(ctx),
        #[cfg(feature = "algs")]
        "C22" => algs::c22(ctx),
        #[cfg(feature = "mus")]
        "C14" => mus::c14(ctx),
        #[cfg(feature = "mus")]
        "C15" => mus::c15(ctx),
        #[cfg(feature = "mus")]
        "C16" => mus::c16(ctx),
        #[cfg(feature = "mus")]
        "C17" => mus::c17(ctx),
        #[cfg(feature = "search")]
        "C18" => search::c18(ctx),
        #[cfg(feature = "search")]
        "C19" => search::c19(ctx),
        #[cfg(feature = "search")]
        "C20" => search::c20(ctx),
        #[cfg(feature = "net")]
        "C21" => net::c21(ctx),
        #[cfg(feature = "picture")]
        "C28" => picture::c28(ctx),
        #[cfg(feature = "space")]
        "C23" => space::c23(ctx),
        #[cfg(feature = "sets")]
        "C24" => sets::c24(ctx),
        #[cfg(feature = "random")]
        "C29" => random::c29(ctx),
        #[cfg(feature = "random")]
        "C30" => random::c30(ctx),
        #[cfg(feature = "random")]
        "C31" => estimate::c31(ctx),
        #[cfg(feature = "random")]
        "C33" => drawn::c33(ctx),
        #[cfg(feature = "random")]
        "C35" => source::c35(ctx),
        #[cfg(feature = "answers")]
        "C36" => answers::c36(ctx),
        #[cfg(feature = "answers")]
        "answers-child" => answers::answers_child(ctx),
        #[cfg(feature = "play")]
        "C26" => play::c26(ctx),
        #[cfg(feature = "mus")]
        "C32" => race::c32(ctx),
        #[cfg(feature = "mus")]
        "race-child" => race::race_child(ctx),
        #[cfg(feature = "mus")]
        "heur-child" => mus::heur_child(ctx),
        #[cfg(feature = "mus")]
        "store-child" => mus::store_child(ctx),
        _ => {
            eprintln!("unknown check {id}");
            std::process::exit(3);
        }
    });
    if let Err(e) = r {
        // a panic nobody expected: of the code under test, or of the harness itself
        eprintln!("harness: {e}");
        if !e.contains("/barbarosa/") && !e.contains("/registry/") {
            std::process::exit(4);
        }
        ctx.rep.violation(format!("unexpected {e}"), Value::String(e));
    }
    ctx.rep.write(&ctx.args.out);
}
