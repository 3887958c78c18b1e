//! C32: the shared tables used by several threads at once, against Race.tla as Heard.tla
//! hears it.
use crate::cubes::*;
use crate::mus::*;
use crate::util::*;
use crate::Ctx;
use barbarosa::cube3::heuristics;
use barbarosa::cube3::mus::cache;
use serde_json::{json, Value};
use std::io::BufRead;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};
use std::time::Duration;

/// One history in this process: what each thread did and was told, by a clock they share.
pub fn race_child(ctx: &'static Ctx) {
    let c = Cubes::new(ctx).expect("projection");
    let mut line = String::new();
    std::io::stdin().lock().read_line(&mut line).unwrap();
    let q: Value = serde_json::from_str(&line).unwrap();
    let n = |k: &str| q[k].as_u64().unwrap() as usize;
    let (threads, calls, seed, swaps) = (n("threads"), n("calls"), q["seed"].as_u64().unwrap(), n("swaps"));
    let (versions, base) = (n("versions"), PathBuf::from(q["base"].as_str().unwrap()));
    let (delay, gap) = (n("delay"), n("gap"));
    let clock = AtomicU64::new(0);
    let events: Mutex<Vec<(u64, Value)>> = Mutex::new(vec![]);
    let panics: Mutex<Vec<String>> = Mutex::new(vec![]);
    let barrier = Barrier::new(threads + 1);
    let over_now = AtomicBool::new(false);
    std::thread::scope(|s| {
        // someone changes the files, never leaving one out
        {
            let (clock, events, barrier, over_now, base) = (&clock, &events, &barrier, &over_now, &base);
            let mut files = [n("edges"), n("corners")];
            s.spawn(move || {
                let mut r = Sm::new(seed, 99);
                let mut log = vec![];
                barrier.wait();
                for i in 0..swaps {
                    std::thread::sleep(Duration::from_micros(r.below(gap) as u64));
                    if over_now.load(SeqCst) {
                        break;
                    }
                    let k = r.below(2);
                    let (kind, file) = [("edges", EDGE_FILE), ("corners", CORNER_FILE)][k];
                    let v = 1 + (files[k] + r.below(versions - 1)) % versions;
                    let new = format!("new-{i}");
                    std::fs::hard_link(base.join(format!("{kind}-{v}")), &new).unwrap();
                    let at = clock.fetch_add(1, SeqCst);
                    std::fs::rename(&new, file).unwrap();
                    let then = clock.fetch_add(1, SeqCst);
                    files[k] = v;
                    log.push((at, json!({"e": "swap", "k": kind, "v": v})));
                    log.push((then, json!({"e": "swapped", "k": kind, "v": v})));
                }
                events.lock().unwrap().extend(log);
            });
        }
        let users: Vec<_> = (0..threads)
            .map(|t| {
                let (c, clock, events, panics, barrier) = (&c, &clock, &events, &panics, &barrier);
                s.spawn(move || {
                    let mut r = Sm::new(seed, t as u64);
                    let todo: Vec<_> = (0..calls)
                        .map(|i| {
                            let m = c.random(&mut r, 30);
                            // at first looks, then uses as well
                            let used = if i < 2 { r.chance(1, 4) } else { r.chance(1, 2) };
                            let spins = if i < 4 || r.chance(1, 4) { r.below(delay * 8) } else { r.below(200) };
                            (c.build(&m), c.numbers(&m), used, r.below(2), spins)
                        })
                        .collect();
                    let fallback = heuristics::mus_with_fallback(|_| OTHER);
                    let mut log = vec![];
                    barrier.wait();
                    for (cube, ix, used, way, spins) in &todo {
                        if *spins > 2000 {
                            std::thread::sleep(Duration::from_micros(*spins as u64 / 8));
                        } else {
                            (0..*spins).for_each(|_| std::hint::spin_loop());
                        }
                        let at = clock.fetch_add(1, SeqCst);
                        let said = guarded(|| match (used, way) {
                            (true, 0) => Some(cache::get_or_init(cube) as f32),
                            (true, _) => Some(heuristics::mus(cube)),
                            (false, 0) => cache::get(cube).map(|x| x as f32),
                            (false, _) => Some(fallback(cube)).filter(|x| *x != OTHER),
                        });
                        let then = clock.fetch_add(1, SeqCst);
                        log.push((at, json!({"e": "call", "t": t + 1, "op": if *used { "use" } else { "look" }, "ix": ix})));
                        match said {
                            Ok(None) => log.push((then, json!({"e": "none", "t": t + 1}))),
                            Ok(Some(v)) => log.push((then, json!({"e": "says", "t": t + 1, "v": v as i64, "frac": v.fract() != 0.0}))),
                            Err(e) => return panics.lock().unwrap().push(e),
                        }
                    }
                    events.lock().unwrap().extend(log);
                })
            })
            .collect();
        for u in users {
            u.join().unwrap();
        }
        over_now.store(true, SeqCst);
    });
    let mut ev = events.into_inner().unwrap();
    ev.sort_by_key(|e| e.0);
    let ev: Vec<Value> = ev.into_iter().map(|e| e.1).collect();
    let panics = panics.into_inner().unwrap();
    answer(json!({"events": ev, "panics": panics}));
    if !panics.is_empty() {
        return;
    }
    // then everybody at once, as fast as possible: always the same tables
    let mut line = String::new();
    std::io::stdin().lock().read_line(&mut line).unwrap();
    let q: Value = serde_json::from_str(&line).unwrap();
    let rounds = q["rounds"].as_u64().unwrap() as usize;
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let barrier = Barrier::new(threads);
    let pairs: Vec<(usize, usize)> =
        q["pairs"].as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize)).collect();
    std::thread::scope(|s| {
        for t in 0..threads {
            let (c, bad, barrier, pairs) = (&c, &bad, &barrier, &pairs);
            s.spawn(move || {
                let mut r = Sm::new(seed, 1000 + t as u64);
                let cubes: Vec<_> = (0..64).map(|_| c.random(&mut r, 30)).map(|m| (c.build(&m), c.numbers(&m))).collect();
                let fallback = heuristics::mus_with_fallback(|_| OTHER);
                barrier.wait();
                let res = guarded(|| {
                    for i in 0..rounds {
                        let (cube, ix) = &cubes[i % 64];
                        let v = match i % 7 {
                            0 => cache::get_or_init(cube) as f32,
                            1 => heuristics::mus(cube),
                            2 => fallback(cube),
                            _ => cache::get(cube).map_or(-1.0, |x| x as f32),
                        };
                        if !pairs.iter().any(|p| expected(*p, *ix) as f32 == v) {
                            return Some(format!("thread {t}, when tables {pairs:?} were in use: a cube numbered {ix:?} was given {v} (-1: nothing, {OTHER}: the other heuristic)"));
                        }
                    }
                    None
                });
                if let Some(e) = res.unwrap_or_else(Some) {
                    *bad.lock().unwrap() = Some(e);
                }
            });
        }
    });
    answer(json!({"bad": bad.into_inner().unwrap()}));
}

pub fn c32(ctx: &'static Ctx) {
    let Some(_) = Cubes::new(ctx) else { return };
    let base = PathBuf::from(&ctx.args.scratch);
    let versions = 3;
    for v in 1..=versions {
        write_version(&base, "edges", v);
        write_version(&base, "corners", v);
    }
    let mut tr = Tracer::new(&ctx.args, "TraceRace", "race", json!({}));
    let mut r = Sm::new(ctx.args.seed, 32);
    let processes = if ctx.args.thorough { 120 } else { 24 };
    for h in 0..processes {
        let dir = base.join(format!("race-{h}"));
        std::fs::create_dir_all(dir.join("mus-cache")).unwrap();
        let files = [1 + r.below(versions), 1 + r.below(versions)];
        for (kind, f, v) in [("edges", EDGE_FILE, files[0]), ("corners", CORNER_FILE, files[1])] {
            std::fs::hard_link(base.join(format!("{kind}-{v}")), dir.join(f)).unwrap();
        }
        let threads = 2 + r.below(7);
        let ask = json!({"threads": threads, "calls": 6 + r.below(12), "seed": r.next() >> 1, "versions": versions,
            "base": base, "edges": files[0], "corners": files[1], "swaps": ([0, 2, 6, 10][r.below(4)]),
            "delay": ([10, 300, 3000, 20000][r.below(4)]), "gap": ([3000, 20000, 60000][r.below(3)])});
        let mut kid = Kid::new(ctx, &dir, "race-child", None);
        let got = match kid.ask(ask.clone(), 100) {
            Ok(x) => x,
            Err(e) => {
                ctx.rep.violation(format!("{threads} threads use the tables: {e}"), json!({"asked": ask, "what": e}));
                break;
            }
        };
        if let Some(e) = got["panics"].as_array().and_then(|p| p.first()) {
            ctx.rep.violation(format!("{threads} threads use the tables: {e}"), json!({"asked": ask, "reply": got}));
            break;
        }
        tr.push(json!({"e": "start", "edges": files[0], "corners": files[1]}));
        tr.segments += 1;
        // the pairs of versions that would give every answer
        let mut pairs: Vec<(usize, usize)> = (1..=versions).flat_map(|e| (1..=versions).map(move |c| (e, c))).collect();
        let mut told = false;
        let mut pending = vec![None; threads + 1];
        let events = got["events"].as_array().unwrap();
        let mut wrong = None;
        for (i, e) in events.iter().enumerate() {
            let t = e["t"].as_u64().unwrap_or(0) as usize;
            match e["e"].as_str().unwrap() {
                "call" => {
                    let at_once = pending.iter().filter(|p| p.is_some()).count() as u64;
                    pending[t] = Some((i, told));
                    ctx.rep.max("calls_at_once", at_once + 1);
                    ctx.rep.count(if e["op"] == "use" { "uses" } else { "looks" }, 1);
                }
                "none" => {
                    let (from, knew) = pending[t].take().unwrap();
                    ctx.rep.count("looks_not_answered", 1);
                    if events[from]["op"] == "use" || knew {
                        wrong = Some(format!("thread {t} was given nothing, though tables were in use before it called: {}", events[from]));
                    }
                }
                "says" => {
                    let (from, _) = pending[t].take().unwrap();
                    let ix: [usize; 3] = std::array::from_fn(|k| events[from]["ix"][k].as_u64().unwrap() as usize);
                    pairs.retain(|p| expected(*p, ix) as i64 == e["v"].as_i64().unwrap());
                    if pairs.is_empty() || e["frac"] == true {
                        wrong = Some(format!("thread {t} was told {}, which no tables that fit all earlier answers give: {}", e["v"], events[from]));
                    }
                    told = true;
                }
                "swap" => ctx.rep.count(if told { "swaps_after_loading" } else { "swaps_before_or_during_loading" }, 1),
                _ => {}
            }
            let mut e = e.clone();
            e.as_object_mut().unwrap().remove("frac");
            tr.push(e);
            if wrong.is_some() {
                break;
            }
        }
        if let Some(w) = wrong {
            ctx.rep.violation(format!("{threads} threads use the tables: {w}"), json!({"asked": ask, "history": events}));
            break;
        }
        if h < 3 {
            ctx.rep.sample(json!({"threads": threads, "history": events.iter().take(14).collect::<Vec<_>>(), "tables_that_fit": pairs}));
        }
        if told {
            if pairs.iter().any(|p| *p != (files[0], files[1])) {
                ctx.rep.count("processes_with_changed_tables", 1);
            }
            let rounds = if ctx.args.thorough { 2_000_000 } else { 150_000 };
            match kid.ask(json!({"rounds": rounds, "pairs": pairs}), 200) {
                Ok(x) if x["bad"].is_null() => ctx.rep.count("answers_at_full_speed", (rounds * threads) as u64),
                Ok(x) => ctx.rep.violation(x["bad"].to_string(), json!({"asked": ask, "reply": x})),
                Err(e) => ctx.rep.violation(format!("{threads} threads use the tables in use: {e}"), json!({"asked": ask})),
            }
        }
        ctx.rep.count("processes", 1);
        drop(kid);
        std::fs::remove_dir_all(&dir).unwrap();
        if ctx.rep.failed() {
            break;
        }
    }
    tr.finish(&ctx.rep);
}
