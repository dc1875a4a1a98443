//! Shrinks a failing run and writes its replay file.

use crate::ctx::{Ctx, Fail, Over, Tier};
use crate::one_run;
use crate::props::Check;
use crate::rt;
use serde_json::{json, Value as J};
use std::time::{Duration, Instant};

struct M<'a> {
    c: &'a Check,
    tier: Tier,
    seed: u64,
    index: u64,
    root: &'a str,
    sig: &'a str,
    end: Instant,
    tries: u64,
}

impl M<'_> {
    fn exec(&mut self, over: &Over) -> Option<(Ctx, Fail)> {
        self.tries += 1;
        let mut ctx = Ctx::new(self.seed, self.index, self.tier, self.root);
        ctx.over = over.clone();
        match one_run(self.c, &mut ctx) {
            Ok(Some(f)) if f.sig == self.sig && !ctx.lost => Some((ctx, f)),
            _ => None,
        }
    }
    fn time(&self) -> bool {
        Instant::now() < self.end
    }
}

/// Removes chunks of `n` items while `test` keeps failing.
fn ddmin(n: usize, mut test: impl FnMut(&[bool]) -> bool, time: impl Fn() -> bool) -> Vec<bool> {
    let mut keep = vec![true; n];
    let mut chunk = n.div_ceil(2).max(1);
    loop {
        let mut any = false;
        let mut i = 0;
        while i < n {
            if !time() {
                return keep;
            }
            let mut t = keep.clone();
            let mut changed = false;
            for b in t[i..(i + chunk).min(n)].iter_mut() {
                changed |= *b;
                *b = false;
            }
            if changed && test(&t) {
                keep = t;
                any = true;
            }
            i += chunk;
        }
        if chunk == 1 {
            if !any {
                return keep;
            }
        } else {
            chunk = chunk.div_ceil(2);
        }
    }
}

#[allow(clippy::too_many_arguments)]
pub fn minimize(c: &Check, tier: Tier, seed: u64, index: u64, root: &str, sig: &str, file: &str, budget: u64) -> i32 {
    rt::init_worker();
    let t0 = Instant::now();
    let mut m = M { c, tier, seed, index, root, sig, end: t0 + Duration::from_secs(budget), tries: 0 };
    let mut over = Over::default();
    let Some((ctx, f)) = m.exec(&over) else { return 2 };
    let mut best = (ctx, f);
    save(c, tier, &best, &over, file, 0);
    // scenario elements
    let n = best.0.n_keep as usize;
    if n > 0 {
        let end = m.end;
        let keep = ddmin(
            n,
            |k| {
                let mut o = over.clone();
                o.drops = k.iter().enumerate().filter(|(_, b)| !**b).map(|(i, _)| i as u32).collect();
                match m.exec(&o) {
                    Some(x) => {
                        best = x;
                        true
                    }
                    None => false,
                }
            },
            || Instant::now() < end,
        );
        over.drops = keep.iter().enumerate().filter(|(_, b)| !**b).map(|(i, _)| i as u32).collect();
    }
    // knobs
    let knobs: Vec<(String, u64)> =
        best.0.knobs_used.iter().filter(|(_, (v, q))| v != q).map(|(k, (_, q))| (k.clone(), *q)).collect();
    for (k, q) in knobs {
        if !m.time() {
            break;
        }
        let mut o = over.clone();
        o.knobs.insert(k, q);
        if let Some(x) = m.exec(&o) {
            best = x;
            over = o;
        }
    }
    save(c, tier, &best, &over, file, m.tries);
    // schedules: first make them explicit, then drop decisions
    let mut o = over.clone();
    o.scheds = best.0.recorded.iter().filter(|(_, s)| !s.is_empty() && s.len() < 2 * 60_000).map(|(k, v)| (*k, v.clone())).collect();
    if !o.scheds.is_empty() && m.time() {
        if let Some(x) = m.exec(&o) {
            best = x;
            over = o;
            let ids: Vec<usize> = over.scheds.keys().copied().collect();
            for p in ids {
                let s = over.scheds[&p].clone();
                let pairs: Vec<[u64; 2]> = s.chunks(2).map(|c| [c[0], c[1]]).collect();
                let end = m.end;
                let base = over.clone();
                let with = |k: &[bool]| {
                    let mut o = base.clone();
                    o.scheds.insert(p, pairs.iter().zip(k).filter(|(_, b)| **b).flat_map(|(x, _)| x.to_vec()).collect());
                    o
                };
                let keep = ddmin(
                    pairs.len(),
                    |k| match m.exec(&with(k)) {
                        Some(x) => {
                            best = x;
                            true
                        }
                        None => false,
                    },
                    || Instant::now() < end,
                );
                over = with(&keep);
            }
        }
    }
    save(c, tier, &best, &over, file, m.tries);
    println!("minimised in {} executions, {:.1} s: {}", m.tries, t0.elapsed().as_secs_f64(), best.1.msg);
    1
}

fn save(c: &Check, tier: Tier, best: &(Ctx, Fail), over: &Over, file: &str, tries: u64) {
    let (ctx, f) = best;
    let j = json!({
        "property": c.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": format!("{:#x}", ctx.seed),
        "index": ctx.index,
        "sig": f.sig,
        "message": f.msg,
        "scenario": ctx.story,
        "dropped_elements": over.drops,
        "elements": ctx.n_keep,
        "knobs": over.knobs,
        "knobs_in_effect": ctx.knobs_used.iter().map(|(k, (v, _))| (k.clone(), *v)).collect::<std::collections::BTreeMap<_, _>>(),
        "schedules": over.scheds.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<std::collections::BTreeMap<_, _>>(),
        "run_hash": format!("{:016x}", ctx.run_hash),
        "executions_of_the_minimiser": tries,
        "replay_with": format!("/verif/check.sh replay {file}"),
    });
    std::fs::write(file, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
}

pub fn from_replay(j: &J) -> (Ctx, String) {
    let hex = j["seed"].as_str().unwrap();
    let seed = u64::from_str_radix(hex.trim_start_matches("0x"), 16).unwrap();
    let tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let mut ctx = Ctx::new(seed, j["index"].as_u64().unwrap(), tier, "");
    ctx.over.drops = j["dropped_elements"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    ctx.over.knobs = j["knobs"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap())).collect();
    for (k, v) in j["schedules"].as_object().unwrap() {
        ctx.over.scheds.insert(k.parse().unwrap(), v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect());
    }
    (ctx, j["sig"].as_str().unwrap().into())
}
