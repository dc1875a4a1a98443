//! C06: reading a damaged or truncated file returns a value or an error, never crashes.

use super::common::*;
use super::damaged::*;
use super::Check;
use crate::ctx::*;

pub const CHECK: Check = Check {
    id: "C06",
    run,
    quick: 1300,
    thorough: 60_000,
    level: "exploration",
    rule: "seeded containers (all packagings, compressions, extra packs, store kinds, layouts), created under seeded schedules and short I/O. Damage, one at a time: bytes, ranges and sectors overwritten, files cut at any length, ends zeroed, garbage appended (with or without a damaged header), beginnings or middles lost, files replaced by something else (empty, random, text, beginning or ending like a container); in 1 run of 14 every byte, in another every length of a small container in turn; 1 run in 48 has a value store, an entry store or content tables of more than 64 KiB, damaged inside. \
           After each, everything is read (as in C05), by one thread and in 1 run of 5 by several at once, under seeded schedules; read errors injected in 1 run of 8. Reading must return: a panic, abort, signal, deadlock or endless loop is a violation. Both in a release build and with jubako's debug assertions and overflow checks on. A case counts when a damage was read through; distinct by kind of damage, packaging and schema shape",
    real: "jubako creator, reader, checks, decoders (lz4, lzma, zstd), std, rayon",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (short and failing reads injected); the damage",
    assumptions: &[
        "sequentially consistent memory",
        "damage is not adversarial: no block is given a new valid CRC, no valid block is put in the place of another",
        "files do not change while they are read",
    ],
};

fn run(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng("scenario");
    let Some(s) = subject(ctx, &mut r, true)? else { return Ok(()) };
    let want = pristine(ctx, &s)?;
    let list = damages(ctx, &mut r, &s, 24, true);
    let errors = r.chance(1, 8);
    let n = chunk(&s);
    for (i, part) in list.chunks(n).enumerate() {
        let mut cfg = ctx.noise(&format!("read{i}"), if s.sweep != Sweep::No && i > 0 { 0 } else { 1 });
        cfg.p_short_read = cfg.p_short_read.min(1000);
        if errors {
            eio(ctx, &mut r, &i.to_string(), &mut cfg);
        }
        let v = each(ctx, &s, &cfg, &want, part);
        for (d, a) in part.iter().zip(v) {
            if let Some(c) = &a.crash {
                return fail(a.crash_kind, format!("{}: {c}", show(&s.img, d)));
            }
            add(ctx, &a);
            ctx.count(
                match (a.some_value, a.some_error) {
                    (true, true) => "outcome.values_and_errors",
                    (true, false) => "outcome.values_only",
                    _ => "outcome.errors_only",
                },
                1,
            );
            ctx.state(hs(shape(&s.spec), &a.what));
        }
    }
    if s.sweep != Sweep::No {
        ctx.count(&format!("sweeps.{:?}", s.sweep), 1);
    }
    ctx.sample(|| format!("{} / {}", describe(&s.spec), list.first().map(|d| show(&s.img, d)).unwrap_or_default()));
    Ok(())
}
