//! C05: damaged metadata is reported, never silently decoded into different values.

use super::common::*;
use super::damaged::*;
use super::Check;
use crate::ctx::*;

pub const CHECK: Check = Check {
    id: "C05",
    run,
    quick: 1600,
    thorough: 80_000,
    level: "exploration",
    rule: "seeded containers (all packagings, compressions, extra packs, store kinds, layouts), created under seeded schedules and short I/O and read once undamaged. Then damage, one at a time: single bytes (weighted to headers, tables, tails, CRCs, locators, cluster data), several bytes, ranges and whole sectors overwritten with zeros, ones, garbage or the file's own bytes, swapped pieces, lost ends; in 1 run of 14 every byte of a small container in turn; 1 run in 48 has a value store, an entry store or content tables of more than 64 KiB, damaged inside. \
           After each, everything is read again: pack list of the manifest, indexes by name and number, entry counts, every property by the generic and the typed readers, content counts, addresses, sizes and bytes, free data, each pack on its own from file and from memory, the checks. Each answer must equal the undamaged one or be an error; content bytes may differ only if the check then fails. Read errors injected in 1 run of 8. A case counts when a damage was read through; distinct by kind of damage, packaging and schema shape",
    real: "jubako creator, reader, checks, decoders (lz4, lzma, zstd), std",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (short and failing reads injected); the damage",
    assumptions: &[
        "sequentially consistent memory",
        "damage is not adversarial: no block is given a new valid CRC, no valid block is put in the place of another",
        "a separate pack file damaged beyond recognition may be reported as a missing pack",
        "a panic or a hang is C06's business",
    ],
};

fn run(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng("scenario");
    let Some(s) = subject(ctx, &mut r, false)? else { return Ok(()) };
    let want = pristine(ctx, &s)?;
    if want.values().any(|v| v.is_err()) {
        // what cannot be read undamaged is the business of other checks
        ctx.count("pristine_errors", 1);
    }
    let mut list = damages(ctx, &mut r, &s, 24, false);
    let all = list.len();
    list.retain(|d| !s.img.unseen(d));
    if list.len() < all {
        ctx.count("a_valid_block_instead_of_another_not_read", (all - list.len()) as u64);
    }
    let errors = r.chance(1, 8);
    let n = chunk(&s);
    for (i, part) in list.chunks(n).enumerate() {
        let mut cfg = ctx.noise(&format!("read{i}"), if s.sweep != Sweep::No && i > 0 { 0 } else { 1 });
        cfg.p_short_read = cfg.p_short_read.min(1000);
        if errors {
            eio(ctx, &mut r, &i.to_string(), &mut cfg);
        }
        let v = each(ctx, &s, &cfg, &want, part);
        for (d, a) in part.iter().zip(v) {
            if let Some(w) = &a.wrong {
                return fail("different", format!("{}: {w}", show(&s.img, d)));
            }
            if a.crash.is_some() {
                ctx.count("ends_in_panic", 1);
                continue;
            }
            add(ctx, &a);
            ctx.state(hs(shape(&s.spec), &a.what));
        }
    }
    if s.sweep != Sweep::No {
        ctx.count("sweeps", 1);
    }
    ctx.sample(|| format!("{} / {}", describe(&s.spec), list.first().map(|d| show(&s.img, d)).unwrap_or_default()));
    Ok(())
}
