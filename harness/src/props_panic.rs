//! C28: panics inside the items' own code (Hash, Eq, Clone, Debug, Drop).
use crate::driver::*;
use crate::exec::*;
use crate::items::*;
use crate::ops::*;
use crate::props_cap::*;
use crate::props_hist::*;
use crate::props_iter::*;
use crate::props_misc::*;
use proptest::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct C28;
impl Prop for C28 {
    type Case = AnyProbe;
    const ID: &'static str = "C28";
    const RULE: &'static str = "a random history builds one of the maps; then one call - a group of lookups, an iteration, ==, clone, clone_from, formatting, or a random mutator - runs while the k-th evaluation of the items' Hash, Eq, Clone, Debug or Drop code panics, k random below the number of evaluations that the same call makes undisturbed. Afterwards no value is dropped twice, alive = stored (>= after a panicking Drop or an interrupted clone); an interrupted drain_filter has removed all it selects, an interrupted drain everything; after a read-only call the map is exactly as before; after a mutator clear() works and the map is then like a new one. Non-trivial: the panic happened and >=3 items were stored";
    fn cases(t: Tier) -> u64 {
        t.pick(320_000, 3_500_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(2, 3, 2, t.pick(16, 30), 14, 6)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        let r = match c {
            AnyProbe::C(p) => bld!(p.base.hasher, S => c28::<CF, S>(p, cx)),
            AnyProbe::P(p) => bld!(p.base.hasher, S => c28::<PF, S>(p, cx)),
            AnyProbe::G(p) => bld!(p.base.hasher, S => c28::<GF, S>(p, cx)),
        };
        fuse(0, 0);
        r
    }
}
const READS: &[&str] = &["lookups", "iterators", "==", "clone", "clone_from", "Debug", "pair tests"];
fn read<F: Fam, S: Bld>(ex: &Ex<F, S>, other: &F::Map<S>, which: usize) {
    match which {
        0 => drop(F::lookups(&ex.map, &ex.m, ex.dom, false, false)),
        1 => drop(F::iters(&ex.map, &ex.m, false)),
        2 => drop(F::eq_map(&ex.map, other)),
        3 => drop(F::clone_map(&ex.map)),
        4 => {
            let mut to = F::make(0, S::make(0, 0));
            let r = catch_unwind(AssertUnwindSafe(|| F::clone_from_map(&mut to, &ex.map)));
            // whatever arrived there can be dropped
            drop(to);
            if let Err(e) = r {
                std::panic::resume_unwind(e)
            }
        }
        5 => drop(F::debug(&ex.map, false)),
        _ => drop(F::pairs(&ex.map, &ex.m, ex.dom)),
    }
}
/// Alive = stored, nothing dropped twice.  A clone that is interrupted may leak what it had copied (hashbrown's
/// table does), and so may what stands behind an item whose Drop panics; there only the other direction counts.
fn settle<F: Fam, S: Bld>(map: &F::Map<S>, what: &str, clones: bool) -> Res<i64> {
    let (l, r) = F::lens::<S>(map);
    let leak = live_total() - (l + r) as i64;
    if double_drops() != 0 || leak < 0 || (leak > 0 && !clones) {
        return Err(format!("after {what}: {} items are alive, {} are stored; {} double drops", live_total(), l + r, double_drops()));
    }
    Ok(leak)
}
fn even<F: Fam, S: Bld>(map: &F::Map<S>, what: &str, leak: i64) -> Res {
    let (l, r) = F::lens::<S>(map);
    if live_total() - leak != (l + r) as i64 || double_drops() != 0 {
        return Err(format!("after {what}: {} items are alive, {} are stored ({leak} leaked earlier); {} double drops", live_total(), l + r, double_drops()));
    }
    Ok(())
}
fn c28<F: CapFam, S: Bld>(p: &Probe<F::K>, cx: &mut Ctx) -> Res
where
    F::M: Clone,
{
    let mut p = p.clone();
    p.base.raw = false;
    let kinds = match (p.x >> 1) & 7 {
        0 => K_HASH,
        1 => K_EQ,
        2 => K_CLONE | K_DEBUG,
        3 | 4 => K_DROP,
        _ => K_HASH | K_EQ | K_CLONE | K_DEBUG,
    };
    let is_read = p.tail.is_empty() || (p.x >> 4) & 3 == 0;
    let which = (p.y >> 16) as usize % READS.len();
    // the same call undisturbed: how many evaluations it makes
    let Some(mut twin) = build::<F, S>(&p.base) else { return Ok(()) };
    let n = {
        let call = (!is_read).then(|| twin.call(&p.tail[0]));
        let other = F::clone_map(&twin.map);
        fuse(0, kinds);
        let r = guard(|| match &call {
            None => read(&twin, &other, which),
            Some(c) => drop(F::exec(&mut twin.map, c)),
        });
        let n = ticks();
        fuse(0, 0);
        if r.is_err() {
            return Ok(());
        }
        n
    };
    drop(twin);
    ledger_reset();
    if n == 0 {
        return Ok(());
    }
    let k = 1 + (p.x as u64 >> 8) % n;
    with_base::<F, S>(&p, cx, |ex, p, cx| {
        let caps = F::caps(&ex.map);
        let n_items = F::msize(&ex.m);
        if is_read {
            let what = format!("{} whose {k}th evaluation of item code panics", READS[which]);
            ex.trace.push(what.clone());
            let clones = which == 3 || which == 4 || kinds == K_DROP;
            let other = F::clone_map(&ex.map);
            fuse(k, kinds);
            let r = catch_unwind(AssertUnwindSafe(|| read(ex, &other, which)));
            fuse(0, 0);
            if !planned(r).map_err(|e| format!("{what} {e}"))? {
                return Ok(());
            }
            drop(other);
            cx.label(&format!("read: {}", READS[which]));
            cx.nontrivial = n_items >= 3;
            let leak = settle::<F, S>(&ex.map, &what, clones)?;
            ex.observe(true, true).map_err(|e| format!("after {what}: {e}"))?;
            if F::caps(&ex.map) != caps {
                return Err(format!("{what} changed the capacity"));
            }
            tail_diff(ex, p.base.hasher, &p.tail)?;
            return even::<F, S>(&ex.map, "the continuation", leak);
        }
        let c = ex.call(&p.tail[0]);
        let what = format!("{} whose {k}th evaluation of item code panics", show::<F>(&c));
        ex.trace.push(what.clone());
        let clones = F::kname(c.k) == "CloneSelf" || kinds == K_DROP;
        fuse(k, kinds);
        let r = catch_unwind(AssertUnwindSafe(|| drop(F::exec(&mut ex.map, &c))));
        fuse(0, 0);
        if !planned(r).map_err(|e| format!("{what} {e}"))? {
            return Ok(());
        }
        cx.label(&format!("{}.{}", F::NAME, F::kname(c.k)));
        cx.nontrivial = n_items >= 3;
        let leak = settle::<F, S>(&ex.map, &what, clones)?;
        if kinds == K_DROP && matches!(F::kname(c.k), "DrainFilter" | "Drain") {
            // the removal is finished all the same
            let want = F::model(&mut ex.m, &c);
            drop(want);
            ex.observe(true, true).map_err(|e| format!("after {what}: {e}"))?;
        }
        let map = &mut ex.map;
        guard(|| F::clear(map)).map_err(|e| format!("clear after {what}: {e}"))?;
        even::<F, S>(&ex.map, "clear", leak)?;
        ex.m = F::M::default();
        ex.observe(true, true).map_err(|e| format!("cleared after {what}: {e}"))?;
        for o in &p.tail[1..] {
            ex.step(o, Chk { ret: true, tags: true, obs: true }).map_err(|e| format!("cleared after {what}, then {e}"))?;
        }
        even::<F, S>(&ex.map, "the continuation after clear", leak)
    })
}
