//! C29: the hash builder a map was given is the one it keeps and the only one it uses.
use crate::driver::*;
use crate::exec::*;
use crate::items::*;
use crate::ops::*;
use crate::props_cap::*;
use crate::props_iter::*;
use crate::props_misc::*;
use crate::tree::*;
use proptest::prelude::*;

pub struct C29;
impl Prop for C29 {
    type Case = AnyProbe;
    const ID: &'static str = "C29";
    const RULE: &'static str = "a map is made with a hash builder that has an identity, a random mode and seed; a random history runs on it and after every call hasher() must return that builder (identity, mode, seed) and no other builder may have been consulted. Then the map is cloned, cloned into a map with another builder, compared with a map of equal content under another builder, taken with mem::take and (CycleMap) rebuilt from its serialized form, and the history goes on on each of these: clones use a clone of the builder, taken and deserialized maps one from Default. Non-trivial: >=3 items stored when the copies were made and >=3 calls changed the map";
    fn cases(t: Tier) -> u64 {
        t.pick(120_000, 3_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(2, 3, 3, t.pick(20, 40), 24, 8)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        match c {
            AnyProbe::C(p) => c29::<CF>(p, cx, Some(&|m, cx| serde_back(m, cx))),
            AnyProbe::P(p) => c29::<PF>(p, cx, None),
            AnyProbe::G(p) => c29::<GF>(p, cx, None),
        }
    }
}
type Extra<'a, F> = Option<&'a dyn Fn(&Ex<F, Hw>, &mut Ctx) -> Res<<F as Fam>::Map<Hw>>>;

fn same_builder(what: &str, got: &Hw, want: (u8, &H)) -> Res {
    if got.id != want.0 || got.h != *want.1 {
        return Err(format!("{what}: hasher() returns builder {} {:?}, expected builder {} {:?}", got.id, got.h, want.0, want.1));
    }
    Ok(())
}
/// Runs operations on a map that must keep using builder `id`.
fn go<F: Fam>(ex: &mut Ex<F, Hw>, ops: &[Op<F::K>], who: &str, id: u8, h: &H) -> Res<Option<usize>> {
    let quiet = Chk { ret: false, tags: false, obs: false };
    let mut changed = 0;
    same_builder(who, F::hasher(&ex.map), (id, h))?;
    for o in ops {
        let before = ex.m.clone();
        let c = ex.call(o);
        uses_reset();
        if ex.run(&c, quiet).is_err() {
            return Ok(None);
        }
        let what = format!("{who} after {}", show::<F>(&c));
        same_builder(&what, F::hasher(&ex.map), (id, h))?;
        let (_, others) = uses(id);
        if others != 0 {
            return Err(format!("{what}: {others} hashes were computed by another builder than the map's own"));
        }
        changed += (before != ex.m) as usize;
    }
    uses_reset();
    let ok = ex.observe(id != 0, false).is_ok() || ex.state_ok();
    if uses(id).1 != 0 {
        return Err(format!("{who}: {} hashes of a lookup or iteration were computed by another builder than the map's own", uses(id).1));
    }
    Ok(ok.then_some(changed))
}
fn c29<F: CapFam>(p: &Probe<F::K>, cx: &mut Ctx, extra: Extra<'_, F>) -> Res
where
    F::M: Clone,
{
    let mut p = p.clone();
    p.base.raw = false;
    // modes that the model's histories can afford; the default builder's own mode is irrelevant here
    let mode = p.base.hasher % 7;
    DEFMODE.with(|d| d.set((p.x >> 24) as u8 % 7));
    let seed = (p.x as u64) << 20 | 7;
    let mk = |id: u8, mode: u8| Hw::make(mode, (id as u64) << 56 | (seed ^ ((id as u64) << 40)));
    let (a, b) = (mk(1, mode), mk(2, (p.y >> 8) as u8 % 7));
    let (ha, hb) = (a.h.clone(), b.h.clone());
    uses_reset();
    let Ok(mut ex) = Ex::<F, Hw>::with(&p.base, a, p.base.cap as usize) else { return Ok(()) };
    if uses(1).1 != 0 {
        return Err(format!("{} hashes of the prefill were computed by another builder than the map's own", uses(1).1));
    }
    cx.label(F::NAME);
    let r = (|| {
        let Some(changed) = go(&mut ex, &p.base.ops, "the map", 1, &ha)? else { return Ok(()) };
        cx.nontrivial = F::msize(&ex.m) >= 3 && changed >= 3;
        let copy = |map, ex: &Ex<F, Hw>| Ex::<F, Hw> { map, m: ex.m.clone(), dom: ex.dom, trace: vec![], raw: false };
        // a copy goes through the tail, its steps are part of the trace
        let tail = |mut e: Ex<F, Hw>, who: &str, id: u8, h: &H, ex: &mut Ex<F, Hw>| -> Res {
            // deserialized instances are new ones
            let tags = id != 0;
            if e.observe(tags, false).is_err() && !e.state_ok() {
                // what is stored is decided elsewhere, unless it is this map's builder that does not fit
                return Err(format!("{who}: lookups, iterators and pairing tests all disagree with the content it was given"));
            }
            let r = go(&mut e, &p.tail, who, id, h);
            ex.trace.push(format!("[{who}]"));
            ex.trace.append(&mut e.trace);
            let got = r?;
            if got.is_none() {
                return Ok(());
            }
            e.observe(tags, false).map_err(|x| format!("{who}: {x}"))
        };
        if ex.observe(true, true).is_err() {
            return Ok(());
        }
        let c = guard(|| F::clone_map(&ex.map))?;
        tail(copy(c, &ex), "a clone", 1, &ha, &mut ex)?;
        // into a map with another builder and other content
        let mut to = F::make((p.y % 20) as usize, b.clone());
        let mut scratch = F::M::default();
        for i in 0..(p.y >> 4) % 5 {
            F::fill(&mut to, &mut scratch, i as u16, (i * 3 % 5) as u16);
        }
        guard(|| F::clone_from_map(&mut to, &ex.map))?;
        tail(copy(to, &ex), "a map cloned into", 1, &ha, &mut ex)?;
        // the same content under another builder
        let mut same = F::make(0, b);
        F::rebuild(&mut same, &ex.m, p.y as u64);
        let e = copy(same, &ex);
        if e.state_ok() && !(F::eq_map(&ex.map, &e.map) && F::eq_map(&e.map, &ex.map)) {
            return Err("maps of equal content under different hash builders are not equal".into());
        }
        tail(e, "the map of equal content under another builder", 2, &hb, &mut ex)?;
        if let Some(f) = extra {
            let d = f(&ex, cx)?;
            tail(copy(d, &ex), "the deserialized map", 0, &H::default(), &mut ex)?;
        }
        // take leaves a default map behind
        let taken = F::take(&mut ex.map);
        let t = copy(taken, &ex);
        ex.m = F::M::default();
        let e = copy(F::take(&mut ex.map), &ex);
        tail(t, "the map taken out", 1, &ha, &mut ex)?;
        tail(e, "the map left behind by take", 0, &H::default(), &mut ex)
    })();
    DEFMODE.with(|d| d.set(0));
    cx.trace = std::mem::take(&mut ex.trace);
    r
}
fn serde_back(ex: &Ex<CF, Hw>, cx: &mut Ctx) -> Res<cycle_map::CycleMap<L, R, Hw>> {
    cx.label("serde");
    let s = serde_json::to_string(&ex.map).map_err(|e| format!("serialize: {e}"))?;
    // keys and tags travel in the items' own form
    uses_reset();
    let m = serde_json::from_str(&s).map_err(|e| format!("deserialize: {e}"))?;
    if uses(0).1 != 0 {
        return Err("deserializing consulted a builder that is not from Default".into());
    }
    let _ = T::U;
    Ok(m)
}
