//! C32: what the maps hold in memory, seen by the global allocator.
use crate::driver::*;
use crate::exec::*;
use crate::items::*;
use crate::ops::*;
use crate::props_cap::*;
use crate::props_hist::*;
use crate::props_iter::*;
use proptest::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
}
pub struct Count;
fn add(n: i64) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n));
}
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
}
/// Bytes this thread has allocated and not freed.
fn bytes() -> i64 {
    BYTES.with(|b| b.get())
}

pub struct C32;
impl Prop for C32 {
    type Case = AnyProbe;
    const ID: &'static str = "C32";
    const RULE: &'static str = "a random history builds one of the maps, then a random list of up to 10 operations is repeated 40 times, while every byte the process allocates and frees is counted. After each round the map holds at most 1024 bytes + twice what an empty map with the largest capacity it advertised holds (plus, in a GroupMap, for every right item 128 bytes + 96 per member of the largest group it has had); without reserve calls the capacity stays within 8 times the largest number of items; lookups, iteration, Debug, == and formatting leave the bytes held exactly as they were; a clone, a clone_from and what shrink_to and shrink_to_fit leave behind hold no more than 1.25 times what the original or a new map of the same contents does, + 256; and when the map is dropped (whole, drained, cleared or taken) everything is freed to the byte. Non-trivial: >=3 items were stored and the map had memory";
    fn cases(t: Tier) -> u64 {
        t.pick(96_000, 1_500_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(2, 3, 2, t.pick(16, 40), 14, 10)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        match c {
            AnyProbe::C(p) => bld!(p.base.hasher, S => c32::<CF, S>(p, cx)),
            AnyProbe::P(p) => bld!(p.base.hasher, S => c32::<PF, S>(p, cx)),
            AnyProbe::G(p) => bld!(p.base.hasher, S => c32::<GF, S>(p, cx)),
        }
    }
}
const ROUNDS: usize = 40;
/// The calls of a case, resolved beforehand so that nothing but the map allocates while they run.
struct Script<F: Fam> {
    base: Vec<Call<F::K>>,
    rounds: Vec<Vec<Call<F::K>>>,
    /// Items stored at most so far, at the end of each round.
    peak: Vec<usize>,
    /// What the groups may need in bytes, at the end of each round.
    groups: Vec<i64>,
    m: F::M,
}
/// The largest group each right item that is there has had since it was inserted.
#[derive(Default)]
struct Groups(std::collections::BTreeMap<u16, usize>);
impl Groups {
    fn see<F: Fam>(&mut self, m: &F::M, extra: usize) {
        if F::NAME != "GroupMap" {
            return;
        }
        let mut now = std::collections::BTreeMap::<u16, usize>::new();
        for (l, r) in F::entries(m) {
            if let Some(r) = r {
                *now.entry(r.0).or_default() += l.is_some() as usize;
            }
        }
        for (r, n) in now.iter_mut() {
            *n = (*n).max(self.0.get(r).copied().unwrap_or(0)) + extra;
        }
        self.0 = now;
    }
    /// A set of n ids (16 bytes each) has up to 4.6n + 4 slots, with one more byte for each and 16 more.
    fn bytes(&self) -> i64 {
        self.0.values().map(|n| 128 + 96 * *n as i64).sum()
    }
}
fn items<F: Fam>(m: &F::M) -> (usize, usize) {
    let e = F::entries(m);
    let l = e.iter().filter(|x| x.0.is_some()).map(|x| x.0.unwrap().0).collect::<std::collections::BTreeSet<_>>().len();
    let r = e.iter().filter(|x| x.1.is_some()).map(|x| x.1.unwrap().0).collect::<std::collections::BTreeSet<_>>().len();
    (l, r)
}
fn c32<F: CapFam, S: Bld>(p: &Probe<F::K>, cx: &mut Ctx) -> Res
where
    F::M: Clone,
{
    let quiet = Chk { ret: false, tags: true, obs: false };
    // the history itself goes right
    let Some(ex) = build::<F, S>(&p.base) else { return Ok(()) };
    drop(ex);
    let mk = || S::make(p.base.hasher, p.base.hasher as u64);
    let none = Hist { ops: vec![], ..p.base.clone() };
    let mut ex = Ex::<F, S>::new(&none)?;
    let mut s = Script::<F> { base: vec![], rounds: vec![], peak: vec![], groups: vec![], m: F::M::default() };
    let (mut peak, mut reserves) = (F::msize(&ex.m), false);
    let mut gr = Groups::default();
    gr.see::<F>(&ex.m, 0);
    {
        let mut go = |ex: &mut Ex<F, S>, o: &Op<F::K>, gr: &mut Groups| -> Res<Call<F::K>> {
            let c = ex.call(o);
            ex.run(&c, quiet)?;
            ex.trace.clear();
            let (l, r) = items::<F>(&ex.m);
            // an operation may store its items before it removes others
            peak = peak.max(l + r + 2 + 2 * c.list.len());
            gr.see::<F>(&ex.m, c.list.len());
            reserves |= F::kname(c.k).contains("eserve");
            Ok(c)
        };
        for o in &p.base.ops {
            let Ok(c) = go(&mut ex, o, &mut gr) else { return Ok(()) };
            s.base.push(c);
        }
        for _ in 0..if p.tail.is_empty() { 0 } else { ROUNDS } {
            let mut cs = vec![];
            for o in &p.tail {
                let Ok(c) = go(&mut ex, o, &mut gr) else { return Ok(()) };
                cs.push(c);
            }
            s.rounds.push(cs);
            s.peak.push(0);
            s.groups.push(gr.bytes());
        }
    }
    s.peak.iter_mut().for_each(|x| *x = peak);
    if !ex.state_ok() {
        return Ok(());
    }
    s.m = ex.m.clone();
    drop(ex);
    // once without looking, so that the harness has what it needs
    measure::<F, S>(p, &s, &mk, peak, reserves).0.ok();
    ledger_reset();
    let (r, held, what) = measure::<F, S>(p, &s, &mk, peak, reserves);
    cx.trace = vec![
        format!("{} hasher={} capacity={} prefill={} domain={}", F::NAME, mode_name(p.base.hasher), p.base.cap, p.base.fill, p.base.dom),
        s.base.iter().map(|c| show::<F>(c)).collect::<Vec<_>>().join("; "),
        format!("{} rounds of: {}", s.rounds.len(), s.rounds.first().map(|r| r.iter().map(|c| show::<F>(c)).collect::<Vec<_>>().join("; ")).unwrap_or_default()),
        format!("{held} bytes held at most; then {what}"),
    ];
    cx.label(F::NAME);
    cx.label(what);
    cx.nontrivial = F::msize(&s.m) >= 3 && held > 0;
    r
}
fn measure<F: CapFam, S: Bld>(p: &Probe<F::K>, s: &Script<F>, mk: &dyn Fn() -> S, peak: usize, reserves: bool) -> (Res, i64, &'static str) {
    let start = bytes();
    let mut held = 0;
    let end = ["drop", "clear, drop", "drain partly, drop", "take, drop both", "clone, drop both", "clone_from, drop both", "shrink_to_fit, drop", "read, drop", "shrink_to, drop"][p.y as usize % 9];
    let r = guard(|| held_by::<F, S>(p, s, mk, peak, reserves, end, start, &mut held));
    match r {
        Err(_) => (Ok(()), held, end), // other checks report panics
        Ok(Err(e)) => (Err(e), held, end),
        Ok(Ok(())) => {
            let leak = bytes() - start;
            if leak != 0 {
                return (Err(format!("after {end}: {leak} bytes that the map allocated were not freed")), held, end);
            }
            (Ok(()), held, end)
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn held_by<F: CapFam, S: Bld>(p: &Probe<F::K>, s: &Script<F>, mk: &dyn Fn() -> S, peak: usize, reserves: bool, end: &str, start: i64, most: &mut i64) -> Res {
    let mut map: F::Map<S> = F::make(p.base.cap as usize, mk());
    {
        let mut m = F::M::default();
        let dom = p.base.dom.max(1);
        for i in 0..p.base.fill.min(dom) {
            let l = (i as u32 * 5 + 1) % dom as u32;
            let r = (i as u32 * 3 + 2) % dom as u32;
            F::fill(&mut map, &mut m, l as u16, r as u16);
        }
    }
    let slots = |map: &F::Map<S>| {
        let c = F::caps(map);
        if c.len() == 1 { 2 * c[0] } else { c.iter().sum() }
    };
    // a table full of removed slots advertises less than it had
    let mut largest = slots(&map);
    let mut side = F::caps(&map).into_iter().max().unwrap_or(0);
    for c in &s.base {
        drop(F::exec(&mut map, c));
        largest = largest.max(slots(&map));
        side = F::caps(&map).into_iter().fold(side, usize::max);
    }
    let empty = |n: usize| {
        let b = bytes();
        let m: F::Map<S> = F::make(n, mk());
        let n = bytes() - b;
        drop(m);
        n
    };
    let (mut side_of, mut tables) = (side, empty(side));
    for (i, cs) in s.rounds.iter().enumerate() {
        for c in cs {
            drop(F::exec(&mut map, c));
            largest = largest.max(slots(&map));
            side = F::caps(&map).into_iter().fold(side, usize::max);
        }
        let b = bytes() - start;
        *most = b.max(*most);
        if side != side_of {
            (side_of, tables) = (side, empty(side));
        }
        let bound = 1024 + 2 * tables + s.groups[i];
        if b > bound {
            return Err(format!("after round {i} the map holds {b} bytes with {:?} items, capacity {:?} and never more than {side} on a side; an empty map with that capacity holds {tables} bytes and the groups need {} at most (bound {bound})", F::lens(&map), F::caps(&map), s.groups[i]));
        }
        if !reserves && largest > 2 * (8 * peak + 4 * p.base.cap as usize + 32) {
            return Err(format!("after round {i} the map has had {largest} slots, now {:?}, with {peak} items and capacity {} asked for at most", F::caps(&map), p.base.cap));
        }
    }
    let held = bytes() - start;
    *most = held.max(*most);
    match end {
        "clear, drop" => F::clear(&mut map),
        "drain partly, drop" => {
            F::drain_some(&mut map, (p.x % 5) as usize);
        }
        "take, drop both" => {
            let t = F::take(&mut map);
            if bytes() - start > held + 256 {
                return Err(format!("the map holds {held} bytes; with what mem::take leaves behind, {}", bytes() - start));
            }
            drop(map);
            drop(t);
            return Ok(());
        }
        "clone, drop both" => {
            let c = F::clone_map(&map);
            let both = bytes() - start;
            if both - held > held + held / 4 + 256 {
                return Err(format!("the map holds {held} bytes, its clone {}", both - held));
            }
            drop(map);
            drop(c);
            return Ok(());
        }
        "clone_from, drop both" => {
            let mut to: F::Map<S> = F::make((p.x % 40) as usize, mk());
            let own = bytes() - start - held;
            F::clone_from_map(&mut to, &map);
            let now = bytes() - start - held;
            let m = held.max(own);
            if now > m + m / 4 + 256 {
                return Err(format!("a map of {own} bytes holds {now} bytes after clone_from a map of {held}"));
            }
            drop(map);
            drop(to);
            return Ok(());
        }
        "shrink_to_fit, drop" | "shrink_to, drop" => {
            let k = if end == "shrink_to, drop" { (p.x % 24) as usize } else { 0 };
            let done = if end == "shrink_to, drop" {
                F::shrink(&mut map, 0, k) && F::shrink(&mut map, 1, k)
            } else {
                F::fit(&mut map)
            };
            if done {
                let now = bytes() - start;
                let (l, r) = F::lens(&map);
                let fresh = {
                    let b = bytes();
                    let mut f: F::Map<S> = F::make(l.max(r).max(k), mk());
                    F::rebuild(&mut f, &s.m, 0);
                    let n = bytes() - b;
                    drop(f);
                    n
                };
                if now > fresh + fresh / 4 + 256 {
                    return Err(format!("after {end} (minimum {k}) the map holds {now} bytes (before: {held}), a new map of the same contents {fresh}"));
                }
            }
        }
        "read, drop" => {
            drop(F::dump(&map, p.base.dom.min(24), false));
            drop(F::debug(&map, p.x % 2 == 0));
            F::eq_map(&map, &map);
            drop(F::lookups(&map, &s.m, p.base.dom, false, false));
            drop(F::iters(&map, &s.m, false));
            let now = bytes() - start;
            if now != held {
                return Err(format!("reading changed the bytes held from {held} to {now}"));
            }
        }
        _ => {}
    }
    drop(map);
    Ok(())
}
