//! C10-C13, C23: drains, filters, retains, iterators, Debug.
use crate::driver::*;
use crate::exec::*;
use crate::items::*;
use crate::model::*;
use crate::ops::*;
use crate::props_hist::*;
use crate::tree::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::iter::FusedIterator;

/// A history that builds a map, two numbers, and a continuation.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Probe<K> {
    pub base: Hist<K>,
    pub x: u32,
    pub y: u32,
    pub tail: Vec<Op<K>>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AnyProbe {
    C(Probe<CK>),
    P(Probe<PK>),
    G(Probe<GK>),
}
pub fn probe<K: Copy + std::fmt::Debug + 'static>(w: Vec<(u32, K)>, maxops: usize, maxdom: u16, tail: usize) -> BoxedStrategy<Probe<K>> {
    let small = hist(w.clone(), maxops, maxdom);
    let big = (hist(w.clone(), maxops, maxdom), 30u16..140, 20u16..140).prop_map(|(mut h, dom, fill)| {
        h.dom = dom;
        h.fill = fill.min(dom);
        h
    });
    (widen(prop_oneof![14 => small, 1 => big].boxed()), any::<u32>(), any::<u32>(), proptest::collection::vec(op(w), 0..=tail))
        .prop_map(|(base, x, y, tail)| Probe { base, x, y, tail })
        .boxed()
}
pub fn any_probe(wc: u32, wp: u32, wg: u32, maxops: usize, maxdom: u16, tail: usize) -> BoxedStrategy<AnyProbe> {
    let mut v: Vec<(u32, BoxedStrategy<AnyProbe>)> = vec![];
    if wc > 0 {
        v.push((wc, probe(w_c(), maxops, maxdom, tail).prop_map(AnyProbe::C).boxed()));
    }
    if wp > 0 {
        v.push((wp, probe(w_p(), maxops, maxdom, tail).prop_map(AnyProbe::P).boxed()));
    }
    if wg > 0 {
        v.push((wg, probe(w_g(), maxops, maxdom, tail).prop_map(AnyProbe::G).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}
#[macro_export]
macro_rules! anyp {
    ($c:expr, $f:ident, $($arg:expr),*) => {
        match $c {
            $crate::props_iter::AnyProbe::C(p) => $crate::bld!(p.base.hasher, S => $f::<$crate::exec::CF, S>(p, $($arg),*)),
            $crate::props_iter::AnyProbe::P(p) => $crate::bld!(p.base.hasher, S => $f::<$crate::exec::PF, S>(p, $($arg),*)),
            $crate::props_iter::AnyProbe::G(p) => $crate::bld!(p.base.hasher, S => $f::<$crate::exec::GF, S>(p, $($arg),*)),
        }
    };
}
/// Builds the base; runs `f`; keeps the trace.
pub fn with_base<F: Fam, S: Bld>(
    p: &Probe<F::K>,
    cx: &mut Ctx,
    f: impl FnOnce(&mut Ex<F, S>, &Probe<F::K>, &mut Ctx) -> Res,
) -> Res {
    let Some(mut ex) = build::<F, S>(&p.base) else {
        cx.label("history disagrees with the model (other checks)");
        return Ok(());
    };
    cx.label(F::NAME);
    let r = f(&mut ex, p, cx);
    cx.trace = std::mem::take(&mut ex.trace);
    r
}

pub type Entry = (Option<V>, Option<V>);
fn counts(v: &[T]) -> BTreeMap<&T, usize> {
    let mut m = BTreeMap::new();
    for t in v {
        *m.entry(t).or_insert(0) += 1;
    }
    m
}
/// `got` has nothing beyond `want` (counting repetitions); `all`: and lacks nothing.
pub fn covers(what: &str, got: &[T], want: &[T], all: bool) -> Res {
    let (g, w) = (counts(got), counts(want));
    for (t, n) in &g {
        let m = w.get(t).copied().unwrap_or(0);
        if *n > m {
            return Err(format!("{what} {t:?} {n} times, expected {m} times"));
        }
    }
    if all {
        for (t, m) in &w {
            let n = g.get(t).copied().unwrap_or(0);
            if n < *m {
                return Err(format!("{what} {t:?} {n} times, expected {m} times"));
            }
        }
    }
    Ok(())
}

/// Number of ways `use_up` knows.
pub const WAYS: u8 = 16;
pub fn way_name(way: u8) -> &'static str {
    ["collect", "fold", "for_each", "count", "last", "nth", "skip", "step_by(2)", "any", "all", "find", "position", "reduce", "partition", "by_ref.take", "max_by"][(way % WAYS) as usize]
}
/// Uses the rest of an iterator up by one of Iterator's methods.  What could be seen of it, and how many more items it
/// must have had (None: cannot tell).
pub fn use_up<I: Iterator>(mut it: I, conv: &impl Fn(I::Item) -> T, way: u8, k: usize, rem: usize) -> (Vec<T>, Option<usize>) {
    let mut v = vec![];
    let swallowed = match way % WAYS {
        0 => {
            let c: Vec<I::Item> = it.collect();
            v.extend(c.into_iter().map(conv));
            0
        }
        1 => {
            v = it.fold(v, |mut v, t| {
                v.push(conv(t));
                v
            });
            0
        }
        2 => {
            it.for_each(|t| v.push(conv(t)));
            0
        }
        3 => it.count(),
        4 => {
            v.extend(it.last().map(conv));
            return (v, None);
        }
        5 => {
            v.extend(it.nth(k).map(conv));
            let skipped = if v.is_empty() { rem } else { k };
            while let Some(t) = it.next() {
                v.push(conv(t));
            }
            skipped
        }
        6 => {
            it.skip(k).for_each(|t| v.push(conv(t)));
            k.min(rem)
        }
        7 => {
            v.extend(it.step_by(2).map(conv));
            rem / 2
        }
        8 => {
            it.any(|t| {
                v.push(conv(t));
                false
            });
            0
        }
        9 => {
            it.all(|t| {
                v.push(conv(t));
                v.len() <= k
            });
            // all stops at the first refusal
            while let Some(t) = it.next() {
                v.push(conv(t));
            }
            0
        }
        10 => {
            let mut i = 0;
            let mut passed = 0;
            let got = it.find(|_| {
                i += 1;
                if i <= k {
                    passed += 1;
                }
                i > k
            });
            v.extend(got.map(conv));
            it.for_each(|t| v.push(conv(t)));
            passed
        }
        11 => {
            let p = it.position(|t| {
                v.push(conv(t));
                v.len() > k
            });
            let want = if rem > k { Some(k) } else { None };
            if p != want {
                // shows as a wrong number of items
                return (v, Some(usize::MAX / 2));
            }
            it.for_each(|t| v.push(conv(t)));
            0
        }
        12 => {
            let l = it.reduce(|a, b| {
                v.push(conv(a));
                b
            });
            v.extend(l.map(conv));
            0
        }
        13 => {
            let mut i = 0;
            let (a, b): (Vec<I::Item>, Vec<I::Item>) = it.partition(|_| {
                i += 1;
                i % 2 == 0
            });
            v.extend(a.into_iter().chain(b).map(conv));
            0
        }
        14 => {
            for t in it.by_ref().take(k) {
                v.push(conv(t));
            }
            it.for_each(|t| v.push(conv(t)));
            0
        }
        _ => {
            let mut n = 0;
            v.extend(
                it.max_by(|_, _| {
                    n += 1;
                    std::cmp::Ordering::Less
                })
                .map(conv),
            );
            n
        }
    };
    (v, Some(swallowed))
}
/// `rem` are the items the iterator still has.
pub fn used_up(what: &str, seen: &[T], swallowed: Option<usize>, rem: &[T]) -> Res {
    covers(&format!("{what} yielded"), seen, rem, false)?;
    match swallowed {
        None if seen.is_empty() != rem.is_empty() => Err(format!("{what}: {seen:?} of {} items", rem.len())),
        Some(n) if n + seen.len() != rem.len() => Err(format!("{what}: {} items seen and {n} passed over, but {} were there", seen.len(), rem.len())),
        _ => Ok(()),
    }
}

/// What only some of the maps have.
pub trait Drains: Fam {
    /// Drains, taking `take` entries one by one and the rest in the given way.
    fn drain_by<S: Bld>(map: &mut Self::Map<S>, take: usize, way: u8, k: usize, rem: usize) -> (Vec<T>, Vec<T>, Option<usize>);
    /// The same for drain_filter.
    fn filter_by<S: Bld>(map: &mut Self::Map<S>, f: impl FnMut(T, Option<u16>, Option<u16>) -> bool, take: usize, way: u8, k: usize, rem: usize) -> (Vec<T>, Vec<T>, Option<usize>);
    fn drain<S: Bld>(map: &mut Self::Map<S>) -> impl ExactSizeIterator<Item = T> + FusedIterator;
    fn drain_filter<'a, S: Bld>(
        map: &'a mut Self::Map<S>,
        f: impl FnMut(T, Option<u16>, Option<u16>) -> bool + 'a,
    ) -> impl FusedIterator<Item = T> + 'a;
}
pub trait Caps: Fam {
    fn caps<S: Bld>(map: &Self::Map<S>) -> Vec<usize>;
}
impl Caps for CF {
    fn caps<S: Bld>(map: &Self::Map<S>) -> Vec<usize> {
        vec![map.capacity()]
    }
}
impl Caps for PF {
    fn caps<S: Bld>(map: &Self::Map<S>) -> Vec<usize> {
        vec![map.capacity_left(), map.capacity_right()]
    }
}
impl Caps for GF {
    fn caps<S: Bld>(map: &Self::Map<S>) -> Vec<usize> {
        vec![map.capacity_left(), map.capacity_right()]
    }
}
fn by<I: Iterator>(mut it: I, conv: impl Fn(I::Item) -> T, take: usize, way: u8, k: usize, rem: usize) -> (Vec<T>, Vec<T>, Option<usize>) {
    let mut ys = vec![];
    while ys.len() < take {
        match it.next() {
            Some(t) => ys.push(conv(t)),
            None => break,
        }
    }
    let (seen, n) = use_up(it, &conv, way, k, rem.saturating_sub(ys.len()));
    (ys, seen, n)
}
impl Drains for CF {
    fn drain_by<S: Bld>(map: &mut Self::Map<S>, take: usize, way: u8, k: usize, rem: usize) -> (Vec<T>, Vec<T>, Option<usize>) {
        by(map.drain(), |(l, r)| opair(Some(l.t()), Some(r.t())), take, way, k, rem)
    }
    fn filter_by<S: Bld>(map: &mut Self::Map<S>, mut f: impl FnMut(T, Option<u16>, Option<u16>) -> bool, take: usize, way: u8, k: usize, rem: usize) -> (Vec<T>, Vec<T>, Option<usize>) {
        by(map.drain_filter(move |l, r| f(opair(Some(l.t()), Some(r.t())), Some(l.key.0), Some(r.key.0))), |(l, r)| opair(Some(l.t()), Some(r.t())), take, way, k, rem)
    }
    fn drain<S: Bld>(map: &mut Self::Map<S>) -> impl ExactSizeIterator<Item = T> + FusedIterator {
        map.drain().map(|(l, r)| opair(Some(l.t()), Some(r.t())))
    }
    fn drain_filter<'a, S: Bld>(
        map: &'a mut Self::Map<S>,
        mut f: impl FnMut(T, Option<u16>, Option<u16>) -> bool + 'a,
    ) -> impl FusedIterator<Item = T> + 'a {
        map.drain_filter(move |l, r| f(opair(Some(l.t()), Some(r.t())), Some(l.key.0), Some(r.key.0)))
            .map(|(l, r)| opair(Some(l.t()), Some(r.t())))
    }
}
impl Drains for PF {
    fn drain_by<S: Bld>(map: &mut Self::Map<S>, take: usize, way: u8, k: usize, rem: usize) -> (Vec<T>, Vec<T>, Option<usize>) {
        by(map.drain(), |p| p.t(), take, way, k, rem)
    }
    fn filter_by<S: Bld>(map: &mut Self::Map<S>, mut f: impl FnMut(T, Option<u16>, Option<u16>) -> bool, take: usize, way: u8, k: usize, rem: usize) -> (Vec<T>, Vec<T>, Option<usize>) {
        by(map.drain_filter(move |p| f(p.t(), p.get_left().map(|l| l.key.0), p.get_right().map(|r| r.key.0))), |p| p.t(), take, way, k, rem)
    }
    fn drain<S: Bld>(map: &mut Self::Map<S>) -> impl ExactSizeIterator<Item = T> + FusedIterator {
        map.drain().map(|p| p.t())
    }
    fn drain_filter<'a, S: Bld>(
        map: &'a mut Self::Map<S>,
        mut f: impl FnMut(T, Option<u16>, Option<u16>) -> bool + 'a,
    ) -> impl FusedIterator<Item = T> + 'a {
        map.drain_filter(move |p| f(p.t(), p.get_left().map(|l| l.key.0), p.get_right().map(|r| r.key.0))).map(|p| p.t())
    }
}

pub fn ents<F: Fam>(m: &F::M) -> Vec<T> {
    F::entries(m).iter().map(tentry).collect()
}
/// How many items to take: all of them (one time in three), or a part.
fn take_n(x: u32, n: usize) -> usize {
    if x % 3 == 0 { usize::MAX } else { (x >> 8) as usize % (n + 1) }
}

// ---------------------------------------------------------------- C10
pub struct C10;
impl Prop for C10 {
    type Case = AnyProbe;
    const ID: &'static str = "C10";
    const RULE: &'static str = "a random history builds a CycleMap or PartialCycleMap; drain is pulled a random number of times (or to the end and beyond) and dropped, or its rest is used up by one of 16 methods of Iterator; len and size_hint are compared with the true remainder before each pull, the yielded entries with the model, afterwards every lookup, length, iterator and capacity with those of an emptied map, and a random continuation runs in lock-step with a new map. Non-trivial: >=2 entries were stored, or unpaired items were";
    fn cases(t: Tier) -> u64 {
        t.pick(250_000, 5_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(1, 2, 0, t.pick(24, 50), 16, 10)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        match c {
            AnyProbe::C(p) => bld!(p.base.hasher, S => c10::<CF, S>(p, cx)),
            AnyProbe::P(p) => bld!(p.base.hasher, S => c10::<PF, S>(p, cx)),
            AnyProbe::G(_) => Ok(()),
        }
    }
}
fn c10<F: Drains + Caps, S: Bld>(p: &Probe<F::K>, cx: &mut Ctx) -> Res {
    with_base::<F, S>(p, cx, |ex, p, cx| {
        let want = ents::<F>(&ex.m);
        let n = want.len();
        let take = take_n(p.x, n);
        let caps = F::caps(&ex.map);
        if p.y % 3 == 0 {
            // by another of Iterator's methods
            let (first, way, k) = ((p.x >> 8) as usize % (n + 1), (p.y >> 8) as u8, (p.y >> 16) as usize % (n + 2));
            let what = format!("drain, taking {first}, then {} ({k})", way_name(way));
            ex.trace.push(what.clone());
            cx.label(way_name(way));
            let live = live_total();
            let stored = F::lens(&ex.map);
            let map = &mut ex.map;
            let (ys, seen, swallowed) = guard(|| F::drain_by(map, first, way, k, n)).map_err(|e| format!("{what} {e}"))?;
            covers("drain yielded", &ys, &want, false)?;
            if ys.len() != first {
                return Err(format!("{what}: ended after {} of {n} entries", ys.len()));
            }
            let mut rem = want.clone();
            for t in &ys {
                rem.swap_remove(rem.iter().position(|x| x == t).unwrap());
            }
            used_up(&what, &seen, swallowed, &rem)?;
            if live - live_total() != (stored.0 + stored.1) as i64 {
                return Err(format!("{what}: {} items were stored, {} dropped", stored.0 + stored.1, live - live_total()));
            }
            ex.m = F::M::default();
            ex.observe(true, false).map_err(|e| format!("after {what}: {e}"))?;
            tail_diff(ex, p.base.hasher, &p.tail)?;
            cx.nontrivial = n >= 2;
            return Ok(());
        }
        ex.trace.push(format!("drain, taking {}", if take == usize::MAX { "all".into() } else { take.to_string() }));
        let map = &mut ex.map;
        let (ys, err) = guard(|| {
            let mut ys = vec![];
            let mut err = None;
            let mut it = F::drain(map);
            loop {
                let rem = n.saturating_sub(ys.len());
                if it.len() != rem || it.size_hint() != (rem, Some(rem)) {
                    err.get_or_insert(format!("drain after {} items: len {} and size_hint {:?}, but {rem} entries remain", ys.len(), it.len(), it.size_hint()));
                }
                if ys.len() >= take || ys.len() > n + 3 {
                    break;
                }
                match it.next() {
                    Some(t) => ys.push(t),
                    None => {
                        if it.next().is_some() {
                            err.get_or_insert("an exhausted drain yielded another item".into());
                        }
                        break;
                    }
                }
            }
            (ys, err)
        })
        .map_err(|e| format!("drain {e}"))?;
        ex.trace.push(format!("yielded {ys:?}"));
        covers("drain yielded", &ys, &want, take == usize::MAX)?;
        if ys.len() < n.min(take) {
            return Err(format!("drain ended after {} of {n} entries", ys.len()));
        }
        if let Some(e) = err {
            return Err(e);
        }
        ex.m = F::M::default();
        ex.observe(true, false).map_err(|e| format!("after the drain: {e}"))?;
        let after = F::caps(&ex.map);
        if after.iter().zip(&caps).any(|(a, b)| a < b) {
            return Err(format!("capacity {after:?} after the drain, {caps:?} before"));
        }
        tail_diff(ex, p.base.hasher, &p.tail)?;
        if take != usize::MAX && take < n {
            cx.label("dropped early");
        }
        cx.nontrivial = n >= 2;
        Ok(())
    })
}

// ---------------------------------------------------------------- C11
pub struct C11;
impl Prop for C11 {
    type Case = AnyProbe;
    const ID: &'static str = "C11";
    const RULE: &'static str = "a random history builds a CycleMap or PartialCycleMap; drain_filter runs with a random (in part stateful) predicate that logs what it is offered, is pulled a random number of times (or to the end and beyond) and dropped, or its rest is used up by one of 16 methods of Iterator; offers, yields, size_hint bounds, the remaining contents and the lock-step continuation with a freshly built map are compared with the model. Non-trivial: >=3 entries, of which the predicate selected some and kept some";
    fn cases(t: Tier) -> u64 {
        t.pick(200_000, 4_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(1, 2, 0, t.pick(24, 50), 16, 10)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        match c {
            AnyProbe::C(p) => bld!(p.base.hasher, S => c11::<CF, S>(p, cx)),
            AnyProbe::P(p) => bld!(p.base.hasher, S => c11::<PF, S>(p, cx)),
            AnyProbe::G(_) => Ok(()),
        }
    }
}
pub fn stateful(y: u32, n: usize, l: Option<u16>, r: Option<u16>) -> bool {
    match (y >> 28) % 4 {
        // by call number
        0 => (mix(y as u64 + n as u64) & 3) < 1 + ((y >> 4) & 1) as u64,
        _ => pred(y, l, r),
    }
}
fn drop_entries(m: &mut PM, gone: &[Entry]) {
    for e in gone {
        m.remove_entry(e);
    }
}
fn c11<F: Drains + Fam<M = PM>, S: Bld>(p: &Probe<F::K>, cx: &mut Ctx) -> Res {
    with_base::<F, S>(p, cx, |ex, p, cx| {
        let want = ents::<F>(&ex.m);
        let n = want.len();
        let take = take_n(p.x, n);
        ex.trace.push(format!("drain_filter, taking {}", if take == usize::MAX { "all".into() } else { take.to_string() }));
        let mut offers: Vec<T> = vec![];
        let mut sel: Vec<Entry> = vec![];
        let log = std::cell::RefCell::new((&mut offers, &mut sel));
        let map = &mut ex.map;
        let m = &ex.m;
        let y = p.y;
        if (p.x >> 24) % 3 == 0 {
            // by another of Iterator's methods
            let (way, k) = ((p.x >> 26) as u8, (p.x >> 4) as usize % 6);
            let first = (p.x >> 8) as usize % 4;
            let what = format!("drain_filter, taking {first}, then {} ({k})", way_name(way));
            cx.label(way_name(way));
            // how many a predicate selects that only looks at the entry
            let y = y & !(3 << 28) | (1 << 28);
            let all: Vec<Entry> = F::entries(m).into_iter().filter(|e| stateful(y, 0, e.0.map(|v| v.0), e.1.map(|v| v.0))).collect();
            let allt: Vec<T> = all.iter().map(tentry).collect();
            let mut offers: Vec<T> = vec![];
            let o = &mut offers;
            let (ys, seen, swallowed) = guard(|| {
                F::filter_by(
                    map,
                    |t, l, r| {
                        o.push(t);
                        stateful(y, 0, l, r)
                    },
                    first,
                    way,
                    k,
                    allt.len(),
                )
            })
            .map_err(|e| format!("{what} {e}"))?;
            ex.trace.push(what.clone());
            ex.trace.push(format!("offered {offers:?}"));
            ex.trace.push(format!("yielded {ys:?}, then {seen:?}"));
            covers("the closure was offered", &offers, &want, true)?;
            covers("drain_filter yielded", &ys, &allt, false)?;
            if ys.len() != first.min(allt.len()) {
                return Err(format!("{what}: ended after {} of {} entries", ys.len(), allt.len()));
            }
            let mut rem = allt.clone();
            for t in &ys {
                rem.swap_remove(rem.iter().position(|x| x == t).unwrap());
            }
            used_up(&what, &seen, swallowed, &rem)?;
            drop_entries(&mut ex.m, &all);
            let (l, r) = F::lens(&ex.map);
            if live_total() != (l + r) as i64 {
                return Err(format!("{what}: {} items are stored, {} alive", l + r, live_total()));
            }
            ex.observe(true, true).map_err(|e| format!("after {what}: {e}"))?;
            tail_diff(ex, p.base.hasher, &p.tail)?;
            cx.nontrivial = n >= 3 && !all.is_empty() && all.len() < n;
            return Ok(());
        }
        let (ys, hints, err) = guard(|| {
            let mut ys: Vec<T> = vec![];
            let mut hints = vec![];
            let mut err = None;
            let mut it = F::drain_filter(map, |t, l, r| {
                let mut g = log.borrow_mut();
                let b = stateful(y, g.0.len(), l, r);
                g.0.push(t);
                if b {
                    g.1.push((l.and_then(|k| m.l.get(&k).map(|v| (k, v.0))), r.and_then(|k| m.r.get(&k).map(|v| (k, v.0)))));
                }
                b
            });
            loop {
                hints.push(it.size_hint());
                if ys.len() >= take || ys.len() > n + 3 {
                    break;
                }
                match it.next() {
                    Some(t) => ys.push(t),
                    None => {
                        let k = log.borrow().0.len();
                        if it.next().is_some() {
                            err.get_or_insert("an exhausted drain_filter yielded another item".into());
                        }
                        if log.borrow().0.len() != k {
                            err.get_or_insert("an exhausted drain_filter offered another entry".into());
                        }
                        break;
                    }
                }
            }
            (ys, hints, err)
        })
        .map_err(|e| format!("drain_filter {e}"))?;
        ex.trace.push(format!("offered {offers:?}"));
        ex.trace.push(format!("yielded {ys:?}"));
        covers("the closure was offered", &offers, &want, true)?;
        let selt: Vec<T> = sel.iter().map(tentry).collect();
        covers("drain_filter yielded", &ys, &selt, take == usize::MAX)?;
        if let Some(e) = err {
            return Err(e);
        }
        for (i, (lo, hi)) in hints.iter().enumerate() {
            let rem = selt.len() - i.min(selt.len());
            if *lo > rem || hi.map_or(false, |h| h < rem) {
                return Err(format!("size_hint ({lo}, {hi:?}) after {i} items, but {rem} selected entries remained"));
            }
        }
        if ys.len() < selt.len().min(take) {
            return Err(format!("drain_filter ended after {} of {} selected entries", ys.len(), selt.len()));
        }
        drop_entries(&mut ex.m, &sel);
        ex.observe(true, true).map_err(|e| format!("after drain_filter: {e}"))?;
        tail_diff(ex, p.base.hasher, &p.tail)?;
        cx.nontrivial = n >= 3 && !sel.is_empty() && sel.len() < n;
        if take < selt.len() {
            cx.label("dropped early");
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C12
pub struct C12;
impl Prop for C12 {
    type Case = AnyProbe;
    const ID: &'static str = "C12";
    const RULE: &'static str = "a random history builds one of the maps; up to three retain calls (of the kinds the map has) run with random logging predicates, each followed by a comparison of offers and of all lookups and iterators with the model; a random continuation then runs in lock-step with a freshly built map of the same contents. Non-trivial: a retain dropped some and kept some of >=3 entries";
    fn cases(t: Tier) -> u64 {
        t.pick(150_000, 3_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(1, 2, 2, t.pick(24, 50), 16, 10)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        match c {
            AnyProbe::C(p) => bld!(p.base.hasher, S => c12::<CF, S>(p, &[CK::Retain], cx)),
            AnyProbe::P(p) => bld!(p.base.hasher, S => c12::<PF, S>(p, &[PK::Retain, PK::RetainPaired, PK::RetainUnpaired], cx)),
            AnyProbe::G(p) => bld!(p.base.hasher, S => c12::<GF, S>(p, &[GK::RetainPaired, GK::RetainUnpaired], cx)),
        }
    }
}
fn c12<F: Fam, S: Bld>(p: &Probe<F::K>, kinds: &[F::K], cx: &mut Ctx) -> Res {
    with_base::<F, S>(p, cx, |ex, p, cx| {
        let times = 1 + p.x % 3;
        for i in 0..times {
            let k = kinds[((p.x >> (2 + 2 * i)) as usize) % kinds.len()];
            let n = F::entries(&ex.m).len();
            let s0 = F::msize(&ex.m);
            let z = Sel(0, 0);
            let o = Op { k, a: z, b: z, c: z, x: p.y.rotate_left(11 * i) };
            cx.label(F::kname(k));
            ex.step(&o, Chk { ret: true, tags: true, obs: true })?;
            let s1 = F::msize(&ex.m);
            cx.nontrivial |= n >= 3 && s1 < s0 && s1 > 0;
        }
        ex.observe(true, true)?;
        tail_diff(ex, p.base.hasher, &p.tail)
    })
}

// ---------------------------------------------------------------- C13
pub struct C13;
impl Prop for C13 {
    type Case = AnyProbe;
    const ID: &'static str = "C13";
    const RULE: &'static str = "a random history builds one of the maps; each of its iterators (get_left_iter for every right item too) is stepped to the end, with len and size_hint compared with the true remainder at every position, clones taken at random positions and run to their end, and next called again after the end; count, last, nth and fold, and at two random positions one of 16 methods of Iterator, must agree with stepping. The items must be the model's, each once. Non-trivial: >=3 entries, paired and (for the partial and group map) unpaired ones";
    fn cases(t: Tier) -> u64 {
        t.pick(250_000, 5_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(1, 2, 2, t.pick(24, 50), 14, 0)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        match c {
            AnyProbe::C(p) => bld!(p.base.hasher, S => c13_c::<S>(p, cx)),
            AnyProbe::P(p) => bld!(p.base.hasher, S => c13_p::<S>(p, cx)),
            AnyProbe::G(p) => bld!(p.base.hasher, S => c13_g::<S>(p, cx)),
        }
    }
}
fn check_iter<I>(what: &str, make: impl Fn() -> I, conv: impl Fn(I::Item) -> T, want: Vec<T>, x: u32) -> Res
where
    I: Iterator + ExactSizeIterator + FusedIterator + Clone,
{
    guard(|| check_iter_in(what, make, conv, want, x)).unwrap_or_else(|e| Err(format!("{what} {e}")))
}
fn check_iter_in<I>(what: &str, make: impl Fn() -> I, conv: impl Fn(I::Item) -> T, want: Vec<T>, x: u32) -> Res
where
    I: Iterator + ExactSizeIterator + FusedIterator + Clone,
{
    let n = want.len();
    let mut it = make();
    let mut got: Vec<T> = vec![];
    let c1 = x as usize % (n + 1);
    let c2 = (x >> 8) as usize % (n + 1);
    let mut clones: Vec<(usize, Vec<T>)> = vec![];
    let mut ways = vec![];
    loop {
        let i = got.len();
        let rem = n.saturating_sub(i);
        if it.len() != rem {
            return Err(format!("{what}: len() is {} after {i} items, but {rem} remain", it.len()));
        }
        if it.size_hint() != (rem, Some(rem)) {
            return Err(format!("{what}: size_hint() is {:?} after {i} items, but {rem} remain", it.size_hint()));
        }
        if i == c1 || i == c2 {
            let cl = it.clone();
            if cl.len() != rem || cl.size_hint() != (rem, Some(rem)) {
                return Err(format!("{what}: a clone after {i} items has len {} and size_hint {:?}, but {rem} remain", cl.len(), cl.size_hint()));
            }
            clones.push((i, cl.take(n + 8).map(&conv).collect()));
            let way = (x >> 20) as u8 ^ (i as u8).wrapping_mul(7);
            let k = (x >> 13) as usize % (rem + 2);
            ways.push((i, way, k, use_up(it.clone(), &conv, way, k, rem)));
        }
        match it.next() {
            Some(t) => got.push(conv(t)),
            None => break,
        }
        if got.len() > n + 8 {
            break;
        }
    }
    for _ in 0..3 {
        if got.len() <= n && it.next().is_some() {
            return Err(format!("{what}: an item after the end"));
        }
    }
    covers(&format!("{what} yielded"), &got, &want, true)?;
    for (i, c) in &clones {
        covers(&format!("{what}: a clone taken after {i} items yielded"), c, &got[*i..], true)?;
    }
    for (i, way, k, (seen, swallowed)) in &ways {
        used_up(&format!("{what} after {i} items: {} ({k})", way_name(*way)), seen, *swallowed, &got[*i..])?;
    }
    let cnt = make().count();
    if cnt != n {
        return Err(format!("{what}: count() is {cnt}, but there are {n} items"));
    }
    // the table is not changed in between, so a second iterator has the same order
    let last = make().last().map(&conv);
    if last.is_none() != want.is_empty() || last.as_ref().map_or(false, |t| !want.contains(t)) {
        return Err(format!("{what}: last() is {last:?}"));
    }
    let k = (x >> 16) as usize % (n + 2);
    let mut it = make();
    let nth = it.nth(k).map(&conv);
    let mut rest: Vec<T> = it.take(n + 8).map(&conv).collect();
    if nth.is_some() != (k < n) {
        return Err(format!("{what}: nth({k}) of {n} items is {nth:?}"));
    }
    if rest.len() != n.saturating_sub(k + 1) {
        return Err(format!("{what}: {} items follow nth({k}) of {n}", rest.len()));
    }
    rest.extend(nth);
    covers(&format!("{what} with nth yielded"), &rest, &want, false)?;
    let folded = make().fold(vec![], |mut v, t| {
        v.push(conv(t));
        v
    });
    covers(&format!("{what} with fold yielded"), &folded, &want, true)
}
fn c13_c<S: Bld>(p: &Probe<CK>, cx: &mut Ctx) -> Res {
    with_base::<CF, S>(p, cx, |ex, p, cx| {
        let (m, map) = (&ex.m, &ex.map);
        let es = ents::<CF>(m);
        cx.nontrivial = es.len() >= 3;
        check_iter("iter()", || map.iter(), |(l, r)| opair(Some(l.t()), Some(r.t())), es, p.x)?;
        check_iter("iter_left()", || map.iter_left(), |l| l.t(), m.l.iter().map(|(k, v)| tl((*k, v.0))).collect(), p.y)?;
        check_iter("iter_right()", || map.iter_right(), |l| l.t(), m.r.iter().map(|(k, v)| tr((*k, v.0))).collect(), p.y ^ p.x)
    })
}
fn c13_p<S: Bld>(p: &Probe<PK>, cx: &mut Ctx) -> Res {
    with_base::<PF, S>(p, cx, |ex, p, cx| {
        let (m, map) = (&ex.m, &ex.map);
        let es = m.entries();
        let (pa, un): (Vec<Entry>, Vec<Entry>) = es.iter().partition(|e| e.0.is_some() && e.1.is_some());
        cx.nontrivial = es.len() >= 3 && !pa.is_empty() && un.iter().any(|e| e.0.is_none()) && un.iter().any(|e| e.1.is_none());
        let t = |v: &[Entry]| -> Vec<T> { v.iter().map(tentry).collect() };
        check_iter("iter()", || map.iter(), |p| p.t(), t(&es), p.x)?;
        check_iter("iter_paired()", || map.iter_paired(), |(l, r)| opair(Some(l.t()), Some(r.t())), t(&pa), p.x ^ p.y)?;
        check_iter("iter_unpaired()", || map.iter_unpaired(), |p| p.t(), t(&un), p.y)?;
        check_iter("iter_left()", || map.iter_left(), |l| l.t(), m.l.iter().map(|(k, v)| tl((*k, v.0))).collect(), p.y)?;
        check_iter("iter_right()", || map.iter_right(), |l| l.t(), m.r.iter().map(|(k, v)| tr((*k, v.0))).collect(), p.y ^ p.x)
    })
}
fn c13_g<S: Bld>(p: &Probe<GK>, cx: &mut Ctx) -> Res {
    with_base::<GF, S>(p, cx, |ex, p, cx| {
        let (m, map) = (&ex.m, &ex.map);
        let es = m.entries();
        let (pa, un): (Vec<Entry>, Vec<Entry>) = es.iter().partition(|e| e.0.is_some());
        cx.nontrivial = es.len() >= 3 && !pa.is_empty() && !un.is_empty() && m.r.values().any(|g| g.1.len() >= 2);
        let t = |v: &[Entry]| -> Vec<T> { v.iter().map(tentry).collect() };
        check_iter("iter()", || map.iter(), |(l, r)| opair(l.map(|l| l.t()), Some(r.t())), t(&es), p.x)?;
        check_iter("iter_paired()", || map.iter_paired(), |(l, r)| opair(Some(l.t()), Some(r.t())), t(&pa), p.x ^ p.y)?;
        check_iter("iter_unpaired()", || map.iter_unpaired(), |r| opair(None, Some(r.t())), t(&un), p.y)?;
        check_iter("iter_left()", || map.iter_left(), |l| l.t(), m.l.iter().map(|(k, v)| tl((*k, v.0))).collect(), p.y)?;
        check_iter("iter_right()", || map.iter_right(), |l| l.t(), m.r.iter().map(|(k, v)| tr((*k, v.0))).collect(), p.y ^ p.x)?;
        for (k, (_, g)) in &m.r {
            let r = pr(*k);
            let want = g.iter().map(|x| tl(m.lv(*x))).collect();
            if guard(|| map.get_left_iter(&r).is_none())? {
                return Err(format!("get_left_iter(R{k}) is None, but R{k} is stored"));
            }
            check_iter(&format!("get_left_iter(R{k})"), || map.get_left_iter(&r).unwrap(), |l| l.t(), want, p.x.rotate_left(*k as u32))?;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C23
pub struct C23;
impl Prop for C23 {
    type Case = AnyProbe;
    const ID: &'static str = "C23";
    const RULE: &'static str = "a random history builds one of the maps; the map and each of its iterators (advanced to a random position) are formatted with {:?} and {:#?}; the item tokens are read back from the text, and the entries shown must be exactly the contents (or the remaining entries), paired as in the model; formatting twice gives the same text, and the iterator continues as if never formatted. Non-trivial: >=3 entries";
    fn cases(t: Tier) -> u64 {
        t.pick(200_000, 4_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(1, 1, 1, t.pick(20, 40), 14, 0)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        match c {
            AnyProbe::C(p) => bld!(p.base.hasher, S => c23_c::<S>(p, cx)),
            AnyProbe::P(p) => bld!(p.base.hasher, S => c23_p::<S>(p, cx)),
            AnyProbe::G(p) => bld!(p.base.hasher, S => c23_g::<S>(p, cx)),
        }
    }
}
/// Reads the item tokens; a left token directly followed by a right one inside the same brackets is a pair.
fn shown(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut toks: Vec<(T, usize, usize)> = vec![];
    let mut i = 0;
    while i < b.len() {
        if (b[i] == b'L' || b[i] == b'R') && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            let st = i;
            let side = if b[i] == b'L' { 0 } else { 1 };
            i += 1;
            let num = |stop: &mut usize| {
                let a = *stop;
                while *stop < b.len() && b[*stop].is_ascii_digit() {
                    *stop += 1;
                }
                s[a..*stop].parse::<u32>().unwrap_or(u32::MAX)
            };
            let k = num(&mut i);
            let mut t = u32::MAX;
            if i < b.len() && b[i] == b'#' {
                i += 1;
                t = num(&mut i);
            }
            toks.push((T::It(side, k as u16, t), st, i));
        } else {
            i += 1;
        }
    }
    let mut v = vec![];
    let mut j = 0;
    while j < toks.len() {
        let left = matches!(toks[j].0, T::It(0, ..));
        if left && j + 1 < toks.len() && matches!(toks[j + 1].0, T::It(1, ..)) {
            // a pair is written inside one tuple or variant: `Some(` may close in between
            let gap = &s[toks[j].2..toks[j + 1].1];
            let open = gap.matches(['(', '[', '{']).count();
            let close = gap.matches([')', ']', '}']).count();
            let some_open = s[..toks[j].1].trim_end().ends_with("Some(");
            if close == 0 || (some_open && close == 1 && open == 0) {
                v.push(opair(Some(toks[j].0.clone()), Some(toks[j + 1].0.clone())));
                j += 2;
                continue;
            }
        }
        v.push(match left {
            true => opair(Some(toks[j].0.clone()), None),
            false => opair(None, Some(toks[j].0.clone())),
        });
        j += 1;
    }
    v
}
fn check_text(what: &str, text: impl Fn(bool) -> String, want: &[T]) -> Res {
    for alt in [false, true] {
        let s = guard(|| text(alt)).map_err(|e| format!("formatting {what} {e}"))?;
        let s2 = guard(|| text(alt))?;
        if s != s2 {
            return Err(format!("formatting {what} twice gives {s} and then {s2}"));
        }
        covers(&format!("{{:?}} of {what} is {s}; it shows"), &shown(&s), want, true)?;
    }
    Ok(())
}
fn check_iter_text<I>(what: &str, make: impl Fn() -> I, conv: impl Fn(I::Item) -> T, x: u32) -> Res
where
    I: Iterator + Clone + std::fmt::Debug,
{
    let all: Vec<T> = guard(|| make().take(20_000).map(&conv).collect()).map_err(|e| format!("{what} {e}"))?;
    let n = all.len();
    for k in [0, x as usize % (n + 1), n] {
        let mut it = make();
        let mut seen: Vec<T> = vec![];
        for _ in 0..k {
            seen.extend(it.next().map(&conv));
        }
        // what a clone of the iterator has left is what must be shown
        let left: Vec<T> = it.clone().take(20_000).map(&conv).collect();
        check_text(&format!("{what} advanced by {k}"), |alt| if alt { format!("{it:#?}") } else { format!("{it:?}") }, &left)?;
        let rest: Vec<T> = it.take(20_000).map(&conv).collect();
        covers(&format!("{what}, formatted after {k} items, then yielded"), &rest, &left, true)?;
    }
    Ok(())
}
fn single(t: T) -> T {
    match t {
        T::It(0, ..) => opair(Some(t), None),
        t => opair(None, Some(t)),
    }
}
fn c23_c<S: Bld>(p: &Probe<CK>, cx: &mut Ctx) -> Res {
    with_base::<CF, S>(p, cx, |ex, p, cx| {
        let map = &ex.map;
        let es = ents::<CF>(&ex.m);
        cx.nontrivial = es.len() >= 3;
        check_text("the map", |alt| CF::debug(map, alt), &es)?;
        check_iter_text("iter()", || map.iter(), |(l, r)| opair(Some(l.t()), Some(r.t())), p.x)?;
        check_iter_text("iter_left()", || map.iter_left(), |l| single(l.t()), p.x)?;
        check_iter_text("iter_right()", || map.iter_right(), |l| single(l.t()), p.y)?;
        ex.observe(true, false).map_err(|e| format!("after formatting: {e}"))
    })
}
fn c23_p<S: Bld>(p: &Probe<PK>, cx: &mut Ctx) -> Res {
    with_base::<PF, S>(p, cx, |ex, p, cx| {
        let map = &ex.map;
        let es = ents::<PF>(&ex.m);
        cx.nontrivial = es.len() >= 3;
        check_text("the map", |alt| PF::debug(map, alt), &es)?;
        check_iter_text("iter()", || map.iter(), |p| p.t(), p.x)?;
        check_iter_text("iter_paired()", || map.iter_paired(), |(l, r)| opair(Some(l.t()), Some(r.t())), p.x)?;
        check_iter_text("iter_unpaired()", || map.iter_unpaired(), |p| p.t(), p.y)?;
        check_iter_text("iter_left()", || map.iter_left(), |l| single(l.t()), p.x)?;
        check_iter_text("iter_right()", || map.iter_right(), |l| single(l.t()), p.y)?;
        ex.observe(true, false).map_err(|e| format!("after formatting: {e}"))
    })
}
fn c23_g<S: Bld>(p: &Probe<GK>, cx: &mut Ctx) -> Res {
    with_base::<GF, S>(p, cx, |ex, p, cx| {
        let map = &ex.map;
        let es = ents::<GF>(&ex.m);
        cx.nontrivial = es.len() >= 3;
        check_text("the map", |alt| GF::debug(map, alt), &es)?;
        check_iter_text("iter()", || map.iter(), |(l, r)| opair(l.map(|l| l.t()), Some(r.t())), p.x)?;
        check_iter_text("iter_paired()", || map.iter_paired(), |(l, r)| opair(Some(l.t()), Some(r.t())), p.x)?;
        check_iter_text("iter_unpaired()", || map.iter_unpaired(), |r| opair(None, Some(r.t())), p.y)?;
        check_iter_text("iter_left()", || map.iter_left(), |l| single(l.t()), p.x)?;
        check_iter_text("iter_right()", || map.iter_right(), |l| single(l.t()), p.y)?;
        for k in ex.m.r.keys() {
            let r = pr(*k);
            if map.get_left_iter(&r).is_some() {
                check_iter_text(&format!("get_left_iter(R{k})"), || map.get_left_iter(&r).unwrap(), |l| single(l.t()), p.y)?;
            }
        }
        ex.observe(true, false).map_err(|e| format!("after formatting: {e}"))
    })
}

