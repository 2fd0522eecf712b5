// Executing operations on the real maps and on the models, and observing the maps.
// This file is compiled once per pair of item types: `super::ty` names them.
pub use crate::base::*;
use crate::items::*;
use crate::model::*;
use crate::ops::*;
use crate::tree::*;
use super::ty::{L, LDOM, R, RDOM};
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeSet;
use std::fmt::Debug;

/// Tag of the instances used only for queries.
pub const PROBE: u32 = 0;
pub fn pl(k: u16) -> L {
    L::with_tag(k, PROBE)
}
pub fn pr(k: u16) -> R {
    R::with_tag(k, PROBE)
}

#[derive(Clone, Debug)]
pub struct Call<K> {
    pub k: K,
    pub a: [u16; 3],
    pub t: u32,
    pub x: u32,
    pub list: Vec<(Option<u16>, Option<u16>)>,
}
impl<K> Call<K> {
    fn l(&self, i: usize) -> L {
        L::with_tag(self.a[i], self.t + i as u32)
    }
    fn r(&self, i: usize) -> R {
        R::with_tag(self.a[i], self.t + i as u32)
    }
    fn lv(&self, i: usize) -> V {
        (self.a[i], self.t + i as u32)
    }
    /// Items of the i-th list entry.
    fn li(&self, i: usize) -> (Option<L>, Option<R>) {
        let (l, r) = self.list[i];
        let t = self.t + 3 + 2 * i as u32;
        (l.map(|k| L::with_tag(k, t)), r.map(|k| R::with_tag(k, t + 1)))
    }
    fn liv(&self, i: usize) -> (Option<V>, Option<V>) {
        let (l, r) = self.list[i];
        let t = self.t + 3 + 2 * i as u32;
        (l.map(|k| (k, t)), r.map(|k| (k, t + 1)))
    }
}

/// One of the three map types.
pub trait Fam: Sized + 'static {
    const NAME: &'static str;
    type K: Copy + Debug + PartialEq + Ord + Serialize + DeserializeOwned + 'static;
    type M: MCtx + Clone + Default + PartialEq + Debug;
    type Map<S: Bld>;
    fn sig(k: Self::K) -> &'static str;
    fn kname(k: Self::K) -> &'static str;
    fn weights() -> Vec<(u32, Self::K)>;
    fn make<S: Bld>(cap: usize, s: S) -> Self::Map<S>;
    fn exec<S: Bld>(map: &mut Self::Map<S>, c: &Call<Self::K>) -> T;
    fn model(m: &mut Self::M, c: &Call<Self::K>) -> T;
    /// Replaces operations that run into a recorded finding, so that histories do not end there.
    fn avoid(_m: &Self::M, _c: &mut Call<Self::K>) {}
    /// The contents after `c` when it went wrong exactly as a recorded finding says; and the finding's id.
    fn known_state(_m: &Self::M, _c: &Call<Self::K>) -> Option<(Self::M, &'static str)> {
        None
    }
    /// Plain pair insertion used to prefill (evicting or re-pairing as the map does).
    fn fill<S: Bld>(map: &mut Self::Map<S>, m: &mut Self::M, l: u16, r: u16);
    fn lookups<S: Bld>(map: &Self::Map<S>, m: &Self::M, dom: u16, tags: bool, full: bool) -> Res;
    fn iters<S: Bld>(map: &Self::Map<S>, m: &Self::M, tags: bool) -> Res;
    /// Membership, pairing tests and lengths agree with the model (a third view beside lookups and iterators).
    fn pairs<S: Bld>(map: &Self::Map<S>, m: &Self::M, dom: u16) -> bool;
    fn clone_map<S: Bld>(map: &Self::Map<S>) -> Self::Map<S>;
    fn clone_from_map<S: Bld>(to: &mut Self::Map<S>, from: &Self::Map<S>);
    fn eq_map<S: Bld>(a: &Self::Map<S>, b: &Self::Map<S>) -> bool;
    fn lens<S: Bld>(map: &Self::Map<S>) -> (usize, usize);
    fn hasher<S: Bld>(map: &Self::Map<S>) -> &S;
    fn take<S: Bld>(map: &mut Self::Map<S>) -> Self::Map<S>;
    fn clear<S: Bld>(map: &mut Self::Map<S>);
    fn entries(m: &Self::M) -> Vec<(Option<V>, Option<V>)>;
    fn same_keys(a: &Self::M, b: &Self::M) -> bool;
    fn msize(m: &Self::M) -> usize;
    /// Reads the whole relation off the map by lookups over 0..dom.
    fn extract<S: Bld>(map: &Self::Map<S>, dom: u16) -> Res<Self::M>;
    fn debug<S: Bld>(map: &Self::Map<S>, alt: bool) -> String;
    /// Everything lookups and iterators say about the map, in canonical order; panics included.
    fn dump<S: Bld>(map: &Self::Map<S>, dom: u16, full: bool) -> T;
    /// Stores and removes again a pair of absent items, n times.
    fn burn<S: Bld>(map: &mut Self::Map<S>, l: u16, r: u16, n: u64);
    /// Builds the content of a model by plain insertions in the given order.
    fn rebuild<S: Bld>(map: &mut Self::Map<S>, m: &Self::M, order: u64);
}
/// Marks a panic inside a dump.
pub const PANICKED: u64 = u64::MAX - 1;
macro_rules! d {
    ($v:ident, $e:expr) => {
        $v.push(match guard(|| $e.t()) {
            Ok(t) => t,
            Err(_) => T::I(PANICKED),
        })
    };
}
macro_rules! di {
    ($v:ident, $e:expr) => {
        $v.push(match guard(|| tset($e.take(20_000).collect::<Vec<T>>())) {
            Ok(t) => t,
            Err(_) => T::I(PANICKED),
        })
    };
}
macro_rules! pairs {
    ($map:ident, $m:ident, $dom:ident) => {
        guard(|| {
            (0..$dom).all(|k| {
                $map.contains_left(&pl(k)) == $m.l.contains_key(&k)
                    && $map.contains_right(&pr(k)) == $m.r.contains_key(&k)
                    && others(None, k, $dom, true).into_iter().all(|j| $map.are_paired(&pl(k), &pr(j)) == $m.paired(k, j))
            }) && Self::lens($map) == ($m.l.len(), $m.r.len())
        })
        .unwrap_or(false)
    };
}
pub fn shuffle<X>(v: &mut [X], seed: u64) {
    let mut s = seed;
    for i in (1..v.len()).rev() {
        s = mix(s);
        v.swap(i, (s % (i as u64 + 1)) as usize);
    }
}

pub fn list_of(x: u32, dom: u16, optional: u8) -> Vec<(Option<u16>, Option<u16>)> {
    let n = x % 6;
    (0..n)
        .map(|i| {
            let h = mix(x as u64 * 31 + i as u64);
            let l = (h % dom as u64) as u16 % LDOM;
            let r = ((h >> 20) % dom as u64) as u16 % RDOM;
            match (optional, (h >> 40) % 4) {
                (0, _) => (Some(l), Some(r)),
                // partial: any component may be missing
                (1, 0) => (Some(l), None),
                (1, 1) => (None, Some(r)),
                (1, 2) if (h >> 50) % 4 == 0 => (None, None),
                // group: only the left one may be missing
                (2, 0) | (2, 1) => (None, Some(r)),
                _ => (Some(l), Some(r)),
            }
        })
        .collect()
}

pub fn resolve_call<F: Fam>(m: &F::M, op: &Op<F::K>, dom: u16) -> Call<F::K> {
    let sig = F::sig(op.k).as_bytes();
    let sels = [op.a, op.b, op.c];
    let mut a = [0u16; 3];
    let mut prev: Vec<(u8, u16)> = vec![];
    let mut list = vec![];
    for (i, ch) in sig.iter().enumerate() {
        match ch {
            b'l' | b'L' | b'r' | b'R' => {
                let side = if *ch == b'l' || *ch == b'L' { 0 } else { 1 };
                a[i] = resolve(m, sels[i], side, &prev, dom) % if side == 0 { LDOM } else { RDOM };
                prev.push((side, a[i]));
            }
            b'*' => list = list_of(op.x, dom, 0),
            b'o' => list = list_of(op.x, dom, 1),
            b'g' => list = list_of(op.x, dom, 2),
            _ => {}
        }
    }
    let n = 3 + 2 * list.len() as u32;
    let t = fresh_tag();
    for _ in 1..n {
        fresh_tag();
    }
    Call { k: op.k, a, t, x: op.x, list }
}
pub fn safe_call<F: Fam>(m: &F::M, op: &Op<F::K>, dom: u16) -> Call<F::K> {
    let mut c = resolve_call::<F>(m, op, dom);
    F::avoid(m, &mut c);
    c
}

pub fn show<F: Fam>(c: &Call<F::K>) -> String {
    let mut s = format!("{}.{}(", F::NAME, F::kname(c.k));
    for (i, ch) in F::sig(c.k).bytes().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        match ch {
            b'l' => s += &format!("&L{}", c.a[i]),
            b'r' => s += &format!("&R{}", c.a[i]),
            b'L' => s += &format!("L{}#{}", c.a[i], c.t + i as u32),
            b'R' => s += &format!("R{}#{}", c.a[i], c.t + i as u32),
            b'*' | b'o' | b'g' => s += &format!("{:?}", c.list),
            _ => s += &format!("{:#x}", c.x),
        }
    }
    s.push(')');
    s
}

/// Compares what an operation returned with what the model says it must return.
pub fn ret_ok(got: &T, want: &T, tags: bool) -> bool {
    // A fallback insertion cannot hand back everything it displaced (its return type is too small):
    // it must name at least one item of every cycle it evicted, and only evicted items.
    if let T::Tup(v) = want {
        if v.first() == Some(&T::I(DISPLACED)) {
            let mut items = vec![];
            leaves(got, &mut items);
            let mut cycles: Vec<Vec<T>> = vec![];
            for x in &v[1..] {
                let mut c = vec![];
                leaves(x, &mut c);
                if !tags {
                    c = c.iter().map(|x| x.untag()).collect();
                }
                cycles.push(c);
            }
            if !tags {
                items = items.iter().map(|x| x.untag()).collect();
            }
            return cycles.iter().all(|c| items.iter().any(|i| c.contains(i)))
                && items.iter().all(|i| cycles.iter().any(|c| c.contains(i)));
        }
    }
    if tags { got == want } else { got.untag() == want.untag() }
}
pub const DISPLACED: u64 = u64::MAX;
fn leaves(t: &T, out: &mut Vec<T>) {
    match t {
        T::It(..) => out.push(t.clone()),
        T::Tup(v) | T::Set(v) => v.iter().for_each(|x| leaves(x, out)),
        T::Some(x) | T::Left(x) | T::Right(x) => leaves(x, out),
        T::Both(x, y) => {
            leaves(x, out);
            leaves(y, out)
        }
        _ => {}
    }
}

pub fn tset(mut v: Vec<T>) -> T {
    v.sort();
    T::Set(v)
}
/// A sorted list, comparable with repetitions.
fn same(what: &str, got: T, want: T, tags: bool) -> Res {
    let (g, w) = if tags { (got, want) } else { (got.untag(), want.untag()) };
    if g == w {
        Ok(())
    } else {
        Err(format!("{what}: got {g:?}, expected {w:?}"))
    }
}
macro_rules! q {
    ($what:expr, $got:expr, $want:expr, $tags:expr) => {{
        let g = guard(|| $got.t()).map_err(|e| format!("{}: {e}", $what()))?;
        let w: T = $want;
        if !(if $tags { g == w } else { g.untag() == w.untag() }) {
            return Err(format!("{}: got {g:?}, expected {w:?}", $what()));
        }
    }};
}

fn ent(l: Option<T>, r: Option<T>) -> T {
    opair(l, r)
}
fn opent<'a>(p: &OptionalPair<&'a L, &'a R>) -> T {
    p.t()
}
/// How many items a drain pulls before it is dropped (usize::MAX: all).
pub fn pulls(x: u32) -> usize {
    if x & 0x300 == 0 { usize::MAX } else { ((x >> 10) % 8) as usize }
}
fn drained(ys: Vec<T>, pulls: usize) -> T {
    if pulls == usize::MAX { tset(ys) } else { T::I(ys.len() as u64) }
}
fn filtered(offers: Vec<T>, ys: Vec<T>, pulls: usize) -> T {
    T::Tup(vec![tset(offers), drained(ys, pulls)])
}
fn m_drained(all: Vec<T>, pulls: usize) -> T {
    if pulls == usize::MAX { tset(all) } else { T::I(all.len().min(pulls) as u64) }
}
pub fn cap_arg(x: u32) -> usize {
    (x % 80) as usize
}
pub fn huge(x: u32) -> Option<usize> {
    match (x >> 8) % 8 {
        0 => Some(usize::MAX),
        1 => Some(usize::MAX / 2),
        2 => Some(usize::MAX >> 4),
        _ => None,
    }
}

// ---------------------------------------------------------------- CycleMap

pub struct CF;
impl Fam for CF {
    const NAME: &'static str = "CycleMap";
    type K = CK;
    type M = PM;
    type Map<S: Bld> = CycleMap<L, R, S>;
    fn sig(k: CK) -> &'static str {
        use CK::*;
        match k {
            Insert => "LR",
            Remove => "lr",
            RemoveViaLeft => "l",
            RemoveViaRight => "r",
            SwapLeft => "lL",
            SwapRight => "rR",
            SwapLeftChecked => "lrL",
            SwapRightChecked => "rlR",
            SwapLeftOrInsert => "lLR",
            SwapRightOrInsert => "rRL",
            Extend => "*",
            Clear | CloneSelf | ShrinkToFit => "",
            Retain | DrainFilter | Drain | Reserve | TryReserve | ShrinkTo => "x",
        }
    }
    fn burn<S: Bld>(map: &mut CycleMap<L, R, S>, l: u16, r: u16, n: u64) {
        for i in 0..n {
            map.insert(L::with_tag(l, 0), R::with_tag(r, 0));
            if i % 2 == 0 { map.remove_via_left(&pl(l)) } else { map.remove_via_right(&pr(r)) };
        }
    }
    fn dump<S: Bld>(map: &CycleMap<L, R, S>, dom: u16, full: bool) -> T {
        let mut v = vec![];
        for k in 0..dom {
            let (l, r) = (pl(k), pr(k));
            d!(v, map.contains_left(&l));
            d!(v, map.contains_right(&r));
            d!(v, map.get_right(&l));
            d!(v, map.get_left(&r));
            for j in others(None, k, dom, full) {
                let rj = pr(j);
                d!(v, map.are_paired(&l, &rj));
            }
        }
        d!(v, map.is_empty());
        d!(v, T::I(map.len() as u64));
        di!(v, map.iter().map(|(l, r)| ent(Some(l.t()), Some(r.t()))));
        di!(v, map.iter_left().map(|l| l.t()));
        di!(v, map.iter_right().map(|l| l.t()));
        T::Tup(v)
    }
    fn rebuild<S: Bld>(map: &mut CycleMap<L, R, S>, m: &PM, order: u64) {
        let mut es = m.entries();
        shuffle(&mut es, order);
        for e in es {
            let (l, r) = (e.0.unwrap(), e.1.unwrap());
            map.insert(L::with_tag(l.0, l.1), R::with_tag(r.0, r.1));
        }
    }
    fn kname(k: CK) -> &'static str {
        k.name()
    }
    fn weights() -> Vec<(u32, CK)> {
        w_c()
    }
    fn make<S: Bld>(cap: usize, s: S) -> CycleMap<L, R, S> {
        if cap == 0 { CycleMap::with_hasher(s) } else { CycleMap::with_capacity_and_hasher(cap, s) }
    }
    fn exec<S: Bld>(map: &mut CycleMap<L, R, S>, c: &Call<CK>) -> T {
        use CK::*;
        match c.k {
            Insert => map.insert(c.l(0), c.r(1)).t(),
            Remove => map.remove(&pl(c.a[0]), &pr(c.a[1])).t(),
            RemoveViaLeft => map.remove_via_left(&pl(c.a[0])).t(),
            RemoveViaRight => map.remove_via_right(&pr(c.a[0])).t(),
            SwapLeft => map.swap_left(&pl(c.a[0]), c.l(1)).t(),
            SwapRight => map.swap_right(&pr(c.a[0]), c.r(1)).t(),
            SwapLeftChecked => map.swap_left_checked(&pl(c.a[0]), &pr(c.a[1]), c.l(2)).t(),
            SwapRightChecked => map.swap_right_checked(&pr(c.a[0]), &pl(c.a[1]), c.r(2)).t(),
            SwapLeftOrInsert => map.swap_left_or_insert(&pl(c.a[0]), c.l(1), c.r(2)).t(),
            SwapRightOrInsert => map.swap_right_or_insert(&pr(c.a[0]), c.r(1), c.l(2)).t(),
            Extend => {
                map.extend((0..c.list.len()).map(|i| {
                    let (l, r) = c.li(i);
                    (l.unwrap(), r.unwrap())
                }));
                T::U
            }
            Retain => {
                let mut off = vec![];
                map.retain(|l, r| {
                    off.push(ent(Some(l.t()), Some(r.t())));
                    !pred(c.x, Some(l.k()), Some(r.k()))
                });
                tset(off)
            }
            DrainFilter => {
                let mut off = vec![];
                let p = pulls(c.x);
                let mut ys = vec![];
                {
                    let mut it = map.drain_filter(|l, r| {
                        off.push(ent(Some(l.t()), Some(r.t())));
                        pred(c.x, Some(l.k()), Some(r.k()))
                    });
                    while ys.len() < p {
                        match it.next() {
                            Some((l, r)) => ys.push(ent(Some(l.t()), Some(r.t()))),
                            None => break,
                        }
                    }
                }
                filtered(off, ys, p)
            }
            Drain => {
                let p = pulls(c.x);
                let mut ys = vec![];
                {
                    let mut it = map.drain();
                    while ys.len() < p {
                        match it.next() {
                            Some((l, r)) => ys.push(ent(Some(l.t()), Some(r.t()))),
                            None => break,
                        }
                    }
                }
                drained(ys, p)
            }
            Clear => {
                map.clear();
                T::U
            }
            CloneSelf => {
                let n = map.clone();
                *map = n;
                T::U
            }
            Reserve => {
                map.reserve(cap_arg(c.x));
                T::U
            }
            TryReserve => T::B(map.try_reserve(huge(c.x).unwrap_or(cap_arg(c.x))).is_ok()),
            ShrinkTo => {
                map.shrink_to(cap_arg(c.x));
                T::U
            }
            ShrinkToFit => {
                map.shrink_to_fit();
                T::U
            }
        }
    }
    fn model(m: &mut PM, c: &Call<CK>) -> T {
        use CK::*;
        let pairt = |p: (Option<V>, Option<V>)| match p {
            (Some(l), Some(r)) => Some(tpair(l, r)),
            _ => None,
        };
        match c.k {
            Insert => {
                let (a, b) = m.insert(c.lv(0), c.lv(1));
                opair(pairt(a), pairt(b))
            }
            Remove => {
                if m.paired(c.a[0], c.a[1]) { opt(pairt(m.take_l(c.a[0]))) } else { T::None }
            }
            RemoveViaLeft => opt(pairt(m.take_l(c.a[0]))),
            RemoveViaRight => opt(pairt(m.take_r(c.a[0]))),
            SwapLeft | SwapLeftChecked | SwapLeftOrInsert => {
                let new = match c.k {
                    SwapLeftChecked => {
                        if !m.paired(c.a[0], c.a[1]) {
                            return T::Neither;
                        }
                        c.lv(2)
                    }
                    _ => c.lv(1),
                };
                match m.swap_l(c.a[0], new) {
                    Some((o, ev)) => opair(Some(tl(o)), pairt(ev)),
                    None if c.k == SwapLeftOrInsert => {
                        let (a, b) = m.insert(new, c.lv(2));
                        displaced(&[a, b])
                    }
                    None => T::Neither,
                }
            }
            SwapRight | SwapRightChecked | SwapRightOrInsert => {
                let new = match c.k {
                    SwapRightChecked => {
                        if !m.paired(c.a[1], c.a[0]) {
                            return T::Neither;
                        }
                        c.lv(2)
                    }
                    _ => c.lv(1),
                };
                match m.swap_r(c.a[0], new) {
                    Some((o, ev)) => opair(Some(tr(o)), pairt(ev)),
                    None if c.k == SwapRightOrInsert => {
                        let (a, b) = m.insert(c.lv(2), new);
                        displaced(&[a, b])
                    }
                    None => T::Neither,
                }
            }
            Extend => {
                for i in 0..c.list.len() {
                    let (l, r) = c.liv(i);
                    m.insert(l.unwrap(), r.unwrap());
                }
                T::U
            }
            Retain => {
                let es = m.entries();
                for e in &es {
                    if pred(c.x, e.0.map(|v| v.0), e.1.map(|v| v.0)) {
                        m.remove_entry(e);
                    }
                }
                tset(es.iter().map(tentry).collect())
            }
            DrainFilter => m_drain_filter(m, c),
            Drain => {
                let es = m.entries();
                m.clear();
                m_drained(es.iter().map(tentry).collect(), pulls(c.x))
            }
            Clear => {
                m.clear();
                T::U
            }
            TryReserve => T::B(huge(c.x).is_none()),
            CloneSelf | Reserve | ShrinkTo | ShrinkToFit => T::U,
        }
    }
    fn fill<S: Bld>(map: &mut CycleMap<L, R, S>, m: &mut PM, l: u16, r: u16) {
        let (a, b) = (L::new(l), R::new(r));
        m.insert(a.v(), b.v());
        map.insert(a, b);
    }
    fn lookups<S: Bld>(map: &CycleMap<L, R, S>, m: &PM, dom: u16, tags: bool, full: bool) -> Res {
        for k in 0..dom {
            let (kl, kr) = (k % LDOM, k % RDOM);
            let (l, r) = (pl(kl), pr(kr));
            q!(|| format!("contains_left(L{kl})"), map.contains_left(&l), T::B(m.l.contains_key(&kl)), tags);
            q!(|| format!("contains_right(R{kr})"), map.contains_right(&r), T::B(m.r.contains_key(&kr)), tags);
            q!(|| format!("get_right(L{kl})"), map.get_right(&l), opt(m.partner(0, kl).map(|p| tr(m.rv(p)))), tags);
            q!(|| format!("get_left(R{kr})"), map.get_left(&r), opt(m.partner(1, kr).map(|p| tl(m.lv(p)))), tags);
            for j in others(m.partner(0, kl), k, dom, full) {
                let j = j % RDOM;
                let rj = pr(j);
                q!(|| format!("are_paired(L{kl}, R{j})"), map.are_paired(&l, &rj), T::B(m.paired(kl, j)), tags);
            }
        }
        q!(|| "is_empty()".to_string(), map.is_empty(), T::B(m.is_empty()), tags);
        same("len()", T::I(map.len() as u64), T::I(m.l.len() as u64), tags)
    }
    fn iters<S: Bld>(map: &CycleMap<L, R, S>, m: &PM, tags: bool) -> Res {
        let cap = m.size() + 8;
        let g = guard(|| map.iter().take(cap).map(|(l, r)| ent(Some(l.t()), Some(r.t()))).collect::<Vec<_>>())
            .map_err(|e| format!("iter(): {e}"))?;
        same("iter()", tset(g), tset(m.entries().iter().map(tentry).collect()), tags)?;
        let g = guard(|| map.iter_left().take(cap).map(|l| l.t()).collect::<Vec<_>>()).map_err(|e| format!("iter_left(): {e}"))?;
        same("iter_left()", tset(g), tset(m.l.iter().map(|(k, v)| tl((*k, v.0))).collect()), tags)?;
        let g = guard(|| map.iter_right().take(cap).map(|l| l.t()).collect::<Vec<_>>()).map_err(|e| format!("iter_right(): {e}"))?;
        same("iter_right()", tset(g), tset(m.r.iter().map(|(k, v)| tr((*k, v.0))).collect()), tags)
    }
    fn pairs<S: Bld>(map: &CycleMap<L, R, S>, m: &PM, dom: u16) -> bool {
        pairs!(map, m, dom)
    }
    fn clone_map<S: Bld>(map: &CycleMap<L, R, S>) -> CycleMap<L, R, S> {
        map.clone()
    }
    fn clone_from_map<S: Bld>(to: &mut CycleMap<L, R, S>, from: &CycleMap<L, R, S>) {
        to.clone_from(from)
    }
    fn eq_map<S: Bld>(a: &CycleMap<L, R, S>, b: &CycleMap<L, R, S>) -> bool {
        a == b
    }
    fn hasher<S: Bld>(map: &CycleMap<L, R, S>) -> &S {
        map.hasher()
    }
    fn take<S: Bld>(map: &mut CycleMap<L, R, S>) -> CycleMap<L, R, S> {
        std::mem::take(map)
    }
    fn lens<S: Bld>(map: &CycleMap<L, R, S>) -> (usize, usize) {
        (map.len(), map.iter_right().len())
    }
    fn clear<S: Bld>(map: &mut CycleMap<L, R, S>) {
        map.clear()
    }
    fn entries(m: &PM) -> Vec<(Option<V>, Option<V>)> {
        m.entries()
    }
    fn same_keys(a: &PM, b: &PM) -> bool {
        a.same_keys(b)
    }
    fn msize(m: &PM) -> usize {
        m.size()
    }
    fn extract<S: Bld>(map: &CycleMap<L, R, S>, dom: u16) -> Res<PM> {
        let mut m = PM::default();
        for k in 0..dom {
            if let Some(x) = map.get_left(&pr(k)) {
                let (lk, lt) = x.v();
                m.l.insert(lk, (lt, Some(k)));
            }
            if let Some(x) = map.get_right(&pl(k)) {
                let (rk, rt) = x.v();
                m.r.insert(rk, (rt, Some(k)));
            }
        }
        inverse(&m)?;
        Ok(m)
    }
    fn debug<S: Bld>(map: &CycleMap<L, R, S>, alt: bool) -> String {
        if alt { format!("{map:#?}") } else { format!("{map:?}") }
    }
}

/// Both directions of an extracted relation agree.
pub fn inverse(m: &PM) -> Res {
    for (k, (_, p)) in &m.l {
        if let Some(p) = p {
            if m.r.get(p).and_then(|x| x.1) != Some(*k) {
                return Err(format!("L{k} is paired with R{p}, but R{p} is not paired with L{k}"));
            }
        }
    }
    for (k, (_, p)) in &m.r {
        if let Some(p) = p {
            if m.l.get(p).and_then(|x| x.1) != Some(*k) {
                return Err(format!("R{k} is paired with L{p}, but L{p} is not paired with R{k}"));
            }
        }
    }
    Ok(())
}

fn displaced(cycles: &[(Option<V>, Option<V>)]) -> T {
    let mut v = vec![T::I(DISPLACED)];
    for (l, r) in cycles {
        let items: Vec<T> = l.iter().map(|l| tl(*l)).chain(r.iter().map(|r| tr(*r))).collect();
        if !items.is_empty() {
            v.push(T::Tup(items));
        }
    }
    T::Tup(v)
}

fn m_drain_filter<K>(m: &mut PM, c: &Call<K>) -> T {
    let es = m.entries();
    let mut sel = vec![];
    for e in &es {
        if pred(c.x, e.0.map(|v| v.0), e.1.map(|v| v.0)) {
            m.remove_entry(e);
            sel.push(tentry(e));
        }
    }
    T::Tup(vec![tset(es.iter().map(tentry).collect()), m_drained(sel, pulls(c.x))])
}

/// Partners worth asking about: the true one plus two others, or all of them (in a wide domain, some of them).
fn others(p: Option<u16>, k: u16, dom: u16, full: bool) -> Vec<u16> {
    if full && dom <= WIDE {
        (0..dom).collect()
    } else {
        let mut s: BTreeSet<u16> = BTreeSet::new();
        s.extend(p);
        s.insert(k % dom);
        s.insert((k + 1) % dom);
        if full {
            s.extend((0..6u64).map(|i| (mix((k as u64) << 8 | i) % dom as u64) as u16));
        }
        s.into_iter().collect()
    }
}

// ---------------------------------------------------------------- PartialCycleMap

pub struct PF;
impl Fam for PF {
    const NAME: &'static str = "PartialCycleMap";
    type K = PK;
    type M = PM;
    type Map<S: Bld> = PartialCycleMap<L, R, S>;
    fn sig(k: PK) -> &'static str {
        use PK::*;
        match k {
            Insert => "LR",
            InsertLeft => "L",
            InsertRight => "R",
            Pair | PairForced | PairForcedRemove | Unpair | Remove => "lr",
            RemoveLeft | RemoveViaLeft => "l",
            RemoveRight | RemoveViaRight => "r",
            SwapLeft => "lL",
            SwapRight => "rR",
            SwapLeftChecked => "lrL",
            SwapRightChecked => "rlR",
            SwapLeftOrInsert => "lLR",
            SwapRightOrInsert => "rRL",
            Extend => "*",
            ExtendOpt => "o",
            Clear | CloneSelf | ShrinkToFit => "",
            _ => "x",
        }
    }
    fn burn<S: Bld>(map: &mut PartialCycleMap<L, R, S>, l: u16, r: u16, n: u64) {
        for i in 0..n {
            if i % 2 == 0 {
                map.insert_left(L::with_tag(l, 0));
                map.remove_left(&pl(l));
            } else {
                map.insert_right(R::with_tag(r, 0));
                map.remove_right(&pr(r));
            }
        }
    }
    fn dump<S: Bld>(map: &PartialCycleMap<L, R, S>, dom: u16, full: bool) -> T {
        let mut v = vec![];
        for k in 0..dom {
            let (l, r) = (pl(k), pr(k));
            d!(v, map.contains_left(&l));
            d!(v, map.contains_right(&r));
            d!(v, map.is_left_paired(&l));
            d!(v, map.is_right_paired(&r));
            d!(v, map.get_right(&l));
            d!(v, map.get_left(&r));
            for j in others(None, k, dom, full) {
                let rj = pr(j);
                d!(v, map.are_paired(&l, &rj));
            }
        }
        d!(v, map.is_empty());
        d!(v, T::I(map.len_left() as u64));
        d!(v, T::I(map.len_right() as u64));
        di!(v, map.iter().map(|o| opent(&o)));
        di!(v, map.iter_paired().map(|(l, r)| ent(Some(l.t()), Some(r.t()))));
        di!(v, map.iter_unpaired().map(|o| opent(&o)));
        di!(v, map.iter_left().map(|l| l.t()));
        di!(v, map.iter_right().map(|l| l.t()));
        T::Tup(v)
    }
    fn rebuild<S: Bld>(map: &mut PartialCycleMap<L, R, S>, m: &PM, order: u64) {
        let mut es = m.entries();
        shuffle(&mut es, order);
        let mut later = vec![];
        for (i, e) in es.into_iter().enumerate() {
            match e {
                (Some(l), Some(r)) => {
                    let (lk, rk) = (l.0, r.0);
                    let (l, r) = (L::with_tag(l.0, l.1), R::with_tag(r.0, r.1));
                    // some pairs are stored unpaired first
                    if (i as u64 + order) % 3 == 0 {
                        map.insert_right(r);
                        map.insert_left(l);
                        later.push((lk, rk));
                    } else {
                        map.insert(l, r);
                    }
                }
                (Some(l), None) => {
                    map.insert_left(L::with_tag(l.0, l.1));
                }
                (None, Some(r)) => {
                    map.insert_right(R::with_tag(r.0, r.1));
                }
                _ => {}
            }
        }
        for (l, r) in later {
            map.pair(&pl(l), &pr(r));
        }
    }
    fn kname(k: PK) -> &'static str {
        k.name()
    }
    fn weights() -> Vec<(u32, PK)> {
        w_p()
    }
    fn make<S: Bld>(cap: usize, s: S) -> PartialCycleMap<L, R, S> {
        if cap == 0 { PartialCycleMap::with_hasher(s) } else { PartialCycleMap::with_capacity_and_hasher(cap, s) }
    }
    fn exec<S: Bld>(map: &mut PartialCycleMap<L, R, S>, c: &Call<PK>) -> T {
        use PK::*;
        match c.k {
            Insert => map.insert(c.l(0), c.r(1)).t(),
            InsertLeft => map.insert_left(c.l(0)).t(),
            InsertRight => map.insert_right(c.r(0)).t(),
            Pair => map.pair(&pl(c.a[0]), &pr(c.a[1])).t(),
            PairForced => map.pair_forced(&pl(c.a[0]), &pr(c.a[1])).t(),
            PairForcedRemove => map.pair_forced_remove(&pl(c.a[0]), &pr(c.a[1])).t(),
            Unpair => map.unpair(&pl(c.a[0]), &pr(c.a[1])).t(),
            Remove => map.remove(&pl(c.a[0]), &pr(c.a[1])).t(),
            RemoveLeft => map.remove_left(&pl(c.a[0])).t(),
            RemoveRight => map.remove_right(&pr(c.a[0])).t(),
            RemoveViaLeft => map.remove_via_left(&pl(c.a[0])).t(),
            RemoveViaRight => map.remove_via_right(&pr(c.a[0])).t(),
            SwapLeft => map.swap_left(&pl(c.a[0]), c.l(1)).t(),
            SwapRight => map.swap_right(&pr(c.a[0]), c.r(1)).t(),
            SwapLeftChecked => map.swap_left_checked(&pl(c.a[0]), &pr(c.a[1]), c.l(2)).t(),
            SwapRightChecked => map.swap_right_checked(&pr(c.a[0]), &pl(c.a[1]), c.r(2)).t(),
            SwapLeftOrInsert => map.swap_left_or_insert(&pl(c.a[0]), c.l(1), c.r(2)).t(),
            SwapRightOrInsert => map.swap_right_or_insert(&pr(c.a[0]), c.r(1), c.l(2)).t(),
            Extend => {
                map.extend((0..c.list.len()).map(|i| {
                    let (l, r) = c.li(i);
                    (l.unwrap(), r.unwrap())
                }));
                T::U
            }
            ExtendOpt => {
                map.extend((0..c.list.len()).map(|i| -> OptionalPair<L, R> {
                    match c.li(i) {
                        (None, None) => OptionalPair::Neither,
                        (Some(l), None) => OptionalPair::SomeLeft(l),
                        (None, Some(r)) => OptionalPair::SomeRight(r),
                        (Some(l), Some(r)) => OptionalPair::SomeBoth(l, r),
                    }
                }));
                T::U
            }
            Retain => {
                let mut off = vec![];
                map.retain(|o| {
                    off.push(opent(o));
                    pred(c.x, opk(o).0, opk(o).1)
                });
                tset(off)
            }
            RetainPaired => {
                let mut off = vec![];
                map.retain_paired(|l, r| {
                    off.push(ent(Some(l.t()), Some(r.t())));
                    pred(c.x, Some(l.k()), Some(r.k()))
                });
                tset(off)
            }
            RetainUnpaired => {
                let mut off = vec![];
                map.retain_unpaired(|o| {
                    off.push(opent(o));
                    pred(c.x, opk(o).0, opk(o).1)
                });
                tset(off)
            }
            DrainFilter => {
                let mut off = vec![];
                let p = pulls(c.x);
                let mut ys = vec![];
                {
                    let mut it = map.drain_filter(|o| {
                        off.push(opent(&o));
                        pred(c.x, opk(&o).0, opk(&o).1)
                    });
                    while ys.len() < p {
                        match it.next() {
                            Some(e) => ys.push(e.t()),
                            None => break,
                        }
                    }
                }
                filtered(off, ys, p)
            }
            Drain => {
                let p = pulls(c.x);
                let mut ys = vec![];
                {
                    let mut it = map.drain();
                    while ys.len() < p {
                        match it.next() {
                            Some(e) => ys.push(e.t()),
                            None => break,
                        }
                    }
                }
                drained(ys, p)
            }
            Clear => {
                map.clear();
                T::U
            }
            CloneSelf => {
                let n = map.clone();
                *map = n;
                T::U
            }
            ReserveLeft => {
                map.reserve_left(cap_arg(c.x));
                T::U
            }
            ReserveRight => {
                map.reserve_right(cap_arg(c.x));
                T::U
            }
            TryReserveLeft => T::B(map.try_reserve_left(huge(c.x).unwrap_or(cap_arg(c.x))).is_ok()),
            TryReserveRight => T::B(map.try_reserve_right(huge(c.x).unwrap_or(cap_arg(c.x))).is_ok()),
            ShrinkToLeft => {
                map.shrink_to_left(cap_arg(c.x));
                T::U
            }
            ShrinkToRight => {
                map.shrink_to_right(cap_arg(c.x));
                T::U
            }
            ShrinkToFit => {
                map.shrink_to_fit();
                T::U
            }
        }
    }
    fn model(m: &mut PM, c: &Call<PK>) -> T {
        use PK::*;
        let op = |p: (Option<V>, Option<V>)| opair(p.0.map(tl), p.1.map(tr));
        // "the cycle that was evicted", absent when empty
        let evt = |p: (Option<V>, Option<V>)| if p == (None, None) { None } else { Some(opair(p.0.map(tl), p.1.map(tr))) };
        match c.k {
            Insert => {
                let (a, b) = m.insert(c.lv(0), c.lv(1));
                T::Tup(vec![op(a), op(b)])
            }
            InsertLeft => op(m.insert_l(c.lv(0))),
            InsertRight => op(m.insert_r(c.lv(0))),
            Pair => {
                let (l, r) = (c.a[0], c.a[1]);
                let ok = m.has(0, l) && m.has(1, r) && !m.l_paired(l) && !m.r_paired(r);
                if ok {
                    m.link(l, r);
                }
                T::B(ok)
            }
            PairForced | PairForcedRemove => {
                let (l, r) = (c.a[0], c.a[1]);
                if !m.has(0, l) || !m.has(1, r) || m.paired(l, r) {
                    return T::Neither;
                }
                let old_r = m.unpair_l(l);
                let old_l = m.unpair_r(r);
                let out = opair(old_l.map(|k| tl(m.lv(k))), old_r.map(|k| tr(m.rv(k))));
                if c.k == PairForcedRemove {
                    if let Some(k) = old_l {
                        m.l.remove(&k);
                    }
                    if let Some(k) = old_r {
                        m.r.remove(&k);
                    }
                }
                m.link(l, r);
                out
            }
            Unpair => {
                let ok = m.paired(c.a[0], c.a[1]);
                if ok {
                    m.unpair_l(c.a[0]);
                }
                T::B(ok)
            }
            Remove => {
                if m.paired(c.a[0], c.a[1]) {
                    let (l, r) = m.take_l(c.a[0]);
                    some(tpair(l.unwrap(), r.unwrap()))
                } else {
                    T::None
                }
            }
            RemoveLeft => opt(m.take_l_only(c.a[0]).map(tl)),
            RemoveRight => opt(m.take_r_only(c.a[0]).map(tr)),
            RemoveViaLeft => op(m.take_l(c.a[0])),
            RemoveViaRight => op(m.take_r(c.a[0])),
            SwapLeft | SwapLeftChecked | SwapLeftOrInsert => {
                let new = match c.k {
                    SwapLeftChecked => {
                        if !m.paired(c.a[0], c.a[1]) {
                            return T::Neither;
                        }
                        c.lv(2)
                    }
                    _ => c.lv(1),
                };
                match m.swap_l(c.a[0], new) {
                    Some((o, ev)) => opair(Some(tl(o)), evt(ev)),
                    None if c.k == SwapLeftOrInsert => {
                        let (a, b) = m.insert(new, c.lv(2));
                        displaced(&[a, b])
                    }
                    None => T::Neither,
                }
            }
            SwapRight | SwapRightChecked | SwapRightOrInsert => {
                let new = match c.k {
                    SwapRightChecked => {
                        if !m.paired(c.a[1], c.a[0]) {
                            return T::Neither;
                        }
                        c.lv(2)
                    }
                    _ => c.lv(1),
                };
                match m.swap_r(c.a[0], new) {
                    Some((o, ev)) => opair(Some(tr(o)), evt(ev)),
                    None if c.k == SwapRightOrInsert => {
                        let (a, b) = m.insert(c.lv(2), new);
                        displaced(&[a, b])
                    }
                    None => T::Neither,
                }
            }
            Extend | ExtendOpt => {
                for i in 0..c.list.len() {
                    match c.liv(i) {
                        (Some(l), Some(r)) => {
                            m.insert(l, r);
                        }
                        (Some(l), None) => {
                            m.insert_l(l);
                        }
                        (None, Some(r)) => {
                            m.insert_r(r);
                        }
                        _ => {}
                    }
                }
                T::U
            }
            Retain | RetainPaired | RetainUnpaired => {
                // `retain` visits the left items (alone or with their partner); unpaired right items are kept.
                let es: Vec<_> = m
                    .entries()
                    .into_iter()
                    .filter(|e| match c.k {
                        Retain => e.0.is_some(),
                        RetainPaired => e.0.is_some() && e.1.is_some(),
                        _ => e.0.is_none() || e.1.is_none(),
                    })
                    .collect();
                for e in &es {
                    if pred(c.x, e.0.map(|v| v.0), e.1.map(|v| v.0)) {
                        m.remove_entry(e);
                    }
                }
                tset(es.iter().map(tentry).collect())
            }
            DrainFilter => m_drain_filter(m, c),
            Drain => {
                let es = m.entries();
                m.clear();
                m_drained(es.iter().map(tentry).collect(), pulls(c.x))
            }
            Clear => {
                m.clear();
                T::U
            }
            TryReserveLeft | TryReserveRight => T::B(huge(c.x).is_none()),
            CloneSelf | ReserveLeft | ReserveRight | ShrinkToLeft | ShrinkToRight | ShrinkToFit => T::U,
        }
    }
    fn fill<S: Bld>(map: &mut PartialCycleMap<L, R, S>, m: &mut PM, l: u16, r: u16) {
        // a third of the prefill is unpaired
        if (l as u32 * 7 + r as u32) % 3 == 0 {
            let a = L::new(l);
            m.insert_l(a.v());
            map.insert_left(a);
            let b = R::new(r);
            m.insert_r(b.v());
            map.insert_right(b);
        } else {
            let (a, b) = (L::new(l), R::new(r));
            m.insert(a.v(), b.v());
            map.insert(a, b);
        }
    }
    fn lookups<S: Bld>(map: &PartialCycleMap<L, R, S>, m: &PM, dom: u16, tags: bool, full: bool) -> Res {
        for k in 0..dom {
            let (kl, kr) = (k % LDOM, k % RDOM);
            let (l, r) = (pl(kl), pr(kr));
            q!(|| format!("contains_left(L{kl})"), map.contains_left(&l), T::B(m.l.contains_key(&kl)), tags);
            q!(|| format!("contains_right(R{kr})"), map.contains_right(&r), T::B(m.r.contains_key(&kr)), tags);
            q!(|| format!("is_left_paired(L{kl})"), map.is_left_paired(&l), T::B(m.l_paired(kl)), tags);
            q!(|| format!("is_right_paired(R{kr})"), map.is_right_paired(&r), T::B(m.r_paired(kr)), tags);
            q!(|| format!("get_right(L{kl})"), map.get_right(&l), opt(m.partner(0, kl).map(|p| tr(m.rv(p)))), tags);
            q!(|| format!("get_left(R{kr})"), map.get_left(&r), opt(m.partner(1, kr).map(|p| tl(m.lv(p)))), tags);
            for j in others(m.partner(0, kl), k, dom, full) {
                let j = j % RDOM;
                let rj = pr(j);
                q!(|| format!("are_paired(L{kl}, R{j})"), map.are_paired(&l, &rj), T::B(m.paired(kl, j)), tags);
            }
        }
        q!(|| "is_empty()".to_string(), map.is_empty(), T::B(m.is_empty()), tags);
        same("len_left()", T::I(map.len_left() as u64), T::I(m.l.len() as u64), tags)?;
        same("len_right()", T::I(map.len_right() as u64), T::I(m.r.len() as u64), tags)
    }
    fn iters<S: Bld>(map: &PartialCycleMap<L, R, S>, m: &PM, tags: bool) -> Res {
        let cap = m.size() + 8;
        let es = m.entries();
        let g = guard(|| map.iter().take(cap).map(|o| opent(&o)).collect::<Vec<_>>()).map_err(|e| format!("iter(): {e}"))?;
        same("iter()", tset(g), tset(es.iter().map(tentry).collect()), tags)?;
        let g = guard(|| map.iter_paired().take(cap).map(|(l, r)| ent(Some(l.t()), Some(r.t()))).collect::<Vec<_>>())
            .map_err(|e| format!("iter_paired(): {e}"))?;
        same("iter_paired()", tset(g), tset(es.iter().filter(|e| e.0.is_some() && e.1.is_some()).map(tentry).collect()), tags)?;
        let g = guard(|| map.iter_unpaired().take(cap).map(|o| opent(&o)).collect::<Vec<_>>()).map_err(|e| format!("iter_unpaired(): {e}"))?;
        same("iter_unpaired()", tset(g), tset(es.iter().filter(|e| e.0.is_none() || e.1.is_none()).map(tentry).collect()), tags)?;
        let g = guard(|| map.iter_left().take(cap).map(|l| l.t()).collect::<Vec<_>>()).map_err(|e| format!("iter_left(): {e}"))?;
        same("iter_left()", tset(g), tset(m.l.iter().map(|(k, v)| tl((*k, v.0))).collect()), tags)?;
        let g = guard(|| map.iter_right().take(cap).map(|l| l.t()).collect::<Vec<_>>()).map_err(|e| format!("iter_right(): {e}"))?;
        same("iter_right()", tset(g), tset(m.r.iter().map(|(k, v)| tr((*k, v.0))).collect()), tags)
    }
    fn pairs<S: Bld>(map: &PartialCycleMap<L, R, S>, m: &PM, dom: u16) -> bool {
        pairs!(map, m, dom)
    }
    fn clone_map<S: Bld>(map: &PartialCycleMap<L, R, S>) -> PartialCycleMap<L, R, S> {
        map.clone()
    }
    fn clone_from_map<S: Bld>(to: &mut PartialCycleMap<L, R, S>, from: &PartialCycleMap<L, R, S>) {
        to.clone_from(from)
    }
    fn eq_map<S: Bld>(a: &PartialCycleMap<L, R, S>, b: &PartialCycleMap<L, R, S>) -> bool {
        a == b
    }
    fn hasher<S: Bld>(map: &PartialCycleMap<L, R, S>) -> &S {
        map.hasher()
    }
    fn take<S: Bld>(map: &mut PartialCycleMap<L, R, S>) -> PartialCycleMap<L, R, S> {
        std::mem::take(map)
    }
    fn lens<S: Bld>(map: &PartialCycleMap<L, R, S>) -> (usize, usize) {
        (map.len_left(), map.len_right())
    }
    fn clear<S: Bld>(map: &mut PartialCycleMap<L, R, S>) {
        map.clear()
    }
    fn entries(m: &PM) -> Vec<(Option<V>, Option<V>)> {
        m.entries()
    }
    fn same_keys(a: &PM, b: &PM) -> bool {
        a.same_keys(b)
    }
    fn msize(m: &PM) -> usize {
        m.size()
    }
    fn extract<S: Bld>(map: &PartialCycleMap<L, R, S>, dom: u16) -> Res<PM> {
        let mut m = PM::default();
        for x in map.iter_left() {
            let (k, t) = x.v();
            m.l.insert(k, (t, None));
        }
        for x in map.iter_right() {
            let (k, t) = x.v();
            m.r.insert(k, (t, None));
        }
        for k in 0..dom {
            let (l, r) = (pl(k), pr(k));
            if map.contains_left(&l) != m.l.contains_key(&k) || map.contains_right(&r) != m.r.contains_key(&k) {
                return Err(format!("contains_* and the iterators disagree on key {k}"));
            }
            if let Some(x) = map.get_right(&l) {
                m.l.get_mut(&k).ok_or(format!("get_right(L{k}) of an absent item"))?.1 = Some(x.k());
            }
            if let Some(x) = map.get_left(&r) {
                m.r.get_mut(&k).ok_or(format!("get_left(R{k}) of an absent item"))?.1 = Some(x.k());
            }
            if map.is_left_paired(&l) != m.l_paired(k) || map.is_right_paired(&r) != m.r_paired(k) {
                return Err(format!("is_*_paired and get_* disagree on key {k}"));
            }
        }
        inverse(&m)?;
        Ok(m)
    }
    fn debug<S: Bld>(map: &PartialCycleMap<L, R, S>, alt: bool) -> String {
        if alt { format!("{map:#?}") } else { format!("{map:?}") }
    }
}
fn opk(o: &OptionalPair<&L, &R>) -> (Option<u16>, Option<u16>) {
    match o {
        OptionalPair::Neither => (None, None),
        OptionalPair::SomeLeft(l) => (Some(l.k()), None),
        OptionalPair::SomeRight(r) => (None, Some(r.k())),
        OptionalPair::SomeBoth(l, r) => (Some(l.k()), Some(r.k())),
    }
}
pub fn opkeys(o: &OptionalPair<&L, &R>) -> (Option<u16>, Option<u16>) {
    opk(o)
}

// ---------------------------------------------------------------- GroupMap

pub struct GF;
impl Fam for GF {
    const NAME: &'static str = "GroupMap";
    type K = GK;
    type M = GM;
    type Map<S: Bld> = GroupMap<L, R, S>;
    fn sig(k: GK) -> &'static str {
        use GK::*;
        match k {
            Insert | InsertRemove => "LR",
            InsertLeft => "Lr",
            InsertRight => "R",
            SwapRight | SwapRightRemove => "rR",
            Pair | Remove => "lr",
            RemoveLeft => "l",
            RemoveRight => "r",
            Extend => "*",
            ExtendOpt => "g",
            RetainPaired | RetainUnpaired => "x",
            Clear | CloneSelf => "",
        }
    }
    fn burn<S: Bld>(map: &mut GroupMap<L, R, S>, l: u16, r: u16, n: u64) {
        for _ in 0..n {
            map.insert(L::with_tag(l, 0), R::with_tag(r, 0));
            map.remove_left(&pl(l));
            map.remove_right(&pr(r));
        }
    }
    fn dump<S: Bld>(map: &GroupMap<L, R, S>, dom: u16, full: bool) -> T {
        let mut v = vec![];
        for k in 0..dom {
            let (l, r) = (pl(k), pr(k));
            d!(v, map.contains_left(&l));
            d!(v, map.contains_right(&r));
            d!(v, map.is_right_paired(&r));
            d!(v, map.get_right(&l));
            d!(v, opt(map.get_left_iter(&r).map(|it| tset(it.take(20_000).map(|x| x.t()).collect()))));
            for j in others(None, k, dom, full) {
                let rj = pr(j);
                d!(v, map.are_paired(&l, &rj));
            }
        }
        d!(v, map.is_empty());
        d!(v, T::I(map.len_left() as u64));
        d!(v, T::I(map.len_right() as u64));
        di!(v, map.iter().map(|(l, r)| ent(l.map(|l| l.t()), Some(r.t()))));
        di!(v, map.iter_paired().map(|(l, r)| ent(Some(l.t()), Some(r.t()))));
        di!(v, map.iter_unpaired().map(|r| ent(None, Some(r.t()))));
        di!(v, map.iter_left().map(|l| l.t()));
        di!(v, map.iter_right().map(|l| l.t()));
        T::Tup(v)
    }
    fn rebuild<S: Bld>(map: &mut GroupMap<L, R, S>, m: &GM, order: u64) {
        let mut rs: Vec<_> = m.r.iter().map(|(k, v)| (*k, v.0)).collect();
        shuffle(&mut rs, order);
        for (k, t) in rs {
            map.insert_right(R::with_tag(k, t));
        }
        let mut ls: Vec<_> = m.l.iter().map(|(k, v)| (*k, v.0, v.1)).collect();
        shuffle(&mut ls, order ^ 77);
        for (k, t, r) in ls {
            map.insert_left(L::with_tag(k, t), &pr(r));
        }
    }
    fn kname(k: GK) -> &'static str {
        k.name()
    }
    fn weights() -> Vec<(u32, GK)> {
        w_g()
    }
    fn make<S: Bld>(cap: usize, s: S) -> GroupMap<L, R, S> {
        if cap == 0 { GroupMap::with_hasher(s) } else { GroupMap::with_capacity_and_hasher(cap, s) }
    }
    fn exec<S: Bld>(map: &mut GroupMap<L, R, S>, c: &Call<GK>) -> T {
        use GK::*;
        match c.k {
            Insert => {
                map.insert(c.l(0), c.r(1));
                T::U
            }
            InsertRemove => map.insert_remove(c.l(0), c.r(1)).t(),
            InsertLeft => map.insert_left(c.l(0), &pr(c.a[1])).t(),
            InsertRight => map.insert_right(c.r(0)).t(),
            SwapRight => {
                map.swap_right(&pr(c.a[0]), c.r(1));
                T::U
            }
            SwapRightRemove => map.swap_right_remove(&pr(c.a[0]), c.r(1)).t(),
            Pair => map.pair(&pl(c.a[0]), &pr(c.a[1])).t(),
            Remove => map.remove(&pl(c.a[0]), &pr(c.a[1])).t(),
            RemoveLeft => map.remove_left(&pl(c.a[0])).t(),
            RemoveRight => map.remove_right(&pr(c.a[0])).t(),
            Extend => {
                map.extend((0..c.list.len()).map(|i| {
                    let (l, r) = c.li(i);
                    (l.unwrap(), r.unwrap())
                }));
                T::U
            }
            ExtendOpt => {
                map.extend((0..c.list.len()).map(|i| {
                    let (l, r) = c.li(i);
                    (l, r.unwrap())
                }));
                T::U
            }
            RetainPaired => {
                let mut off = vec![];
                map.retain_paired(|l, r| {
                    off.push(ent(Some(l.t()), Some(r.t())));
                    pred(c.x, Some(l.k()), Some(r.k()))
                });
                tset(off)
            }
            RetainUnpaired => {
                let mut off = vec![];
                map.retain_unpaired(|r| {
                    off.push(ent(None, Some(r.t())));
                    pred(c.x, None, Some(r.k()))
                });
                tset(off)
            }
            Clear => {
                map.clear();
                T::U
            }
            CloneSelf => {
                let n = map.clone();
                *map = n;
                T::U
            }
        }
    }
    fn model(m: &mut GM, c: &Call<GK>) -> T {
        use GK::*;
        let grp = |x: Option<(Vec<V>, V)>| opt(x.map(|(ls, r)| T::Tup(vec![tset(ls.into_iter().map(tl).collect()), tr(r)])));
        match c.k {
            Insert => {
                m.insert(c.lv(0), c.lv(1));
                T::U
            }
            InsertRemove => {
                let a = opt(m.take_l(c.a[0]).map(tl));
                let b = grp(m.take_r(c.a[1]));
                m.put_r(c.lv(1));
                m.put_l(c.lv(0), c.a[1]);
                T::Tup(vec![a, b])
            }
            InsertLeft => {
                if !m.r.contains_key(&c.a[1]) {
                    return T::None;
                }
                let a = opt(m.take_l(c.a[0]).map(tl));
                m.put_l(c.lv(0), c.a[1]);
                a
            }
            InsertRight => {
                let b = grp(m.take_r(c.a[0]));
                m.put_r(c.lv(0));
                b
            }
            SwapRight => {
                m.swap_r(c.a[0], c.lv(1), true);
                T::U
            }
            SwapRightRemove => opt(m.swap_r(c.a[0], c.lv(1), false).map(tr)),
            Pair => {
                let ok = m.l.contains_key(&c.a[0]) && m.r.contains_key(&c.a[1]);
                if ok {
                    m.relink(c.a[0], c.a[1]);
                }
                T::B(ok)
            }
            Remove => {
                if m.paired(c.a[0], c.a[1]) { grp(m.take_r(c.a[1])) } else { T::None }
            }
            RemoveLeft => opt(m.take_l(c.a[0]).map(tl)),
            RemoveRight => grp(m.take_r(c.a[0])),
            Extend | ExtendOpt => {
                for i in 0..c.list.len() {
                    match c.liv(i) {
                        (Some(l), Some(r)) => m.insert(l, r),
                        (_, Some(r)) => {
                            m.take_r(r.0);
                            m.put_r(r);
                        }
                        _ => unreachable!(),
                    }
                }
                T::U
            }
            RetainPaired => {
                let es: Vec<_> = m.entries().into_iter().filter(|e| e.0.is_some()).collect();
                for e in &es {
                    if pred(c.x, e.0.map(|v| v.0), e.1.map(|v| v.0)) {
                        m.take_l(e.0.unwrap().0);
                    }
                }
                tset(es.iter().map(tentry).collect())
            }
            RetainUnpaired => {
                let es: Vec<_> = m.entries().into_iter().filter(|e| e.0.is_none()).collect();
                for e in &es {
                    if pred(c.x, None, e.1.map(|v| v.0)) {
                        m.take_r(e.1.unwrap().0);
                    }
                }
                tset(es.iter().map(tentry).collect())
            }
            Clear => {
                m.clear();
                T::U
            }
            CloneSelf => T::U,
        }
    }
    // GroupMap::insert of two items that are already paired with each other tears the pairing
    // (known_findings.txt: group-insert-existing-pair).
    fn avoid(m: &GM, c: &mut Call<GK>) {
        match c.k {
            GK::Insert if m.paired(c.a[0], c.a[1]) => c.k = GK::Pair,
            GK::Extend | GK::ExtendOpt => {
                let mut sim = m.clone();
                c.list.retain(|e| match *e {
                    (Some(l), Some(r)) => {
                        let again = sim.paired(l, r);
                        if !again {
                            sim.insert((l, 0), (r, 0));
                        }
                        !again
                    }
                    (None, Some(r)) => {
                        sim.take_r(r);
                        sim.put_r((r, 0));
                        true
                    }
                    _ => true,
                });
            }
            _ => {}
        }
    }
    fn known_state(m: &GM, c: &Call<GK>) -> Option<(GM, &'static str)> {
        if c.k != GK::Insert || !m.paired(c.a[0], c.a[1]) {
            return None;
        }
        let mut torn = m.clone();
        torn.r.get_mut(&c.a[1]).unwrap().1.remove(&c.a[0]);
        Some((torn, "group-insert-existing-pair"))
    }
    fn fill<S: Bld>(map: &mut GroupMap<L, R, S>, m: &mut GM, l: u16, r: u16) {
        if (l as u32 * 7 + r as u32) % 5 == 0 {
            let b = R::new(r);
            m.take_r(r);
            m.put_r(b.v());
            map.insert_right(b);
        } else {
            let r = r / 2;
            let (a, b) = (L::new(l), R::new(r));
            if m.paired(l, r) {
                return;
            }
            m.insert(a.v(), b.v());
            map.insert(a, b);
        }
    }
    fn lookups<S: Bld>(map: &GroupMap<L, R, S>, m: &GM, dom: u16, tags: bool, full: bool) -> Res {
        for k in 0..dom {
            let (kl, kr) = (k % LDOM, k % RDOM);
            let (l, r) = (pl(kl), pr(kr));
            q!(|| format!("contains_left(L{kl})"), map.contains_left(&l), T::B(m.l.contains_key(&kl)), tags);
            q!(|| format!("contains_right(R{kr})"), map.contains_right(&r), T::B(m.r.contains_key(&kr)), tags);
            q!(|| format!("is_right_paired(R{kr})"), map.is_right_paired(&r), T::B(m.r_paired(kr)), tags);
            q!(|| format!("get_right(L{kl})"), map.get_right(&l), opt(m.partner(0, kl).map(|p| tr(m.rv(p)))), tags);
            let want = opt(m.r.get(&kr).map(|(_, g)| tset(g.iter().map(|x| tl(m.lv(*x))).collect())));
            let cap = m.size() + 8;
            let got = guard(|| opt(map.get_left_iter(&r).map(|it| tset(it.take(cap).map(|x| x.t()).collect()))))
                .map_err(|e| format!("get_left_iter(R{kr}): {e}"))?;
            same(&format!("get_left_iter(R{kr})"), got, want, tags)?;
            for j in others(m.partner(0, kl), k, dom, full) {
                let j = j % RDOM;
                let rj = pr(j);
                q!(|| format!("are_paired(L{kl}, R{j})"), map.are_paired(&l, &rj), T::B(m.paired(kl, j)), tags);
            }
        }
        q!(|| "is_empty()".to_string(), map.is_empty(), T::B(m.is_empty()), tags);
        same("len_left()", T::I(map.len_left() as u64), T::I(m.l.len() as u64), tags)?;
        same("len_right()", T::I(map.len_right() as u64), T::I(m.r.len() as u64), tags)
    }
    fn iters<S: Bld>(map: &GroupMap<L, R, S>, m: &GM, tags: bool) -> Res {
        let cap = m.size() + 8;
        let es = m.entries();
        let g = guard(|| map.iter().take(cap).map(|(l, r)| ent(l.map(|l| l.t()), Some(r.t()))).collect::<Vec<_>>()).map_err(|e| format!("iter(): {e}"))?;
        same("iter()", tset(g), tset(es.iter().map(tentry).collect()), tags)?;
        let g = guard(|| map.iter_paired().take(cap).map(|(l, r)| ent(Some(l.t()), Some(r.t()))).collect::<Vec<_>>())
            .map_err(|e| format!("iter_paired(): {e}"))?;
        same("iter_paired()", tset(g), tset(es.iter().filter(|e| e.0.is_some()).map(tentry).collect()), tags)?;
        let g = guard(|| map.iter_unpaired().take(cap).map(|r| ent(None, Some(r.t()))).collect::<Vec<_>>()).map_err(|e| format!("iter_unpaired(): {e}"))?;
        same("iter_unpaired()", tset(g), tset(es.iter().filter(|e| e.0.is_none()).map(tentry).collect()), tags)?;
        let g = guard(|| map.iter_left().take(cap).map(|l| l.t()).collect::<Vec<_>>()).map_err(|e| format!("iter_left(): {e}"))?;
        same("iter_left()", tset(g), tset(m.l.iter().map(|(k, v)| tl((*k, v.0))).collect()), tags)?;
        let g = guard(|| map.iter_right().take(cap).map(|l| l.t()).collect::<Vec<_>>()).map_err(|e| format!("iter_right(): {e}"))?;
        same("iter_right()", tset(g), tset(m.r.iter().map(|(k, v)| tr((*k, v.0))).collect()), tags)
    }
    fn pairs<S: Bld>(map: &GroupMap<L, R, S>, m: &GM, dom: u16) -> bool {
        pairs!(map, m, dom)
    }
    fn clone_map<S: Bld>(map: &GroupMap<L, R, S>) -> GroupMap<L, R, S> {
        map.clone()
    }
    fn clone_from_map<S: Bld>(to: &mut GroupMap<L, R, S>, from: &GroupMap<L, R, S>) {
        to.clone_from(from)
    }
    fn eq_map<S: Bld>(a: &GroupMap<L, R, S>, b: &GroupMap<L, R, S>) -> bool {
        a == b
    }
    fn hasher<S: Bld>(map: &GroupMap<L, R, S>) -> &S {
        map.hasher()
    }
    fn take<S: Bld>(map: &mut GroupMap<L, R, S>) -> GroupMap<L, R, S> {
        std::mem::take(map)
    }
    fn lens<S: Bld>(map: &GroupMap<L, R, S>) -> (usize, usize) {
        (map.len_left(), map.len_right())
    }
    fn clear<S: Bld>(map: &mut GroupMap<L, R, S>) {
        map.clear()
    }
    fn entries(m: &GM) -> Vec<(Option<V>, Option<V>)> {
        m.entries()
    }
    fn same_keys(a: &GM, b: &GM) -> bool {
        a.same_keys(b)
    }
    fn msize(m: &GM) -> usize {
        m.size()
    }
    fn extract<S: Bld>(map: &GroupMap<L, R, S>, dom: u16) -> Res<GM> {
        let mut m = GM::default();
        for x in map.iter_right() {
            let (k, t) = x.v();
            if m.r.insert(k, (t, BTreeSet::new())).is_some() {
                return Err(format!("R{k} is stored twice"));
            }
        }
        for x in map.iter_left() {
            let (k, t) = x.v();
            let p = map.get_right(x).ok_or(format!("L{k} has no partner"))?.k();
            m.l.insert(k, (t, p));
            m.r.get_mut(&p).ok_or(format!("L{k}'s partner R{p} is not stored"))?.1.insert(k);
        }
        GF::lookups(map, &m, dom, true, true)?;
        Ok(m)
    }
    fn debug<S: Bld>(map: &GroupMap<L, R, S>, alt: bool) -> String {
        if alt { format!("{map:#?}") } else { format!("{map:?}") }
    }
}

// ---------------------------------------------------------------- running histories

/// What a history run looks at.
#[derive(Clone, Copy)]
pub struct Chk {
    pub ret: bool,
    pub tags: bool,
    pub obs: bool,
}
pub struct Ex<F: Fam, S: Bld> {
    pub map: F::Map<S>,
    pub m: F::M,
    pub dom: u16,
    pub trace: Vec<String>,
    pub raw: bool,
}

impl<F: Fam, S: Bld> Ex<F, S> {
    pub fn new(h: &Hist<F::K>) -> Res<Self> {
        Self::with(h, S::make(h.hasher, h.hasher as u64), h.cap as usize)
    }
    pub fn with(h: &Hist<F::K>, s: S, cap: usize) -> Res<Self> {
        let mut map = guard(|| F::make(cap, s))?;
        let mut m = F::M::default();
        let dom = h.dom.max(1);
        for i in 0..h.fill.min(dom) {
            let l = (i as u32 * 5 + 1) % dom as u32;
            let r = (i as u32 * 3 + 2) % dom as u32;
            guard(|| F::fill(&mut map, &mut m, l as u16 % LDOM, r as u16 % RDOM)).map_err(|e| format!("prefill {i}: {e}"))?;
        }
        let mut trace = vec![format!("{} hasher={} capacity={} prefill={} domain={}", F::NAME, mode_name(h.hasher), cap, h.fill, dom)];
        if h.age > 0 && dom + 1 < LDOM.min(RDOM) {
            guard(|| F::burn(&mut map, dom, dom + 1, h.age as u64)).map_err(|e| format!("foreign pairs: {e}"))?;
            trace.push(format!("a foreign pair stored and removed {} times", h.age));
        }
        Ok(Ex { map, m, dom, trace, raw: h.raw })
    }
    pub fn call(&mut self, op: &Op<F::K>) -> Call<F::K> {
        let c = resolve_call::<F>(&self.m, op, self.dom);
        if self.raw && F::known_state(&self.m, &c).is_some() { c } else { let mut c = c; F::avoid(&self.m, &mut c); c }
    }
    pub fn step(&mut self, op: &Op<F::K>, chk: Chk) -> Res<T> {
        let c = self.call(op);
        self.run(&c, chk)
    }
    /// Runs a resolved call on map and model; an Err describes the disagreement.
    pub fn run(&mut self, c: &Call<F::K>, chk: Chk) -> Res<T> {
        let s = show::<F>(c);
        self.trace.push(s.clone());
        let want = F::model(&mut self.m, c);
        let map = &mut self.map;
        let got = guard(|| F::exec(map, c)).map_err(|e| format!("{s} {e}"))?;
        if chk.ret && !ret_ok(&got, &want, chk.tags) {
            return Err(format!("{s} returned {got:?}, expected {want:?}"));
        }
        if chk.obs {
            self.observe(chk.tags, false).map_err(|e| format!("after {s}: {e}"))?;
        }
        Ok(got)
    }
    pub fn observe(&self, tags: bool, full: bool) -> Res {
        F::lookups(&self.map, &self.m, self.dom, tags, full)?;
        F::iters(&self.map, &self.m, tags)
    }
    /// At least one independent view of the map agrees with the model, so the history went right and whatever
    /// another view says wrongly is that view's fault.
    pub fn state_ok(&self) -> bool {
        F::lookups(&self.map, &self.m, self.dom, true, false).is_ok()
            || F::iters(&self.map, &self.m, true).is_ok()
            || F::pairs(&self.map, &self.m, self.dom)
    }
}

/// Builds a state by a history; None when the history itself already goes wrong (other properties report that).
pub fn build<F: Fam, S: Bld>(h: &Hist<F::K>) -> Option<Ex<F, S>> {
    let quiet = Chk { ret: false, tags: true, obs: false };
    let mut ex = Ex::<F, S>::new(h).ok()?;
    for o in &h.ops {
        ex.step(o, quiet).ok()?;
    }
    if ex.state_ok() { Some(ex) } else { None }
}
