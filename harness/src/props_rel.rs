//! C14, C15, C20, C21, C25: equality, clones, bulk construction, borrowed lookups, emptied maps.
use crate::driver::*;
use crate::exec::*;
use crate::items::*;
use crate::model::*;
use crate::ops::*;
use crate::props_hist::*;
use crate::props_iter::*;
use crate::props_misc::bomb;
use crate::tree::*;
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C14
/// Contents that differ from a model in one place.
pub trait Near: Fam {
    fn near(m: &mut Self::M, seed: u64, dom: u16) -> &'static str;
    /// The recorded finding that explains `a == b` answering true, if any.
    fn eq_finding(_a: &Self::M, _b: &Self::M) -> Option<&'static str> {
        None
    }
}
fn nth<X: Copy>(v: &[X], n: u64) -> Option<X> {
    if v.is_empty() { None } else { Some(v[(n % v.len() as u64) as usize]) }
}
fn absent(has: impl Fn(u16) -> bool, dom: u16, n: u64) -> Option<u16> {
    let v: Vec<u16> = (0..dom + 2).filter(|k| !has(*k)).collect();
    nth(&v, n)
}
fn near_pm(m: &mut PM, seed: u64, dom: u16, partial: bool) -> &'static str {
    let (a, b, c) = (mix(seed), mix(seed + 1), mix(seed + 2));
    let ls: Vec<u16> = m.l.keys().copied().collect();
    let rs: Vec<u16> = m.r.keys().copied().collect();
    let pls: Vec<u16> = ls.iter().copied().filter(|k| m.l_paired(*k)).collect();
    let nl = absent(|k| m.l.contains_key(&k), dom, b);
    let nr = absent(|k| m.r.contains_key(&k), dom, c);
    let kind = if partial { a % 10 } else { a % 4 };
    match kind {
        0 => {
            // two pairs exchange partners
            if let (Some(x), Some(y)) = (nth(&pls, b), nth(&pls, c)) {
                if x != y {
                    let (rx, ry) = (m.l[&x].1.unwrap(), m.l[&y].1.unwrap());
                    m.link(x, ry);
                    m.link(y, rx);
                    return "partners exchanged";
                }
            }
        }
        1 => {
            if let (Some(x), Some(n)) = (nth(&ls, c), nl) {
                m.swap_l(x, (n, 1));
                return "left item replaced";
            }
        }
        2 => {
            if let (Some(x), Some(n)) = (nth(&rs, b), nr) {
                m.swap_r(x, (n, 1));
                return "right item replaced";
            }
        }
        3 => {
            if b & 1 == 0 {
                if let Some(x) = nth(&pls, c) {
                    m.take_l(x);
                    return "pair missing";
                }
            } else if let (Some(x), Some(y)) = (nl, nr) {
                m.put((x, 1), (y, 1));
                return "pair added";
            }
        }
        4 => {
            if let Some(x) = nth(&pls, c) {
                m.unpair_l(x);
                return "pair unpaired";
            }
        }
        5 => {
            if let (Some(x), Some(y)) = (
                nth(&ls.iter().copied().filter(|k| !m.l_paired(*k)).collect::<Vec<_>>(), b),
                nth(&rs.iter().copied().filter(|k| !m.r_paired(*k)).collect::<Vec<_>>(), c),
            ) {
                m.link(x, y);
                return "unpaired items paired";
            }
        }
        6 => {
            if b & 1 == 0 {
                if let Some(x) = nth(&ls, c) {
                    m.take_l_only(x);
                    return "left item missing";
                }
            } else if let Some(x) = nth(&rs, c) {
                m.take_r_only(x);
                return "right item missing";
            }
        }
        7 => {
            if b & 1 == 0 {
                if let Some(x) = nl {
                    m.insert_l((x, 1));
                    return "unpaired left item added";
                }
            } else if let Some(x) = nr {
                m.insert_r((x, 1));
                return "unpaired right item added";
            }
        }
        8 => {
            // both lengths differ by one
            if let (Some(x), Some(y)) = (
                nth(&ls.iter().copied().filter(|k| !m.l_paired(*k)).collect::<Vec<_>>(), b),
                nth(&rs.iter().copied().filter(|k| !m.r_paired(*k)).collect::<Vec<_>>(), c),
            ) {
                m.take_l(x);
                m.take_r(y);
                return "one unpaired item of each side missing";
            }
        }
        _ => {
            // a pairing moves to another partner
            if let (Some(x), Some(y)) = (nth(&pls, b), nth(&rs.iter().copied().filter(|k| !m.r_paired(*k)).collect::<Vec<_>>(), c)) {
                m.unpair_l(x);
                m.link(x, y);
                return "pairing moved";
            }
        }
    }
    "nothing"
}
impl Near for CF {
    fn near(m: &mut PM, seed: u64, dom: u16) -> &'static str {
        near_pm(m, seed, dom, false)
    }
}
impl Near for PF {
    fn near(m: &mut PM, seed: u64, dom: u16) -> &'static str {
        near_pm(m, seed, dom, true)
    }
    fn eq_finding(a: &PM, b: &PM) -> Option<&'static str> {
        if (a.l.len() == b.l.len()) != (a.r.len() == b.r.len()) && a.sub_of(b) {
            Some("partial-eq-one-length-differs")
        } else {
            None
        }
    }
}
impl Near for GF {
    fn near(m: &mut GM, seed: u64, dom: u16) -> &'static str {
        let (a, b, c) = (mix(seed), mix(seed + 1), mix(seed + 2));
        let ls: Vec<u16> = m.l.keys().copied().collect();
        let rs: Vec<u16> = m.r.keys().copied().collect();
        let ur: Vec<u16> = rs.iter().copied().filter(|k| !m.r_paired(*k)).collect();
        let nl = absent(|k| m.l.contains_key(&k), dom, b);
        let nr = absent(|k| m.r.contains_key(&k), dom, c);
        match a % 7 {
            0 => {
                if let (Some(x), Some(y)) = (nth(&ls, b), nth(&rs, c)) {
                    if !m.paired(x, y) {
                        m.relink(x, y);
                        return "left item in another group";
                    }
                }
            }
            1 => {
                if let Some(x) = nth(&ls, b) {
                    m.take_l(x);
                    return "left item missing";
                }
            }
            2 => {
                if let (Some(x), Some(r)) = (nl, nth(&rs, c)) {
                    m.put_l((x, 1), r);
                    return "left item added";
                }
            }
            3 => {
                if b & 1 == 0 {
                    if let Some(x) = nth(&ur, c) {
                        m.take_r(x);
                        return "unpaired right item missing";
                    }
                } else if let Some(x) = nr {
                    m.put_r((x, 1));
                    return "unpaired right item added";
                }
            }
            4 => {
                if let (Some(x), Some(n)) = (nth(&rs, b), nr) {
                    m.swap_r(x, (n, 1), false);
                    return "right item replaced";
                }
            }
            5 => {
                if let (Some(x), Some(n)) = (nth(&ls, b), nl) {
                    let r = m.l[&x].1;
                    m.take_l(x);
                    m.put_l((n, 1), r);
                    return "left item replaced";
                }
            }
            _ => {
                if let (Some(x), Some(y)) = (nth(&ls, b), nth(&ls, c)) {
                    let (rx, ry) = (m.l[&x].1, m.l[&y].1);
                    if rx != ry {
                        m.relink(x, ry);
                        m.relink(y, rx);
                        return "left items exchanged groups";
                    }
                }
            }
        }
        "nothing"
    }
}

pub struct C14;
impl Prop for C14 {
    type Case = AnyProbe;
    const ID: &'static str = "C14";
    const RULE: &'static str = "a random history builds map A; map B is A's contents inserted in another order into a map of another capacity and hasher instance, or that after an edit in one place (item missing, added, replaced, pairing moved, exchanged, dissolved), or that after random operations, or a map with another history; ==, != in both directions and each map with itself are compared with equality of the models. Non-trivial: >=3 items in A, and B was made from A";
    fn cases(t: Tier) -> u64 {
        t.pick(350_000, 8_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(1, 2, 2, t.pick(20, 40), 12, 4)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        anyp!(c, c14, cx)
    }
}
fn c14<F: Near, S: Bld>(p: &Probe<F::K>, cx: &mut Ctx) -> Res {
    with_base::<F, S>(p, cx, |ex, p, cx| {
        if F::iters(&ex.map, &ex.m, true).is_err() {
            return Ok(());
        }
        let mode = if p.base.hasher == DEFAULT_HASHER { DEFAULT_HASHER } else { ((p.y >> 8) % MODES as u32) as u8 };
        let mut mb = ex.m.clone();
        let mut b = F::make((p.y >> 20) as usize % 40, S::make(mode, p.x as u64));
        let how = p.y % 8;
        let what = match how {
            0 | 1 => "the same contents",
            2..=4 => F::near(&mut mb, p.x as u64, ex.dom),
            5 | 6 => "the same contents, then operations",
            _ => {
                mb = F::M::default();
                "another history"
            }
        };
        if guard(|| F::rebuild(&mut b, &mb, p.x as u64)).is_err() {
            return Ok(());
        }
        if how >= 5 {
            for o in &p.tail {
                let c = safe_call::<F>(&mb, o, ex.dom);
                ex.trace.push(format!("on B: {}", show::<F>(&c)));
                F::model(&mut mb, &c);
                if exec_only::<F, S>(&mut b, &c) == T::I(PANICKED) {
                    return Ok(());
                }
            }
        }
        let domb = ex.dom + 2;
        if F::lookups(&b, &mb, domb, true, false).is_err() || F::iters(&b, &mb, true).is_err() {
            return Ok(());
        }
        ex.trace.push(format!("A: {:?}", ents::<F>(&ex.m)));
        ex.trace.push(format!("B ({what}): {:?}", ents::<F>(&mb)));
        let want = F::same_keys(&ex.m, &mb);
        cx.label(if want { "equal" } else { "different" });
        cx.label(what);
        let a = &ex.map;
        if !guard(|| F::eq_map(a, a)).map_err(|e| format!("A == A {e}"))? {
            return Err("A == A is false".into());
        }
        if !guard(|| F::eq_map(&b, &b)).map_err(|e| format!("B == B {e}"))? {
            return Err("B == B is false".into());
        }
        let ab = guard(|| F::eq_map(a, &b)).map_err(|e| format!("A == B {e}"))?;
        let ba = guard(|| F::eq_map(&b, a)).map_err(|e| format!("B == A {e}"))?;
        for (got, n, x, y) in [(ab, "A == B", &ex.m, &mb), (ba, "B == A", &mb, &ex.m)] {
            if got != want {
                let msg = format!("{n} is {got}, but the contents are {}", if want { "the same" } else { "different" });
                match F::eq_finding(x, y) {
                    Some(id) if got => cx.known(id, msg)?,
                    _ => return Err(msg),
                }
            }
        }
        cx.nontrivial = F::msize(&ex.m) >= 3 && how != 7;
        Ok(())
    })
}

// ---------------------------------------------------------------- C15
pub struct C15;
impl Prop for C15 {
    type Case = AnyProbe;
    const ID: &'static str = "C15";
    const RULE: &'static str = "a random history builds a map; it is cloned (clone, or clone_from over a map with other contents); full dumps must agree; one continuation runs in lock-step on original and clone; then operations go to either of them at random and the other's dump must not change; finally one of the two is dropped and the other is dumped again. Non-trivial: >=3 items when cloned and >=3 later operations";
    fn cases(t: Tier) -> u64 {
        t.pick(130_000, 2_500_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(1, 1, 1, t.pick(20, 40), 12, 16)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        anyp!(c, c15, cx)
    }
}
fn c15<F: Fam, S: Bld>(p: &Probe<F::K>, cx: &mut Ctx) -> Res {
    with_base::<F, S>(p, cx, |ex, p, cx| {
        let dom = ex.dom;
        let mut b = if p.x & 3 == 0 {
            // over another map
            let mut o = Ex::<F, S>::with(&Hist { ops: vec![], fill: 1 + (p.x >> 4) as u16 % 9, ..p.base.clone() }, S::make(p.base.hasher, 7), 0)?.map;
            guard(|| F::clone_from_map(&mut o, &ex.map)).map_err(|e| format!("clone_from {e}"))?;
            ex.trace.push("clone_from".into());
            o
        } else {
            ex.trace.push("clone".into());
            guard(|| F::clone_map(&ex.map)).map_err(|e| format!("clone {e}"))?
        };
        let (da, db) = (F::dump(&ex.map, dom, true), F::dump(&b, dom, true));
        if da != db {
            return Err(format!("the clone differs from the original: {}", first_diff(&db, &da)));
        }
        // equality has its own check (C14): here only that the clone equals it as a copy of itself does
        if F::eq_map(&ex.map, &ex.map) && !F::eq_map(&ex.map, &b) {
            return Err("the original does not compare equal to its clone".into());
        }
        cx.nontrivial = F::msize(&ex.m) >= 3 && p.tail.len() >= 3;
        let cut = (p.x >> 12) as usize % (p.tail.len() + 1);
        let m = ex.m.clone();
        let m = lockstep::<F, S>(&mut ex.map, &mut b, &m, dom, &p.tail[..cut], &mut ex.trace, ("the original", "its clone"))?;
        let mut ms = [m.clone(), m];
        for (i, o) in p.tail[cut..].iter().enumerate() {
            let side = (p.y >> (i % 32)) as usize & 1;
            let c = safe_call::<F>(&ms[side], o, dom);
            let s = show::<F>(&c);
            ex.trace.push(format!("on the {}: {s}", ["original", "clone"][side]));
            F::model(&mut ms[side], &c);
            let before = if side == 0 { F::dump(&b, dom, false) } else { F::dump(&ex.map, dom, false) };
            let r = if side == 0 { exec_only::<F, S>(&mut ex.map, &c) } else { exec_only::<F, S>(&mut b, &c) };
            let after = if side == 0 { F::dump(&b, dom, false) } else { F::dump(&ex.map, dom, false) };
            if before != after {
                return Err(format!("{s} on the {} changed the {}: {}", ["original", "clone"][side], ["clone", "original"][side], first_diff(&after, &before)));
            }
            if r == T::I(PANICKED) {
                return Ok(());
            }
        }
        // dropping one leaves the other alone
        let before = F::dump(&ex.map, dom, false);
        drop(b);
        let after = F::dump(&ex.map, dom, false);
        if before != after {
            return Err(format!("dropping the clone changed the original: {}", first_diff(&after, &before)));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C25
pub struct C25;
impl Prop for C25 {
    type Case = AnyProbe;
    const ID: &'static str = "C25";
    const RULE: &'static str = "a random history builds a map; it is emptied (clear, drain dropped at a random point, drain_filter selecting everything, retain rejecting everything, or removal item by item by random methods), compared through a full dump and == with a new map, and both go through the same random continuation in lock-step; emptied and compared a second time. Non-trivial: >=3 items before, and >=3 later operations";
    fn cases(t: Tier) -> u64 {
        t.pick(180_000, 3_500_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(1, 1, 1, t.pick(20, 40), 12, 14)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        match c {
            AnyProbe::C(p) => bld!(p.base.hasher, S => c25::<CF, S>(p, cx)),
            AnyProbe::P(p) => bld!(p.base.hasher, S => c25::<PF, S>(p, cx)),
            AnyProbe::G(p) => bld!(p.base.hasher, S => c25::<GF, S>(p, cx)),
        }
    }
}
pub trait Empty: Fam {
    /// Empties the map by one of the ways it has; names it.
    fn empty<S: Bld>(map: &mut Self::Map<S>, m: &Self::M, x: u32) -> &'static str;
}
fn keys(it: impl Iterator<Item = u16>, x: u32) -> Vec<u16> {
    let mut v: Vec<u16> = it.collect();
    shuffle(&mut v, x as u64);
    v
}
impl Empty for CF {
    fn empty<S: Bld>(map: &mut CycleMap<L, R, S>, m: &PM, x: u32) -> &'static str {
        match x % 6 {
            0 => {
                map.clear();
                "clear"
            }
            1 | 2 => {
                let mut it = map.drain();
                for _ in 0..(x >> 8) as usize % (m.l.len() + 2) {
                    it.next();
                }
                drop(it);
                "drain"
            }
            3 => {
                let n = (x >> 8) as usize % (m.l.len() + 2);
                map.drain_filter(|_, _| true).take(n).for_each(drop);
                "drain_filter"
            }
            4 => {
                map.retain(|_, _| false);
                "retain"
            }
            _ => {
                for k in keys(m.l.keys().copied(), x) {
                    match mix(x as u64 + k as u64) % 3 {
                        0 => drop(map.remove_via_left(&pl(k))),
                        1 => drop(map.remove_via_right(&pr(m.l[&k].1.unwrap()))),
                        _ => drop(map.remove(&pl(k), &pr(m.l[&k].1.unwrap()))),
                    }
                }
                "removal one by one"
            }
        }
    }
}
impl Empty for PF {
    fn empty<S: Bld>(map: &mut PartialCycleMap<L, R, S>, m: &PM, x: u32) -> &'static str {
        match x % 6 {
            0 => {
                map.clear();
                "clear"
            }
            1 | 2 => {
                let mut it = map.drain();
                for _ in 0..(x >> 8) as usize % (m.size() + 2) {
                    it.next();
                }
                drop(it);
                "drain"
            }
            3 => {
                let n = (x >> 8) as usize % (m.size() + 2);
                map.drain_filter(|_| true).take(n).for_each(drop);
                "drain_filter"
            }
            4 => {
                map.retain_paired(|_, _| true);
                map.retain_unpaired(|_| true);
                "retain_paired, retain_unpaired"
            }
            _ => {
                for k in keys(m.l.keys().copied(), x) {
                    if mix(x as u64 + k as u64) & 1 == 0 {
                        map.remove_left(&pl(k));
                    } else {
                        map.remove_via_left(&pl(k));
                    }
                }
                for k in keys(m.r.keys().copied(), x) {
                    if mix(x as u64 + k as u64) & 2 == 0 {
                        map.remove_right(&pr(k));
                    } else {
                        map.remove_via_right(&pr(k));
                    }
                }
                "removal one by one"
            }
        }
    }
}
impl Empty for GF {
    fn empty<S: Bld>(map: &mut GroupMap<L, R, S>, m: &GM, x: u32) -> &'static str {
        match x % 4 {
            0 => {
                map.clear();
                "clear"
            }
            1 => {
                map.retain_paired(|_, _| true);
                map.retain_unpaired(|_| true);
                "retain_paired, retain_unpaired"
            }
            2 => {
                for k in keys(m.l.keys().copied(), x) {
                    map.remove_left(&pl(k));
                }
                for k in keys(m.r.keys().copied(), x) {
                    map.remove_right(&pr(k));
                }
                "removal one by one"
            }
            _ => {
                for k in keys(m.r.keys().copied(), x) {
                    map.remove_right(&pr(k));
                }
                "removal of the right items"
            }
        }
    }
}
fn c25<F: Empty, S: Bld>(p: &Probe<F::K>, cx: &mut Ctx) -> Res {
    with_base::<F, S>(p, cx, |ex, p, cx| {
        let dom = ex.dom;
        cx.nontrivial = F::msize(&ex.m) >= 3 && p.tail.len() >= 3;
        let hm = p.base.hasher;
        for (round, x) in [p.x, p.y].into_iter().enumerate() {
            let (map, m) = (&mut ex.map, &ex.m);
            let how = guard(|| F::empty(map, m, x)).map_err(|e| format!("emptying the map (way {}) {e}", x))?;
            cx.label(how);
            ex.trace.push(format!("emptied: {how}"));
            let mut fresh = F::make(0, S::make(hm, 1));
            let (d, f) = (F::dump(&ex.map, dom, false), F::dump(&fresh, dom, false));
            if d != f {
                return Err(format!("after {how} the map differs from a new one: {}", first_diff(&d, &f)));
            }
            for (n, e) in [("emptied == new", guard(|| F::eq_map(&ex.map, &fresh))), ("new == emptied", guard(|| F::eq_map(&fresh, &ex.map)))] {
                if !e.map_err(|e| format!("{n} {e}"))? {
                    return Err(format!("after {how}, {n} is false"));
                }
            }
            let tail = if round == 0 { &p.tail[..] } else { &p.tail[..p.tail.len() / 2] };
            ex.m = lockstep::<F, S>(&mut ex.map, &mut fresh, &F::M::default(), dom, tail, &mut ex.trace, ("the emptied map", "a new map"))?;
            // the second emptying is only of interest when the contents are as the model says
            if F::lookups(&ex.map, &ex.m, dom, true, false).is_err() {
                return Ok(());
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C20
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Bulk {
    pub fam: u8,
    pub base: Any,
    pub entries: Vec<(Option<u16>, Option<u16>)>,
    /// optional-entry form
    pub opt: bool,
    /// collect into a new map instead of extending
    pub collect: bool,
    pub hint: u8,
}
struct Src<X> {
    v: std::vec::IntoIter<X>,
    hint: u8,
}
impl<X> Iterator for Src<X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(2 * n + 3)),
            _ => (0, Some(usize::MAX)),
        }
    }
}
pub struct C20;
impl Prop for C20 {
    type Case = Bulk;
    const ID: &'static str = "C20";
    const RULE: &'static str = "a random sequence of up to 24 (thorough 60; one in 200: up to 1500) entries (duplicates on either side, missing components) with one of four size hints is collected into a new map or extends a map built by a random history; a twin map gets the corresponding single insertions in order; full dumps, instances included, must agree. Non-trivial: >=4 entries with an item occurring twice";
    fn cases(t: Tier) -> u64 {
        t.pick(400_000, 8_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Bulk> {
        // one sequence in 200 is long
        let size = prop_oneof![199 => (2u16..14, Just(0), Just(t.pick(24, 60))), 1 => (14u16..1500, 60usize..1500).prop_map(|(d, n)| (d, n / 2, n))];
        (size, any::<bool>())
            .prop_flat_map(move |((dom, least, most), optional)| {
                let o = prop_oneof![3 => Just(true), 1 => Just(false)];
                let e = (o.clone(), 0..dom, o, 0..dom).prop_map(move |(a, l, b, r)| ((a || !optional).then_some(l), (b || !optional).then_some(r)));
                (
                    any_hist(t.pick(12, 24), 12),
                    proptest::collection::vec(e, least..most),
                    Just(optional),
                    any::<bool>(),
                    0u8..4,
                )
            })
            .prop_map(|(base, entries, opt, collect, hint)| Bulk { fam: 0, base, entries, opt, collect, hint })
            .boxed()
    }
    fn run(b: &Bulk, cx: &mut Ctx) -> Res {
        match &b.base {
            Any::C(h) => bld!(h.hasher, S => c20::<CF, S>(h, b, cx)),
            Any::P(h) => bld!(h.hasher, S => c20::<PF, S>(h, b, cx)),
            Any::G(h) => bld!(h.hasher, S => c20::<GF, S>(h, b, cx)),
        }
    }
}
pub trait BulkFam: Fam {
    fn fix(m: &Self::M, e: Vec<Entry>, opt: bool) -> Vec<Entry>;
    fn extend<S: Bld>(map: &mut Self::Map<S>, e: Vec<Entry>, opt: bool, hint: u8);
    fn collect(e: Vec<Entry>, opt: bool, hint: u8) -> Self::Map<DefH>;
    fn singles<S: Bld>(map: &mut Self::Map<S>, e: Vec<Entry>);
    /// The same, from an iterator that panics after `at` entries.
    fn extend_bomb<S: Bld>(map: &mut Self::Map<S>, e: Vec<Entry>, opt: bool, at: usize);
    fn collect_bomb(e: Vec<Entry>, opt: bool, at: usize) -> Self::Map<DefH>;
    fn model_add(m: &mut Self::M, e: Entry);
}
fn gopts(e: Vec<Entry>) -> Vec<(Option<L>, R)> {
    e.into_iter().map(|(l, r)| (l.map(il), ir(r.unwrap()))).collect()
}
fn il(v: V) -> L {
    L::with_tag(v.0, v.1)
}
fn ir(v: V) -> R {
    R::with_tag(v.0, v.1)
}
fn full(e: Vec<Entry>) -> Vec<(L, R)> {
    e.into_iter().map(|(l, r)| (il(l.unwrap()), ir(r.unwrap()))).collect()
}
fn opts(e: Vec<Entry>) -> Vec<OptionalPair<L, R>> {
    e.into_iter()
        .map(|(l, r)| match (l.map(il), r.map(ir)) {
            (None, None) => OptionalPair::Neither,
            (Some(l), None) => OptionalPair::SomeLeft(l),
            (None, Some(r)) => OptionalPair::SomeRight(r),
            (Some(l), Some(r)) => OptionalPair::SomeBoth(l, r),
        })
        .collect()
}
fn src<X>(v: Vec<X>, hint: u8) -> Src<X> {
    Src { v: v.into_iter(), hint }
}
impl BulkFam for CF {
    fn extend_bomb<S: Bld>(map: &mut Self::Map<S>, e: Vec<Entry>, _: bool, at: usize) {
        map.extend(bomb(full(e), at))
    }
    fn collect_bomb(e: Vec<Entry>, _: bool, at: usize) -> Self::Map<DefH> {
        bomb(full(e), at).collect()
    }
    fn model_add(m: &mut PM, e: Entry) {
        m.insert(e.0.unwrap(), e.1.unwrap());
    }
    fn fix(_: &PM, e: Vec<Entry>, _: bool) -> Vec<Entry> {
        e.into_iter().filter(|e| e.0.is_some() && e.1.is_some()).collect()
    }
    fn extend<S: Bld>(map: &mut Self::Map<S>, e: Vec<Entry>, _: bool, hint: u8) {
        map.extend(src(full(e), hint))
    }
    fn collect(e: Vec<Entry>, _: bool, hint: u8) -> Self::Map<DefH> {
        src(full(e), hint).collect()
    }
    fn singles<S: Bld>(map: &mut Self::Map<S>, e: Vec<Entry>) {
        for (l, r) in full(e) {
            map.insert(l, r);
        }
    }
}
impl BulkFam for PF {
    fn extend_bomb<S: Bld>(map: &mut Self::Map<S>, e: Vec<Entry>, opt: bool, at: usize) {
        if opt { map.extend(bomb(opts(e), at)) } else { map.extend(bomb(full(e), at)) }
    }
    fn collect_bomb(e: Vec<Entry>, opt: bool, at: usize) -> Self::Map<DefH> {
        if opt { bomb(opts(e), at).collect() } else { bomb(full(e), at).collect() }
    }
    fn model_add(m: &mut PM, e: Entry) {
        match e {
            (Some(l), Some(r)) => drop(m.insert(l, r)),
            (Some(l), None) => drop(m.insert_l(l)),
            (None, Some(r)) => drop(m.insert_r(r)),
            _ => {}
        }
    }
    fn fix(_: &PM, e: Vec<Entry>, opt: bool) -> Vec<Entry> {
        e.into_iter().filter(|e| opt || (e.0.is_some() && e.1.is_some())).collect()
    }
    fn extend<S: Bld>(map: &mut Self::Map<S>, e: Vec<Entry>, opt: bool, hint: u8) {
        if opt { map.extend(src(opts(e), hint)) } else { map.extend(src(full(e), hint)) }
    }
    fn collect(e: Vec<Entry>, opt: bool, hint: u8) -> Self::Map<DefH> {
        if opt { src(opts(e), hint).collect() } else { src(full(e), hint).collect() }
    }
    fn singles<S: Bld>(map: &mut Self::Map<S>, e: Vec<Entry>) {
        for (l, r) in e {
            match (l.map(il), r.map(ir)) {
                (None, None) => {}
                (Some(l), None) => drop(map.insert_left(l)),
                (None, Some(r)) => drop(map.insert_right(r)),
                (Some(l), Some(r)) => drop(map.insert(l, r)),
            }
        }
    }
}
impl BulkFam for GF {
    fn extend_bomb<S: Bld>(map: &mut Self::Map<S>, e: Vec<Entry>, opt: bool, at: usize) {
        if opt { map.extend(bomb(gopts(e), at)) } else { map.extend(bomb(full(e), at)) }
    }
    fn collect_bomb(e: Vec<Entry>, opt: bool, at: usize) -> Self::Map<DefH> {
        if opt { bomb(gopts(e), at).collect() } else { bomb(full(e), at).collect() }
    }
    fn model_add(m: &mut GM, e: Entry) {
        match e {
            (Some(l), Some(r)) => m.insert(l, r),
            (_, Some(r)) => {
                m.take_r(r.0);
                m.put_r(r)
            }
            _ => {}
        }
    }
    fn fix(m: &GM, e: Vec<Entry>, opt: bool) -> Vec<Entry> {
        let mut sim = m.clone();
        e.into_iter()
            .filter(|e| match *e {
                (Some(l), Some(r)) => {
                    let again = sim.paired(l.0, r.0);
                    if !again {
                        sim.insert(l, r);
                    }
                    !again
                }
                (None, Some(r)) if opt => {
                    sim.take_r(r.0);
                    sim.put_r(r);
                    true
                }
                _ => false,
            })
            .collect()
    }
    fn extend<S: Bld>(map: &mut Self::Map<S>, e: Vec<Entry>, opt: bool, hint: u8) {
        if opt {
            map.extend(src(e.into_iter().map(|(l, r)| (l.map(il), ir(r.unwrap()))).collect(), hint))
        } else {
            map.extend(src(full(e), hint))
        }
    }
    fn collect(e: Vec<Entry>, opt: bool, hint: u8) -> Self::Map<DefH> {
        if opt {
            src(e.into_iter().map(|(l, r)| (l.map(il), ir(r.unwrap()))).collect::<Vec<_>>(), hint).collect()
        } else {
            src(full(e), hint).collect()
        }
    }
    fn singles<S: Bld>(map: &mut Self::Map<S>, e: Vec<Entry>) {
        for (l, r) in e {
            match (l.map(il), r.map(ir)) {
                (Some(l), Some(r)) => map.insert(l, r),
                (_, Some(r)) => drop(map.insert_right(r)),
                _ => {}
            }
        }
    }
}
fn c20<F: BulkFam, S: Bld>(h: &Hist<F::K>, b: &Bulk, cx: &mut Ctx) -> Res {
    let tagged = |m: &F::M| -> Vec<Entry> {
        let e: Vec<Entry> = b.entries.iter().map(|(l, r)| (l.map(|k| (k, fresh_tag())), r.map(|k| (k, fresh_tag())))).collect();
        F::fix(m, e, b.opt)
    };
    let dom = b.entries.iter().flat_map(|e| [e.0, e.1]).flatten().max().unwrap_or(0).max(h.dom.max(14) - 1) + 1;
    let names = (if b.collect { "the collected map" } else { "the extended map" }, "its twin with single insertions");
    let twice = |e: &[Entry]| {
        let mut l: Vec<u16> = e.iter().filter_map(|e| e.0.map(|v| v.0)).collect();
        let mut r: Vec<u16> = e.iter().filter_map(|e| e.1.map(|v| v.0)).collect();
        let n = (l.len(), r.len());
        l.sort();
        l.dedup();
        r.sort();
        r.dedup();
        e.len() >= 4 && (l.len(), r.len()) != n
    };
    cx.label(F::NAME);
    cx.label(if b.collect { "collect" } else { "extend" });
    if b.collect {
        let e = tagged(&F::M::default());
        cx.nontrivial = twice(&e);
        cx.trace.push(format!("{}: collect {e:?}", F::NAME));
        let mut twin = F::make(0, DefH::make(0, 0));
        if guard(|| F::singles(&mut twin, e.clone())).is_err() {
            return Ok(());
        }
        let map = guard(|| F::collect(e, b.opt, b.hint)).map_err(|e| format!("collect {e}"))?;
        return diff::<F, DefH>(&map, &twin, dom, names);
    }
    let Some(mut ex) = build::<F, S>(h) else { return Ok(()) };
    let e = tagged(&ex.m);
    cx.nontrivial = twice(&e);
    let mut twin = F::clone_map(&ex.map);
    if diff::<F, S>(&ex.map, &twin, dom, names).is_err() {
        return Ok(());
    }
    ex.trace.push(format!("extend {e:?}"));
    cx.trace = std::mem::take(&mut ex.trace);
    if guard(|| F::singles(&mut twin, e.clone())).is_err() {
        return Ok(());
    }
    let map = &mut ex.map;
    guard(|| F::extend(map, e, b.opt, b.hint)).map_err(|e| format!("extend {e}"))?;
    diff::<F, S>(&ex.map, &twin, dom, names)
}

// ---------------------------------------------------------------- C21
pub struct C21;
impl Prop for C21 {
    type Case = AnyProbe;
    const ID: &'static str = "C21";
    const RULE: &'static str = "a random history builds a map; every key of the domain is looked up through the borrowed key type and through an owned item on either side, and answers must be the same stored instance (same address, the model's tag). Non-trivial: >=2 items per side";
    fn cases(t: Tier) -> u64 {
        t.pick(400_000, 8_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(1, 1, 1, t.pick(20, 40), 14, 0)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        match c {
            AnyProbe::C(p) => bld!(p.base.hasher, S => c21_c::<S>(p, cx)),
            AnyProbe::P(p) => bld!(p.base.hasher, S => c21_p::<S>(p, cx)),
            AnyProbe::G(p) => bld!(p.base.hasher, S => c21_g::<S>(p, cx)),
        }
    }
}
fn same_ref<X: Tr>(what: &str, borrowed: Res<Option<&X>>, owned: Res<Option<&X>>, want: T) -> Res {
    let b = borrowed.map_err(|e| format!("{what} borrowed {e}"))?;
    let o = owned.map_err(|e| format!("{what} owned {e}"))?;
    if b.map(|x| x as *const X) != o.map(|x| x as *const X) {
        return Err(format!("{what}: the borrowed key finds {:?}, the owned one {:?}", b.t(), o.t()));
    }
    if b.t() != want {
        return Err(format!("{what} gives {:?}, the stored instance is {want:?}", b.t()));
    }
    Ok(())
}
fn c21_c<S: Bld>(p: &Probe<CK>, cx: &mut Ctx) -> Res {
    with_base::<CF, S>(p, cx, |ex, _, cx| {
        cx.nontrivial = ex.m.l.len() >= 2;
        let (m, map) = (&ex.m, &ex.map);
        for k in 0..ex.dom {
            same_ref(&format!("get_right(L{k})"), guard(|| map.get_right(&Key(k))), guard(|| map.get_right(&pl(k))), opt(m.partner(0, k).map(|x| tr(m.rv(x)))))?;
            same_ref(&format!("get_left(R{k})"), guard(|| map.get_left(&Key(k))), guard(|| map.get_left(&pr(k))), opt(m.partner(1, k).map(|x| tl(m.lv(x)))))?;
        }
        Ok(())
    })
}
fn c21_p<S: Bld>(p: &Probe<PK>, cx: &mut Ctx) -> Res {
    with_base::<PF, S>(p, cx, |ex, _, cx| {
        cx.nontrivial = ex.m.l.len() >= 2 && ex.m.r.len() >= 2;
        let (m, map) = (&ex.m, &ex.map);
        for k in 0..ex.dom {
            same_ref(&format!("get_right(L{k})"), guard(|| map.get_right(&Key(k))), guard(|| map.get_right(&pl(k))), opt(m.partner(0, k).map(|x| tr(m.rv(x)))))?;
            same_ref(&format!("get_left(R{k})"), guard(|| map.get_left(&Key(k))), guard(|| map.get_left(&pr(k))), opt(m.partner(1, k).map(|x| tl(m.lv(x)))))?;
        }
        Ok(())
    })
}
fn c21_g<S: Bld>(p: &Probe<GK>, cx: &mut Ctx) -> Res {
    with_base::<GF, S>(p, cx, |ex, _, cx| {
        cx.nontrivial = ex.m.l.len() >= 2 && ex.m.r.len() >= 2;
        let (m, map) = (&ex.m, &ex.map);
        let cap = m.size() + 8;
        for k in 0..ex.dom {
            same_ref(&format!("get_right(L{k})"), guard(|| map.get_right(&Key(k))), guard(|| map.get_right(&pl(k))), opt(m.partner(0, k).map(|x| tr(m.rv(x)))))?;
            let addr = |it: Option<Vec<&L>>| it.map(|mut v| {
                v.sort_by_key(|x| *x as *const L as usize);
                v.iter().map(|x| (*x as *const L as usize, x.t())).collect::<Vec<_>>()
            });
            let b = guard(|| addr(map.get_left_iter(&Key(k)).map(|i| i.take(cap).collect()))).map_err(|e| format!("get_left_iter(R{k}) {e}"))?;
            let o = guard(|| addr(map.get_left_iter(&pr(k)).map(|i| i.take(cap).collect()))).map_err(|e| format!("get_left_iter(R{k}) {e}"))?;
            if b != o {
                return Err(format!("get_left_iter(R{k}): the borrowed key finds {b:?}, the owned one {o:?}"));
            }
            let want = m.r.get(&k).map(|(_, g)| tset(g.iter().map(|x| tl(m.lv(*x))).collect()));
            let got = b.map(|v| tset(v.into_iter().map(|x| x.1).collect()));
            if got != want {
                return Err(format!("get_left_iter(R{k}) gives {got:?}, the stored group is {want:?}"));
            }
        }
        Ok(())
    })
}
