//! C16, C22, C26: capacity, cost, scale.
use crate::driver::*;
use crate::exec::*;
use crate::items::*;
use crate::ops::*;
use crate::props_hist::*;
use crate::props_iter::*;
use cycle_map::OptionalPair;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

// ---------------------------------------------------------------- C16

/// 0 ordinary operation, 1 reserve, 2 try_reserve, 3 shrink_to, 4 shrink_to_fit, 5 impossible try_reserve,
/// 6 clear, 7 drain, 8 use the advertised capacity up
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Act<K> {
    pub what: u8,
    pub n: u16,
    pub side: u8,
    pub op: Op<K>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CapCase<K> {
    pub base: Hist<K>,
    pub acts: Vec<Act<K>>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AnyCap {
    C(CapCase<CK>),
    P(CapCase<PK>),
    G(CapCase<GK>),
}
const CAPDOM: u16 = 700;

fn cap_case<K: Copy + std::fmt::Debug + 'static>(w: Vec<(u32, K)>, ops: usize) -> BoxedStrategy<CapCase<K>> {
    let n = prop_oneof![2 => 0u16..4, 4 => 0u16..40, 2 => 0u16..150, 1 => 0u16..500];
    let act = (
        prop_oneof![12 => Just(0u8), 3 => Just(1u8), 3 => Just(2), 3 => Just(3), 2 => Just(4), 1 => Just(5), 1 => Just(6), 1 => Just(7), 2 => Just(8)],
        n,
        0u8..2,
        op(w.clone()),
    )
        .prop_map(|(what, n, side, mut op)| {
            // wider keys than the default selectors have
            op.a.1 = op.a.1.wrapping_mul(11).wrapping_add(n);
            op.b.1 = op.b.1.wrapping_mul(7).wrapping_add(n);
            Act { what, n, side, op }
        });
    (
        hist(w, 4, 24),
        prop_oneof![3 => Just(0u16), 2 => 0u16..20, 3 => 0u16..120, 1 => 100u16..400],
        prop_oneof![2 => Just(0u16), 3 => 0u16..60, 1 => 0u16..500],
        proptest::collection::vec(act, 1..ops),
    )
        .prop_map(|(mut base, fill, cap, acts)| {
            base.dom = CAPDOM;
            base.fill = fill;
            base.cap = cap;
            CapCase { base, acts }
        })
        .boxed()
}

/// Addresses of the stored items.
type Addr = HashMap<(u8, u16), usize>;
pub trait CapFam: Caps {
    fn addrs<S: Bld>(map: &Self::Map<S>) -> Addr;
    /// Number of stored items per capacity value of `caps`.
    fn sizes<S: Bld>(map: &Self::Map<S>) -> Vec<usize> {
        let (l, r) = Self::lens::<S>(map);
        vec![l, r]
    }
    /// Reserves on the given capacity value; false when the map has no such call.
    fn reserve<S: Bld>(map: &mut Self::Map<S>, side: usize, k: usize) -> bool;
    fn try_reserve<S: Bld>(map: &mut Self::Map<S>, side: usize, k: usize) -> Option<bool>;
    fn shrink<S: Bld>(map: &mut Self::Map<S>, side: usize, k: usize) -> bool;
    fn fit<S: Bld>(map: &mut Self::Map<S>) -> bool;
    fn drain_some<S: Bld>(map: &mut Self::Map<S>, pulls: usize) -> bool;
    /// Adds an absent item to the given side without disturbing the other items; false when impossible.
    fn add<S: Bld>(map: &mut Self::Map<S>, side: usize, k: u16) -> bool;
}
fn addr_of<'a>(l: impl Iterator<Item = &'a L>, r: impl Iterator<Item = &'a R>) -> Addr {
    let mut a = Addr::new();
    a.extend(l.take(5000).map(|x| ((0u8, x.key.0), x as *const L as usize)));
    a.extend(r.take(5000).map(|x| ((1u8, x.key.0), x as *const R as usize)));
    a
}
impl CapFam for CF {
    fn addrs<S: Bld>(map: &Self::Map<S>) -> Addr {
        addr_of(map.iter_left(), map.iter_right())
    }
    fn sizes<S: Bld>(map: &Self::Map<S>) -> Vec<usize> {
        vec![map.len()]
    }
    fn reserve<S: Bld>(map: &mut Self::Map<S>, _: usize, k: usize) -> bool {
        map.reserve(k);
        true
    }
    fn try_reserve<S: Bld>(map: &mut Self::Map<S>, _: usize, k: usize) -> Option<bool> {
        Some(map.try_reserve(k).is_ok())
    }
    fn shrink<S: Bld>(map: &mut Self::Map<S>, _: usize, k: usize) -> bool {
        map.shrink_to(k);
        true
    }
    fn fit<S: Bld>(map: &mut Self::Map<S>) -> bool {
        map.shrink_to_fit();
        true
    }
    fn drain_some<S: Bld>(map: &mut Self::Map<S>, pulls: usize) -> bool {
        map.drain().take(pulls).count();
        true
    }
    fn add<S: Bld>(map: &mut Self::Map<S>, _: usize, k: u16) -> bool {
        let free = !map.contains_left(&pl(k)) && !map.contains_right(&pr(k));
        if free {
            map.insert(L::new(k), R::new(k));
        }
        free
    }
}
impl CapFam for PF {
    fn addrs<S: Bld>(map: &Self::Map<S>) -> Addr {
        addr_of(map.iter_left(), map.iter_right())
    }
    fn reserve<S: Bld>(map: &mut Self::Map<S>, side: usize, k: usize) -> bool {
        if side == 0 { map.reserve_left(k) } else { map.reserve_right(k) }
        true
    }
    fn try_reserve<S: Bld>(map: &mut Self::Map<S>, side: usize, k: usize) -> Option<bool> {
        Some(if side == 0 { map.try_reserve_left(k) } else { map.try_reserve_right(k) }.is_ok())
    }
    fn shrink<S: Bld>(map: &mut Self::Map<S>, side: usize, k: usize) -> bool {
        if side == 0 { map.shrink_to_left(k) } else { map.shrink_to_right(k) }
        true
    }
    fn fit<S: Bld>(map: &mut Self::Map<S>) -> bool {
        map.shrink_to_fit();
        true
    }
    fn drain_some<S: Bld>(map: &mut Self::Map<S>, pulls: usize) -> bool {
        map.drain().take(pulls).count();
        true
    }
    fn add<S: Bld>(map: &mut Self::Map<S>, side: usize, k: u16) -> bool {
        if side == 0 {
            let free = !map.contains_left(&pl(k));
            if free {
                map.insert_left(L::new(k));
            }
            free
        } else {
            let free = !map.contains_right(&pr(k));
            if free {
                map.insert_right(R::new(k));
            }
            free
        }
    }
}
impl CapFam for GF {
    fn addrs<S: Bld>(map: &Self::Map<S>) -> Addr {
        addr_of(map.iter_left(), map.iter_right())
    }
    fn reserve<S: Bld>(_: &mut Self::Map<S>, _: usize, _: usize) -> bool {
        false
    }
    fn try_reserve<S: Bld>(_: &mut Self::Map<S>, _: usize, _: usize) -> Option<bool> {
        None
    }
    fn shrink<S: Bld>(_: &mut Self::Map<S>, _: usize, _: usize) -> bool {
        false
    }
    fn fit<S: Bld>(_: &mut Self::Map<S>) -> bool {
        false
    }
    fn drain_some<S: Bld>(_: &mut Self::Map<S>, _: usize) -> bool {
        false
    }
    fn add<S: Bld>(map: &mut Self::Map<S>, side: usize, k: u16) -> bool {
        if side == 0 {
            let free = !map.contains_left(&pl(k));
            let Some(r) = map.iter_right().map(|r| r.key.0).next() else { return false };
            if free {
                map.insert_left(L::new(k), &pr(r));
            }
            free
        } else {
            let free = !map.contains_right(&pr(k));
            if free {
                map.insert_right(R::new(k));
            }
            free
        }
    }
}

/// Adds `k` absent items to one side; no item that was stored before may move, nor may one of the new ones.
fn promised<F: CapFam, S: Bld>(map: &mut F::Map<S>, side: usize, k: usize, start: u16, why: &str) -> Res<bool> {
    let mut seen = F::addrs::<S>(map);
    let mut added = 0;
    let mut key = start % CAPDOM;
    let both = F::caps::<S>(map).len() == 1;
    for _ in 0..CAPDOM {
        if added == k {
            break;
        }
        if F::add::<S>(map, side, key) {
            added += 1;
            if added == 1 || added == k || added % 16 == 0 {
                let now = F::addrs::<S>(map);
                if let Some(((s, x), _)) = seen.iter().find(|(x, a)| (both || x.0 as usize == side) && now.get(*x) != Some(a)) {
                    return Err(format!("{why}, but adding entry {added} of {k} moved {}{x}", if *s == 0 { 'L' } else { 'R' }));
                }
                seen = now;
            }
        }
        key = (key + 1) % CAPDOM;
    }
    Ok(added >= 1)
}

pub struct C16;
impl Prop for C16 {
    type Case = AnyCap;
    const ID: &'static str = "C16";
    const RULE: &'static str = "a map with a random initial capacity and prefill goes through random ordinary operations mixed with capacity calls; after with_capacity(n), reserve(k) and a successful try_reserve(k) the advertised capacity must cover the promise and that many absent items are added while the addresses of all stored items are watched; the advertised capacity itself is used up the same way; shrink results are compared with the bounds len, requested minimum and the capacity of a new map of that size; clear and drain must keep the capacity; an impossible try_reserve must be an error; a full dump before and after each call that must not change contents is compared. Non-trivial: >=2 capacity calls, >=1 of them on a map that stored >=3 items or had removals";
    fn cases(t: Tier) -> u64 {
        t.pick(5_000, 120_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyCap> {
        let n = t.pick(24, 60);
        prop_oneof![
            3 => cap_case(w_c(), n).prop_map(AnyCap::C),
            4 => cap_case(w_p(), n).prop_map(AnyCap::P),
            1 => cap_case(w_g(), n).prop_map(AnyCap::G),
        ]
        .boxed()
    }
    fn run(c: &AnyCap, cx: &mut Ctx) -> Res {
        match c {
            AnyCap::C(h) => bld!(h.base.hasher, S => c16::<CF, S>(h, cx)),
            AnyCap::P(h) => bld!(h.base.hasher, S => c16::<PF, S>(h, cx)),
            AnyCap::G(h) => bld!(h.base.hasher, S => c16::<GF, S>(h, cx)),
        }
    }
}
fn c16<F: CapFam, S: Bld>(c: &CapCase<F::K>, cx: &mut Ctx) -> Res {
    cx.label(F::NAME);
    let mk = || S::make(c.base.hasher, 7);
    // a new map
    let n = c.base.cap as usize;
    let mut map = guard(|| F::make::<S>(n, mk()))?;
    let caps = F::caps::<S>(&map);
    if caps.iter().any(|x| *x < n) {
        return Err(format!("{}::with_capacity({n}) advertises {caps:?}", F::NAME));
    }
    if F::lens::<S>(&map) != (0, 0) {
        return Err("a new map is not empty".into());
    }
    let last = caps.len() - 1;
    let mut trace = vec![format!("{} with_capacity({n}), hasher {}, prefill {}", F::NAME, mode_name(c.base.hasher), c.base.fill)];
    // right items first: a GroupMap's left items need one
    guard(|| promised::<F, S>(&mut map, last, n.min(300), 3, &format!("with_capacity({n})")))??;
    let more = n.min(300).saturating_sub(F::lens::<S>(&map).0);
    guard(|| promised::<F, S>(&mut map, 0, more, 5, &format!("with_capacity({n})")))??;
    // the map under test
    let mut ex = match Ex::<F, S>::with(&c.base, mk(), n) {
        Ok(e) => e,
        Err(_) => return Ok(()),
    };
    let (mut calls, mut loaded) = (0, false);
    let mut removed = false;
    for a in &c.acts {
        let side = (a.side as usize).min(last);
        let k = a.n as usize;
        let map = &mut ex.map;
        let len = F::sizes::<S>(map)[side];
        let was = F::caps::<S>(map);
        let fresh = |k: usize| F::caps::<S>(&F::make::<S>(k, mk()));
        let dump = |m: &F::Map<S>| F::dump(m, 64, false);
        let mut keeps = true;
        let before = if a.what == 0 { crate::tree::T::U } else { dump(map) };
        let says;
        // additions that a promise covers happen after the contents were compared
        let mut promise: Option<usize> = None;
        match a.what {
            1 => {
                says = format!("reserve({k}) on side {side} with {len} entries, capacity {was:?}");
                if !guard(|| F::reserve::<S>(map, side, k)).map_err(|e| format!("{says} {e}"))? {
                    continue;
                }
                promise = Some(k);
            }
            2 => {
                says = format!("try_reserve({k}) on side {side} with {len} entries, capacity {was:?}");
                match guard(|| F::try_reserve::<S>(map, side, k)).map_err(|e| format!("{says} {e}"))? {
                    None => continue,
                    Some(true) => promise = Some(k),
                    Some(false) => return Err(format!("{says} reports an error")),
                }
            }
            3 | 4 => {
                let least = if a.what == 3 { k } else { 0 };
                says = if a.what == 3 { format!("shrink_to({k}) on side {side} with {len} entries, capacity {was:?}") } else { format!("shrink_to_fit with {:?} entries, capacity {was:?}", F::sizes::<S>(map)) };
                let done = if a.what == 3 { guard(|| F::shrink::<S>(map, side, k)) } else { guard(|| F::fit::<S>(map)) };
                if !done.map_err(|e| format!("{says} {e}"))? {
                    continue;
                }
                let now = F::caps::<S>(map);
                for (i, ln) in F::sizes::<S>(map).into_iter().enumerate() {
                    if a.what == 3 && i != side {
                        continue;
                    }
                    let need = ln.max(least);
                    if now[i] < ln || now[i] < was[i].min(need) {
                        return Err(format!("{says} leaves capacity {now:?}"));
                    }
                    let most = fresh(need)[i];
                    if now[i] > most {
                        return Err(format!("{says} leaves capacity {now:?}, a new map with_capacity({need}) has only {most}"));
                    }
                }
            }
            5 => {
                let k = if k % 2 == 0 { usize::MAX - (k / 2) } else { (1usize << 59) + k };
                if a.op.x & 1 == 1 {
                    says = format!("reserve({k:#x})");
                    match guard(|| F::reserve::<S>(map, side, k)) {
                        Ok(false) => continue,
                        Ok(true) => return Err(format!("{says} returns")),
                        Err(_) => {}
                    }
                } else {
                    says = format!("try_reserve({k:#x})");
                match guard(|| F::try_reserve::<S>(map, side, k)).map_err(|e| format!("{says} {e}"))? {
                    None => continue,
                    Some(false) => {}
                    Some(true) => return Err(format!("{says} reports success")),
                }
                }
            }
            6 | 7 => {
                keeps = false;
                says = if a.what == 6 { format!("clear with {len} entries") } else { format!("drain dropped after {k} of {len} entries") };
                let done = if a.what == 6 {
                    guard(|| {
                        F::clear::<S>(map);
                        true
                    })
                } else {
                    guard(|| F::drain_some::<S>(map, k))
                };
                if !done.map_err(|e| format!("{says} {e}"))? {
                    continue;
                }
                let now = F::caps::<S>(map);
                if now.iter().zip(&was).any(|(a, b)| a < b) {
                    return Err(format!("{says}: capacity {was:?} before, {now:?} after"));
                }
                ex.m = F::M::default();
            }
            8 => {
                says = format!("capacity {was:?} with {len} entries");
                promise = Some((was[side] - len.min(was[side])).min(320));
                if was[side] < len {
                    return Err(says);
                }
            }
            _ => {
                let l0 = F::lens::<S>(map);
                if ex.step(&a.op, Chk { ret: false, tags: false, obs: false }).is_err() {
                    return Ok(());
                }
                let l1 = F::lens::<S>(&ex.map);
                removed |= l1.0 < l0.0 || l1.1 < l0.1;
                continue;
            }
        }
        trace.push(says.clone());
        cx.label(match a.what {
            1 => "reserve",
            2 => "try_reserve",
            3 => "shrink_to",
            4 => "shrink_to_fit",
            5 => "impossible",
            6 => "clear",
            7 => "drain",
            _ => "use up",
        });
        calls += 1;
        loaded |= len >= 3 || removed;
        let map = &mut ex.map;
        if keeps {
            let after = dump(map);
            if before != after {
                return Err(format!("{says} changed the contents: {}", first_diff(&before, &after)));
            }
        }
        if let Some(k) = promise {
            let now = F::caps::<S>(map);
            if now[side] < len + k {
                return Err(format!("{says}: the map advertises {now:?} afterwards, promised were {}", len + k));
            }
            guard(|| promised::<F, S>(map, side, k, a.op.a.1, &says))??;
            // the additions are not in the model, which only serves to choose arguments
            match guard(|| F::extract::<S>(map, CAPDOM)) {
                Ok(Ok(m)) => ex.m = m,
                _ => return Ok(()),
            }
        }
    }
    cx.trace = trace;
    cx.nontrivial = calls >= 2 && loaded;
    Ok(())
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Phase {
    /// 0 grow, 1 remove, 2 re-pair, 3 everything, 4 filter, 5 capacity and clone, 6 wipe,
    /// 7 store and remove a foreign pair about 2^n times, 8 add single items and re-pair
    pub kind: u8,
    pub n: u16,
    pub seed: u64,
    /// key window, in 1/16 of the domain
    pub lo: u8,
    pub span: u8,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Big {
    pub fam: u8,
    pub hasher: u8,
    pub dom: u16,
    pub cap: u16,
    pub phases: Vec<Phase>,
}
pub struct C26;
impl Prop for C26 {
    type Case = Big;
    const ID: &'static str = "C26";
    const RULE: &'static str = "phased histories over up to 4000 (thorough: 30000) keys per side: growing, removing, re-pairing, mixed, filtering, capacity/clone and wiping phases of up to 3000 operations each, over random key windows and several hashers; or small maps of colliding items through whose life foreign pairs pass about 2^8..2^17 (thorough: 2^20) times between the phases; or maps of 66000 to 180000 (thorough: 400000) entries per side through phases of bulk changes, against arrays; at the end of each phase every key is looked up from both sides and every iterator is compared with the model. Non-trivial: >=500 items were stored at some time and >=100 were removed, re-paired or replaced, or >=5 items lived through >=200 foreign pairs";
    fn cases(t: Tier) -> u64 {
        t.pick(4_000, 25_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Big> {
        let phase = (
            prop_oneof![6 => Just(0u8), 4 => Just(1u8), 4 => Just(2), 4 => Just(3), 1 => Just(4), 2 => Just(5), 1 => Just(6)],
            prop_oneof![1 => 1u16..60, 3 => 100u16..800, 3 => 500u16..3000],
            any::<u64>(),
            0u8..16,
            prop_oneof![3 => Just(16u8), 1 => 1u8..16],
        )
            .prop_map(|(kind, n, seed, lo, span)| Phase { kind, n, seed, lo, span });
        let dom = if t == Tier::Thorough {
            prop_oneof![3 => 200u16..1200, 3 => 1000u16..4000, 1 => 4000u16..30000].boxed()
        } else {
            prop_oneof![3 => 200u16..1200, 3 => 1000u16..4000].boxed()
        };
        // small maps of colliding items over a long life: whatever distinguishes the entries must stay distinct
        let old = (prop_oneof![1 => Just(0u8), 3 => Just(1), 1 => Just(2)], prop_oneof![4 => Just(1u8), 1 => Just(2), 2 => Just(3), 2 => Just(6)], prop_oneof![2 => 5u16..20, 1 => 12u16..60], 10u16..80, 0u16..3, proptest::collection::vec((prop_oneof![3 => Just(8u16), 4 => Just(16), 2 => 8u16..t.pick(18, 21)], any::<u64>(), 10u16..300, prop_oneof![2 => Just(0u8), 1 => Just(1), 1 => Just(2), 3 => Just(3), 4 => Just(8)], 0u8..5), 1..9))
            .prop_map(|(fam, hasher, dom, n, spice, burns)| {
                let ph = |kind, n, seed| Phase { kind, n, seed, lo: 0, span: 16 };
                let mut phases = vec![ph(0, n, burns[0].1 ^ 1)];
                for (e, seed, n, kind, rest) in burns {
                    if rest == 4 {
                        phases.push(ph(5, spice, seed ^ 2));
                    }
                    phases.push(ph(7, e, seed));
                    phases.push(ph(kind, n, seed ^ 3));
                    if rest == 3 {
                        phases.push(ph(3, n, seed ^ 4));
                    }
                }
                Big { fam, hasher, dom, cap: 0, phases }
            });
        let usual = (
            prop_oneof![2 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8)],
            prop_oneof![6 => Just(0u8), 2 => Just(5), 2 => Just(6), 1 => Just(4), 1 => Just(3), 2 => Just(DEFAULT_HASHER)],
            dom,
            prop_oneof![3 => Just(0u16), 1 => 0u16..2000],
            proptest::collection::vec(phase, 2..t.pick(10, 20)),
        )
            .prop_map(|(fam, hasher, dom, cap, phases)| {
                // few distinct hashes make every operation linear
                let dom = if hasher == 3 || hasher == 4 { dom % 500 + 20 } else { dom };
                Big { fam, hasher, dom, cap, phases }
            });
        // more entries than 16 bits count
        let huge = (3u8..6, prop_oneof![4 => 66u16..90, 1 => 90u16..t.pick(180, 400)], 0u16..2, proptest::collection::vec((1u8..8, any::<u64>()), 2..5), any::<u64>())
            .prop_map(|(fam, dom, cap, mut ph, seed)| {
                ph.insert(0, (0, seed));
                let phases = ph.into_iter().map(|(kind, seed)| Phase { kind, n: 0, seed, lo: 0, span: 16 }).collect();
                Big { fam, hasher: DEFAULT_HASHER, dom, cap, phases }
            });
        prop_oneof![160 => usual.boxed(), 80 => old.boxed(), 4 => huge.boxed()].boxed()
    }
    fn run(c: &Big, cx: &mut Ctx) -> Res {
        match c.fam {
            3.. => crate::props_huge::huge(c, cx),
            0 => bld!(c.hasher, S => c26::<CF, S>(c, cx)),
            1 => bld!(c.hasher, S => c26::<PF, S>(c, cx)),
            _ => bld!(c.hasher, S => c26::<GF, S>(c, cx)),
        }
    }
}
fn in_phase(kind: u8, name: &str) -> bool {
    let bulk = name.starts_with("Retain") || name == "DrainFilter";
    let wipe = name == "Clear" || name == "Drain";
    let cap = name.contains("Reserve") || name.starts_with("Shrink") || name == "CloneSelf";
    match kind {
        0 => name.starts_with("Insert") || name.starts_with("Extend"),
        1 => name.starts_with("Remove"),
        2 => name.starts_with("Swap") || name.contains("air") && !bulk || name == "InsertRemove",
        3 => !bulk && !wipe && !cap,
        4 => bulk,
        5 => cap,
        // mostly what gives entries a new identity
        8 => name.contains("air") && !bulk || name == "InsertLeft" || name == "InsertRight" || name.starts_with("Swap"),
        _ => wipe,
    }
}
fn c26<F: Fam, S: Bld>(c: &Big, cx: &mut Ctx) -> Res {
    let h = Hist { hasher: c.hasher, dom: c.dom, cap: c.cap, fill: 0, ops: vec![], raw: false, age: 0 };
    let mut ex = Ex::<F, S>::new(&h)?;
    let quiet = Chk { ret: false, tags: false, obs: false };
    let (mut most, mut gone, mut burnt) = (0, 0usize, 0u64);
    let mut trace = std::mem::take(&mut ex.trace);
    for (i, p) in c.phases.iter().enumerate() {
        if p.kind == 7 {
            // the entries made next share their low bits with the ones made first
            let n = (1u64 << p.n.min(24)).saturating_sub(if p.seed % 2 == 0 { p.seed % 128 } else { p.seed % 512 });
            guard(|| F::burn(&mut ex.map, c.dom, c.dom + 1, n))?;
            burnt += n;
            trace.push(format!("phase {i}: a foreign pair stored and removed {n} times"));
            if let Err(e) = ex.observe(true, false) {
                cx.trace = trace;
                return Err(format!("after phase {i}: {e}"));
            }
            continue;
        }
        let w: Vec<(u32, F::K)> = F::weights().into_iter().filter(|(_, k)| in_phase(p.kind, F::kname(*k))).collect();
        let total: u32 = w.iter().map(|x| x.0).sum();
        if total == 0 {
            continue;
        }
        let n = match p.kind {
            4 => 1 + p.n as usize % 3,
            5 => 1 + p.n as usize % 6,
            6 => 1,
            _ => p.n as usize,
        };
        let start = F::msize(&ex.m);
        let (lo, span) = (p.lo as u32 * c.dom as u32 / 16, (p.span as u32 * c.dom as u32 / 16).max(1));
        let mut s = mix(p.seed);
        for _ in 0..n {
            s = mix(s);
            let mut pick = (s % total as u64) as u32;
            let k = w.iter().find(|(x, _)| {
                if pick < *x {
                    true
                } else {
                    pick -= *x;
                    false
                }
            }).unwrap().1;
            let mut sel = |stored: bool| {
                s = mix(s);
                let key = ((lo + (s >> 32) as u32 % span) % c.dom as u32) as u16;
                if c.dom < 64 && p.seed % 3 > 0 {
                    return Sel([0, 0, 1, 2, 2, 2, 3, 3, 4, 4, 4, 4, 5, 5, 5, 6][(s & 15) as usize], (s >> 32) as u16 % 64);
                }
                match s & 31 {
                    0 | 1 if stored => Sel(1, key),
                    2 | 3 if stored => Sel(5, key),
                    4 if stored => Sel(3, key),
                    _ => Sel(0, key),
                }
            };
            let (a, b, d) = (sel(true), sel(true), sel(false));
            s = mix(s);
            let mut x = s as u32;
            if p.kind == 4 {
                // reject about an eighth
                x = (x & !0x7ff) | 1 | (x & 0x100);
            }
            let o = Op { k, a, b, c: d, x };
            if let Err(e) = ex.step(&o, quiet) {
                cx.trace = trace;
                cx.trace.push(ex.trace.last().cloned().unwrap_or_default());
                return Err(format!("phase {i}: {e}"));
            }
            ex.trace.clear();
        }
        most = most.max(F::msize(&ex.m));
        gone += match p.kind {
            1 | 4 | 6 => start.saturating_sub(F::msize(&ex.m)),
            2 => n,
            _ => 0,
        };
        trace.push(format!("phase {i}: kind {} with {n} operations from seed {} over {span} keys from {lo}; {} items", p.kind, p.seed, F::msize(&ex.m)));
        if let Err(e) = ex.observe(true, false) {
            cx.trace = trace;
            return Err(format!("after phase {i}: {e}"));
        }
    }
    cx.label(F::NAME);
    cx.label(mode_name(c.hasher));
    cx.trace = trace;
    cx.nontrivial = most >= 500 && gone >= 100 || most >= 5 && burnt >= 200;
    Ok(())
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cost {
    pub fam: u8,
    pub n: u16,
    /// GroupMap: left items per right item
    pub per: u16,
    pub cap: bool,
    pub seed: u64,
    pub churn: u16,
    pub m: u16,
}
pub struct C22;
impl Prop for C22 {
    type Case = Cost;
    const ID: &'static str = "C22";
    const RULE: &'static str = "maps of 500..4000 entries are built by insertion and a random churn under a well-distributed hasher while all evaluations of item hashes and equalities are counted; then each kind of single-item operation runs on many random present and absent arguments. Lookups and removals may use at most 16 hashes and 64 equalities each (plus 4 per member of a removed group); each other kind of operation at most 64 equalities per call (plus 4 per member of a moved or removed group), and run M times at most 40*M + 8*N hashes in total with at most 8 calls above 40 (table growth); n insertions at most 60*n. Every pass over the whole map (each iterator, its len, Debug, ==, clone, retain, drain, drain_filter, reserve, shrink) may use at most 16 evaluations per stored item plus 8*N. Non-trivial: >=500 entries stored";
    fn cases(t: Tier) -> u64 {
        t.pick(2_000, 24_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Cost> {
        (0u8..3, 500u16..t.pick(2500, 12_000), prop_oneof![2 => 1u16..12, 1 => 12u16..3000], any::<bool>(), any::<u64>(), prop_oneof![1 => Just(0u16), 2 => 0u16..1500], 200u16..600)
            .prop_map(|(fam, n, per, cap, seed, churn, m)| Cost { fam, n, per, cap, seed, churn, m })
            .boxed()
    }
    fn run(c: &Cost, cx: &mut Ctx) -> Res {
        match c.fam {
            0 => c22::<CF>(c, cx),
            1 => c22::<PF>(c, cx),
            _ => c22::<GF>(c, cx),
        }
    }
}
fn counted<X>(f: impl FnOnce() -> X) -> Res<(X, u64, u64)> {
    let (h, e) = (HASHES.with(|c| c.get()), EQS.with(|c| c.get()));
    let x = guard(f)?;
    Ok((x, HASHES.with(|c| c.get()) - h, EQS.with(|c| c.get()) - e))
}
pub trait CostFam: Fam {
    /// Runs every lookup on the two keys; each element is one call's name and evaluations.
    fn ask(map: &Self::Map<H>, l: u16, r: u16) -> Res<Vec<(&'static str, u64, u64)>>;
    /// Runs every operation that walks the whole map; name, stored items, evaluations.
    fn passes(map: &Self::Map<H>, seed: u64) -> Res<Vec<(&'static str, usize, u64, u64)>>;
}
fn odd(k: u16, seed: u64) -> bool {
    (mix(seed ^ k as u64) >> 7) % 2 == 1
}
macro_rules! passes {
    ($v:ident, $n:expr; $($name:literal => $e:expr),* $(,)?) => { $( let (_, h, e) = counted(|| { let _ = std::hint::black_box($e); })?; $v.push(($name, $n, h, e)); )* };
}
macro_rules! on_copy {
    ($v:ident, $n:expr, $map:ident; $($name:literal => |$c:ident| $e:expr),* $(,)?) => { $( {
        let mut $c = $map.clone();
        let (_, h, e) = counted(|| { let _ = std::hint::black_box($e); })?;
        $v.push(($name, $n, h, e));
    } )* };
}
macro_rules! asks {
    ($v:ident; $($name:literal => $e:expr),* $(,)?) => { $( let (_, h, e) = counted(|| { let _ = std::hint::black_box($e); })?; $v.push(($name, h, e)); )* };
}
impl CostFam for CF {
    fn ask(map: &Self::Map<H>, l: u16, r: u16) -> Res<Vec<(&'static str, u64, u64)>> {
        let mut v = vec![];
        let (l, r) = (pl(l), pr(r));
        asks!(v; "contains_left" => map.contains_left(&l), "contains_right" => map.contains_right(&r), "get_left" => map.get_left(&r),
            "get_right" => map.get_right(&l), "are_paired" => map.are_paired(&l, &r), "len" => map.len(), "is_empty" => map.is_empty());
        Ok(v)
    }
    fn passes(map: &Self::Map<H>, seed: u64) -> Res<Vec<(&'static str, usize, u64, u64)>> {
        let mut v = vec![];
        let n = 2 * map.len();
        passes!(v, n; "iter" => map.iter().count(), "iter_left" => map.iter_left().count(), "iter_right" => map.iter_right().count(),
            "clone" => map.clone(), "Debug" => format!("{map:?}"), "iter().len" => map.iter().len(), "iter().size_hint" => map.iter().size_hint());
        let other = map.clone();
        passes!(v, n; "==" => *map == other);
        on_copy!(v, n, map; "retain all" => |c| c.retain(|_, _| true), "retain none" => |c| c.retain(|_, _| false), "retain some" => |c| c.retain(|l, _| odd(l.key.0, seed)),
            "drain" => |c| c.drain().count(), "drain_filter some" => |c| c.drain_filter(|l, _| odd(l.key.0, seed)).count(),
            "drain_filter dropped" => |c| drop(c.drain_filter(|l, _| odd(l.key.0, seed))), "clear" => |c| c.clear(), "reserve" => |c| c.reserve(n),
            "try_reserve" => |c| c.try_reserve(n).is_ok(), "shrink_to_fit" => |c| c.shrink_to_fit(), "shrink_to" => |c| c.shrink_to(n));
        Ok(v)
    }
}
impl CostFam for PF {
    fn ask(map: &Self::Map<H>, l: u16, r: u16) -> Res<Vec<(&'static str, u64, u64)>> {
        let mut v = vec![];
        let (l, r) = (pl(l), pr(r));
        asks!(v; "contains_left" => map.contains_left(&l), "contains_right" => map.contains_right(&r), "get_left" => map.get_left(&r),
            "get_right" => map.get_right(&l), "are_paired" => map.are_paired(&l, &r), "is_left_paired" => map.is_left_paired(&l),
            "is_right_paired" => map.is_right_paired(&r), "len_left" => map.len_left(), "len_right" => map.len_right(), "is_empty" => map.is_empty());
        Ok(v)
    }
    fn passes(map: &Self::Map<H>, seed: u64) -> Res<Vec<(&'static str, usize, u64, u64)>> {
        let mut v = vec![];
        let n = map.len_left() + map.len_right();
        passes!(v, n; "iter" => map.iter().count(), "iter_left" => map.iter_left().count(), "iter_right" => map.iter_right().count(),
            "iter_paired" => map.iter_paired().count(), "iter_unpaired" => map.iter_unpaired().count(),
            "clone" => map.clone(), "Debug" => format!("{map:?}"), "iter().len" => map.iter().len(), "iter().size_hint" => map.iter().size_hint(),
            "iter_paired().len" => map.iter_paired().len(), "iter_unpaired().len" => map.iter_unpaired().len());
        let other = map.clone();
        passes!(v, n; "==" => *map == other);
        let lo = |o: &OptionalPair<&L, &R>| odd(o.get_left().map(|l| l.key.0).or(o.get_right().map(|r| r.key.0)).unwrap(), seed);
        on_copy!(v, n, map; "retain all" => |c| c.retain(|_| false), "retain none" => |c| c.retain(|_| true), "retain some" => |c| c.retain(|o| lo(o)),
            "retain_paired" => |c| c.retain_paired(|l, _| odd(l.key.0, seed)), "retain_unpaired" => |c| c.retain_unpaired(|o| lo(o)),
            "drain" => |c| c.drain().count(), "drain dropped" => |c| drop(c.drain()), "drain_filter some" => |c| c.drain_filter(|o| lo(&o)).count(),
            "drain_filter dropped" => |c| drop(c.drain_filter(|o| lo(&o))), "clear" => |c| c.clear(), "reserve_left" => |c| c.reserve_left(n),
            "reserve_right" => |c| c.reserve_right(n), "try_reserve_left" => |c| c.try_reserve_left(n).is_ok(), "try_reserve_right" => |c| c.try_reserve_right(n).is_ok(),
            "shrink_to_fit" => |c| c.shrink_to_fit(), "shrink_to_left" => |c| c.shrink_to_left(n), "shrink_to_right" => |c| c.shrink_to_right(n));
        Ok(v)
    }
}
impl CostFam for GF {
    fn ask(map: &Self::Map<H>, l: u16, r: u16) -> Res<Vec<(&'static str, u64, u64)>> {
        let mut v = vec![];
        let (l, r) = (pl(l), pr(r));
        asks!(v; "contains_left" => map.contains_left(&l), "contains_right" => map.contains_right(&r),
            "get_left_iter" => map.get_left_iter(&r).is_some(), "get_right" => map.get_right(&l).is_some(), "are_paired" => map.are_paired(&l, &r),
            "is_right_paired" => map.is_right_paired(&r), "len_left" => map.len_left(), "len_right" => map.len_right(), "is_empty" => map.is_empty());
        Ok(v)
    }
    fn passes(map: &Self::Map<H>, seed: u64) -> Res<Vec<(&'static str, usize, u64, u64)>> {
        let mut v = vec![];
        let n = map.len_left() + map.len_right();
        passes!(v, n; "iter" => map.iter().count(), "iter_left" => map.iter_left().count(), "iter_right" => map.iter_right().count(),
            "iter_paired" => map.iter_paired().count(), "iter_unpaired" => map.iter_unpaired().count(),
            "get_left_iter" => map.iter_right().map(|r| map.get_left_iter(r).unwrap().count()).sum::<usize>(),
            "clone" => map.clone(), "Debug" => format!("{map:?}"), "iter().len" => map.iter().len(), "iter().size_hint" => map.iter().size_hint(),
            "iter_paired().len" => map.iter_paired().len(), "iter_unpaired().len" => map.iter_unpaired().len());
        let other = map.clone();
        passes!(v, n; "==" => *map == other);
        on_copy!(v, n, map; "retain_paired all" => |c| c.retain_paired(|_, _| false), "retain_paired none" => |c| c.retain_paired(|_, _| true),
            "retain_paired some" => |c| c.retain_paired(|l, _| odd(l.key.0, seed)), "retain_unpaired" => |c| c.retain_unpaired(|r| odd(r.key.0, seed)), "clear" => |c| c.clear());
        Ok(v)
    }
}
fn c22<F: CostFam>(c: &Cost, cx: &mut Ctx) -> Res {
    let n = c.n as u64;
    let per = if F::NAME == "GroupMap" { c.per.max(1) as u64 } else { 1 };
    let dom = (c.n as u32 * 2).min(u16::MAX as u32) as u16;
    cx.label(F::NAME);
    let mut map = F::make::<H>(if c.cap { c.n as usize } else { 0 }, H { mode: 0, seed: c.seed });
    let mut m = F::M::default();
    let mut s = mix(c.seed);
    // building: keys in a pseudo-random order, every third right item under a GroupMap is far away
    let (_, h, e) = counted(|| {
        for i in 0..c.n {
            let l = ((i as u64 * 7919 + c.seed % 1000) % dom as u64) as u16;
            let r = if per == 1 { ((i as u64 * 104_729 + c.seed % 777) % dom as u64) as u16 } else { (i as u64 / per) as u16 };
            F::fill(&mut map, &mut m, l, r);
        }
    })
    .map_err(|e| format!("insertion {e}"))?;
    if h > 60 * n || e > 60 * n {
        return Err(format!("{}: inserting {n} entries took {h} hash and {e} equality evaluations", F::NAME));
    }
    cx.trace.push(format!("{}: {n} insertions took {h} hash and {e} equality evaluations", F::NAME));
    cx.nontrivial = F::msize(&m) >= 500;
    // what may run one by one
    let kinds: Vec<F::K> = F::weights().into_iter().map(|x| x.1).collect();
    let single = |nm: &str| in_phase(3, nm) && !nm.starts_with("Extend");
    let op = |k: F::K, s: &mut u64, m: &F::M, dom: u16| {
        *s = mix(*s);
        let z = *s;
        let sel = |b: u64, k: u64| Sel([0, 0, 0, 1, 3, 5, 5, 0][(b & 7) as usize], (k % dom as u64) as u16);
        let o = Op { k, a: sel(z, z >> 9), b: sel(z >> 3, z >> 25), c: Sel(0, ((z >> 41) % dom as u64) as u16), x: 0 };
        safe_call::<F>(m, &o, dom)
    };
    // random churn before measuring; it must be cheap as a whole too
    let churn: Vec<F::K> = kinds.iter().copied().filter(|k| single(F::kname(*k))).collect();
    if c.churn > 0 {
        let (r, h, e) = counted(|| {
            for i in 0..c.churn as usize {
                let call = op(churn[(s as usize + i) % churn.len()], &mut s, &m, dom);
                F::model(&mut m, &call);
                F::exec(&mut map, &call);
            }
        })?;
        let _ = r;
        let most = 60 * c.churn as u64 + 8 * n + 8 * per * (c.churn as u64).min(n);
        if h > most || e > most {
            return Err(format!("{}: {} mixed single-item operations on {n} entries took {h} hash and {e} equality evaluations", F::NAME, c.churn));
        }
    }
    let lookups = |map: &F::Map<H>, s: &mut u64| -> Res {
        for i in 0..c.m as u64 {
            *s = mix(*s);
            let l = (*s % dom as u64) as u16;
            let r = if i % 2 == 0 { ((*s >> 20) % dom as u64) as u16 } else if per > 1 { ((*s >> 20) % (n / per + 1)) as u16 } else { l };
            for (name, h, e) in F::ask(map, l, r).map_err(|e| format!("lookup {e}"))? {
                if h > 16 || e > 64 {
                    return Err(format!("{}.{name} took {h} hash and {e} equality evaluations on a map built from {n} entries", F::NAME));
                }
            }
        }
        Ok(())
    };
    lookups(&map, &mut s)?;
    // each kind of operation, many times on a copy
    for k in kinds.iter().copied().filter(|k| single(F::kname(*k))) {
        let name = F::kname(k);
        let mut cp = F::clone_map(&map);
        let mut cm = m.clone();
        let strict = name.starts_with("Remove");
        let (mut th, mut te, mut members, mut heavy) = (0, 0, 0u64, 0);
        let mm = c.m as u64;
        for _ in 0..c.m {
            let call = op(k, &mut s, &cm, dom);
            let before = F::msize(&cm) as u64;
            F::model(&mut cm, &call);
            let mut group = before.saturating_sub(F::msize(&cm) as u64);
            if F::NAME == "GroupMap" && name.starts_with("Swap") {
                // the whole group may be visited while it moves
                group += 2 * per;
            }
            members += group;
            let (_, h, e) = counted(|| F::exec(&mut cp, &call)).map_err(|e| format!("{} {e}", show::<F>(&call)))?;
            th += h;
            te += e;
            // no table ever evaluates equalities when it is resized
            if e > 64 + 4 * group || (strict && h > 16 + 4 * group) {
                return Err(format!("{} took {h} hash and {e} equality evaluations on a map of about {n} entries", show::<F>(&call)));
            }
            if h > 40 + 4 * group {
                heavy += 1;
            }
        }
        let most = 40 * mm + 8 * n + 8 * members;
        if th > most || te > most {
            return Err(format!("{mm} {}.{name} calls on about {n} entries took {th} hash and {te} equality evaluations", F::NAME));
        }
        // a table is resized or cleaned up at most once in half its capacity
        if heavy > 8 {
            return Err(format!("{heavy} of {mm} {}.{name} calls on about {n} entries took more than 40 hash evaluations", F::NAME));
        }
    }
    // passes over the whole map
    for (name, i, h, e) in F::passes(&map, c.seed).map_err(|e| format!("whole-map pass {e}"))? {
        let most = 100 + 16 * i as u64 + 8 * n;
        if h > most || e > most {
            return Err(format!("{}.{name} over {i} items of a map built from {n} entries took {h} hash and {e} equality evaluations", F::NAME));
        }
    }
    lookups(&map, &mut s)
}
