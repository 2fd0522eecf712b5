//! The operation language: kinds, selectors, their strategies.
use crate::items::*;
use crate::model::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// How an argument is chosen from the current contents.
/// 0 raw key, 1 stored, 2 absent, 3 paired, 4 unpaired, 5 same item as / partner of the first argument,
/// 6 the same for the second argument.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Sel(pub u8, pub u16);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Op<K> {
    pub k: K,
    pub a: Sel,
    pub b: Sel,
    pub c: Sel,
    /// predicate mask, element count, capacity argument ...
    pub x: u32,
}

macro_rules! kinds {
    ($name:ident { $($k:ident),* $(,)? }) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
        pub enum $name { $($k),* }
        impl $name { pub const ALL: &'static [$name] = &[$($name::$k),*]; pub fn name(&self) -> &'static str { match self { $($name::$k => stringify!($k)),* } } }
    };
}
kinds!(CK {
    Insert, Remove, RemoveViaLeft, RemoveViaRight, SwapLeft, SwapRight, SwapLeftChecked, SwapRightChecked,
    SwapLeftOrInsert, SwapRightOrInsert, Extend, Retain, DrainFilter, Drain, Clear, CloneSelf, Reserve, TryReserve,
    ShrinkTo, ShrinkToFit,
});
kinds!(PK {
    Insert, InsertLeft, InsertRight, Pair, PairForced, PairForcedRemove, Unpair, Remove, RemoveLeft, RemoveRight,
    RemoveViaLeft, RemoveViaRight, SwapLeft, SwapRight, SwapLeftChecked, SwapRightChecked, SwapLeftOrInsert,
    SwapRightOrInsert, Extend, ExtendOpt, Retain, RetainPaired, RetainUnpaired, DrainFilter, Drain, Clear, CloneSelf,
    ReserveLeft, ReserveRight, TryReserveLeft, TryReserveRight, ShrinkToLeft, ShrinkToRight, ShrinkToFit,
});
kinds!(GK {
    Insert, InsertRemove, InsertLeft, InsertRight, SwapRight, SwapRightRemove, Pair, Remove, RemoveLeft, RemoveRight,
    Extend, ExtendOpt, RetainPaired, RetainUnpaired, Clear, CloneSelf,
});

/// Uniform interface of the models for argument resolution.
pub trait MCtx {
    fn has(&self, side: u8, k: u16) -> bool;
    fn nth_present(&self, side: u8, n: usize) -> Option<u16>;
    fn count(&self, side: u8) -> usize;
    fn nth_state(&self, side: u8, n: usize, paired: bool) -> Option<u16>;
    fn partner(&self, side: u8, k: u16) -> Option<u16>;
}
fn pick<'a>(it: impl Iterator<Item = &'a u16> + Clone, n: usize) -> Option<u16> {
    let c = it.clone().count();
    if c == 0 {
        None
    } else {
        it.clone().nth(n % c).copied()
    }
}
impl MCtx for PM {
    fn has(&self, s: u8, k: u16) -> bool {
        if s == 0 { self.l.contains_key(&k) } else { self.r.contains_key(&k) }
    }
    fn count(&self, s: u8) -> usize {
        if s == 0 { self.l.len() } else { self.r.len() }
    }
    fn nth_present(&self, s: u8, n: usize) -> Option<u16> {
        if s == 0 { pick(self.l.keys(), n) } else { pick(self.r.keys(), n) }
    }
    fn nth_state(&self, s: u8, n: usize, p: bool) -> Option<u16> {
        let m = if s == 0 { &self.l } else { &self.r };
        pick(m.iter().filter(|(_, v)| v.1.is_some() == p).map(|(k, _)| k), n)
    }
    fn partner(&self, s: u8, k: u16) -> Option<u16> {
        let m = if s == 0 { &self.l } else { &self.r };
        m.get(&k).and_then(|v| v.1)
    }
}
impl MCtx for GM {
    fn has(&self, s: u8, k: u16) -> bool {
        if s == 0 { self.l.contains_key(&k) } else { self.r.contains_key(&k) }
    }
    fn count(&self, s: u8) -> usize {
        if s == 0 { self.l.len() } else { self.r.len() }
    }
    fn nth_present(&self, s: u8, n: usize) -> Option<u16> {
        if s == 0 { pick(self.l.keys(), n) } else { pick(self.r.keys(), n) }
    }
    fn nth_state(&self, s: u8, n: usize, p: bool) -> Option<u16> {
        if s == 0 {
            if p { pick(self.l.keys(), n) } else { None }
        } else {
            pick(self.r.iter().filter(|(_, v)| v.1.is_empty() != p).map(|(k, _)| k), n)
        }
    }
    fn partner(&self, s: u8, k: u16) -> Option<u16> {
        if s == 0 {
            self.l.get(&k).map(|v| v.1)
        } else {
            self.r.get(&k).and_then(|v| v.1.iter().next().copied())
        }
    }
}

/// Resolves a selector for an item of `side`; `prev` are the arguments resolved before.
pub fn resolve<C: MCtx>(c: &C, s: Sel, side: u8, prev: &[(u8, u16)], dom: u16) -> u16 {
    let n = s.1 as usize;
    let raw = s.1 % dom;
    let r = match s.0 {
        1 => c.nth_present(side, n),
        2 => {
            let free = dom as usize - c.count(side).min(dom as usize);
            if free == 0 {
                None
            } else {
                let mut left = n % free;
                let mut got = None;
                for k in 0..dom {
                    if !c.has(side, k) {
                        if left == 0 {
                            got = Some(k);
                            break;
                        }
                        left -= 1;
                    }
                }
                got
            }
        }
        3 => c.nth_state(side, n, true),
        4 => c.nth_state(side, n, false),
        5 | 6 => prev.get((s.0 - 5) as usize).and_then(|(ps, pk)| {
            if *ps == side { Some(*pk) } else { c.partner(*ps, *pk) }
        }),
        _ => None,
    };
    r.unwrap_or(raw)
}

/// Deterministic predicate over an entry's keys.
pub fn pred(x: u32, l: Option<u16>, r: Option<u16>) -> bool {
    match x & 3 {
        // everything / nothing appear often enough to matter
        0 if x & 0xf0 == 0 => x & 4 == 0,
        _ => {
            let h = mix(((x as u64) << 34) ^ ((l.map_or(0x1ffff, |k| k as u64)) << 17) ^ r.map_or(0x1ffff, |k| k as u64));
            // density from the mask too
            (h & 7) < 1 + ((x >> 8) & 7) as u64
        }
    }
}

pub fn sel() -> impl Strategy<Value = Sel> {
    (
        prop_oneof![3 => Just(0u8), 4 => Just(1), 3 => Just(2), 3 => Just(3), 3 => Just(4), 3 => Just(5), 1 => Just(6)],
        prop_oneof![12 => 0u16..64, 1 => 0u16..4096],
    )
        .prop_map(|(m, n)| Sel(m, n))
}

pub fn op<K: Copy + std::fmt::Debug + 'static>(w: Vec<(u32, K)>) -> BoxedStrategy<Op<K>> {
    let total: u32 = w.iter().map(|x| x.0).sum();
    let pickk = (0..total).prop_map(move |mut i| {
        for (n, k) in &w {
            if i < *n {
                return *k;
            }
            i -= n;
        }
        unreachable!()
    });
    (pickk, sel(), sel(), sel(), any::<u32>()).prop_map(|(k, a, b, c, x)| Op { k, a, b, c, x }).boxed()
}

/// A history: hasher mode, key domain, initial capacity, prefill, operations.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Hist<K> {
    pub hasher: u8,
    pub dom: u16,
    pub cap: u16,
    pub fill: u16,
    pub ops: Vec<Op<K>>,
    /// Also perform operations that run into a recorded finding (see `Fam::avoid`).
    #[serde(default)]
    pub raw: bool,
    /// How many foreign pairs passed through the map after the prefill.
    #[serde(default, skip_serializing_if = "fresh")]
    pub age: u32,
}
fn fresh(age: &u32) -> bool {
    *age == 0
}

/// One of the seven modes, with one of 28 seeds each, or the crate's hasher.
pub fn hasher_mode() -> impl Strategy<Value = u8> {
    let mode = prop_oneof![6 => Just(0u8), 2 => Just(1u8), 1 => Just(2), 2 => Just(3), 2 => Just(4), 2 => Just(5), 2 => Just(6), 1 => Just(DEFAULT_HASHER)];
    let seed = prop_oneof![2 => Just(0u8), 3 => 0u8..28];
    (mode, seed).prop_map(|(m, v)| if m == DEFAULT_HASHER { m } else { m + MODES * v })
}
/// More keys than this are a wide domain: only some of all pairs are asked about.
pub const WIDE: u16 = 200;
/// How rare histories over maps of hundreds or thousands of items are.
const RARE: u32 = 160;
/// Makes one in RARE histories wide, three middling (with all hashers), five old and four roomy (a large capacity for few items).
pub fn widen<K: Copy + std::fmt::Debug + 'static>(h: BoxedStrategy<Hist<K>>) -> BoxedStrategy<Hist<K>> {
    let wide = (h.clone(), WIDE + 1..2600, any::<u32>(), 0u8..28, 0u8..8).prop_map(|(mut h, dom, fill, v, how)| {
        h.hasher = match how {
            0 => DEFAULT_HASHER,
            1 | 2 => 6 + MODES * v,
            _ => MODES * v,
        };
        h.dom = dom;
        h.fill = match how % 4 {
            0 => dom,
            1 => (fill % (dom as u32 / 8 + 1)) as u16,
            _ => (fill % (dom as u32 + 1)) as u16,
        };
        if how & 4 != 0 {
            h.cap = (fill >> 16) as u16 % (2 * dom);
        }
        // looking at such a map takes long
        h.ops.truncate(12);
        h
    });
    // as many new identities as a byte or (rarely) two bytes can count
    let age = prop_oneof![2 => 1u32..20, 8 => 200u32..700, 8 => 200u32..257, 1 => 65400u32..65537];
    let old = (h.clone(), age).prop_map(|(mut h, age)| {
        h.age = age;
        h
    });
    let roomy = (h.clone(), 33u16..700).prop_map(|(mut h, cap)| {
        h.cap = cap;
        h
    });
    let middling = (h.clone(), 100u16..WIDE, 0u16..WIDE).prop_map(|(mut h, dom, less)| {
        h.dom = dom;
        h.fill = dom - less % (dom / 2);
        h.ops.truncate(12);
        h
    });
    prop_oneof![RARE - 13 => h, 1 => wide, 5 => old, 4 => roomy, 3 => middling].boxed()
}

/// Operations of all kinds, or (half of the time) of a few randomly chosen ones besides the first.
fn swarm<K: Copy + std::fmt::Debug + 'static>(w: Vec<(u32, K)>, maxops: usize) -> BoxedStrategy<Vec<Op<K>>> {
    let (a, b, c) = (any::<u64>(), any::<u64>(), any::<u64>());
    let mask = prop_oneof![4 => Just(!0u64), 2 => (a, b).prop_map(|(x, y)| x & y), 2 => (a, b, c).prop_map(|(x, y, z)| x & y & z)].no_shrink();
    let raw = proptest::collection::vec((any::<u32>(), sel(), sel(), sel(), any::<u32>()), 0..=maxops);
    (mask, raw)
        .prop_map(move |(mask, raw)| {
            let on: Vec<(u32, K)> = w.iter().enumerate().filter(|(i, _)| mask >> (i % 64) & 1 == 1 || *i == 0).map(|(_, x)| *x).collect();
            let total: u32 = on.iter().map(|x| x.0).sum();
            raw.into_iter()
                .map(|(k, a, b, c, x)| {
                    let mut i = k % total;
                    let k = on.iter().find(|(n, _)| if i < *n { true } else { i -= n; false }).unwrap().1;
                    Op { k, a, b, c, x }
                })
                .collect()
        })
        .boxed()
}

pub fn hist<K: Copy + std::fmt::Debug + 'static>(w: Vec<(u32, K)>, maxops: usize, maxdom: u16) -> BoxedStrategy<Hist<K>> {
    let dom = prop_oneof![2 => 2u16..5, 4 => 4u16..=(maxdom.min(12)), 2 => 4u16..=maxdom];
    (
        hasher_mode(),
        dom,
        prop_oneof![3 => Just(0u16), 1 => 0u16..32],
        prop_oneof![2 => Just(0u16), 2 => 0u16..24],
        swarm(w, maxops),
    )
        .prop_map(|(hasher, dom, cap, fill, ops)| Hist { hasher, dom, cap, fill: fill.min(dom), ops, raw: false, age: 0 })
        .boxed()
}

pub fn w_c() -> Vec<(u32, CK)> {
    use CK::*;
    vec![
        (10, Insert), (3, Remove), (3, RemoveViaLeft), (3, RemoveViaRight), (5, SwapLeft), (5, SwapRight),
        (3, SwapLeftChecked), (3, SwapRightChecked), (4, SwapLeftOrInsert), (4, SwapRightOrInsert), (2, Extend),
        (1, Retain), (1, DrainFilter), (1, Drain), (1, Clear), (1, CloneSelf), (1, Reserve), (1, TryReserve),
        (1, ShrinkTo), (1, ShrinkToFit),
    ]
}
pub fn w_p() -> Vec<(u32, PK)> {
    use PK::*;
    vec![
        (8, Insert), (6, InsertLeft), (6, InsertRight), (6, Pair), (6, PairForced), (5, PairForcedRemove), (4, Unpair),
        (2, Remove), (3, RemoveLeft), (3, RemoveRight), (2, RemoveViaLeft), (2, RemoveViaRight), (4, SwapLeft),
        (4, SwapRight), (2, SwapLeftChecked), (2, SwapRightChecked), (3, SwapLeftOrInsert), (3, SwapRightOrInsert),
        (2, Extend), (2, ExtendOpt), (1, Retain), (1, RetainPaired), (1, RetainUnpaired), (1, DrainFilter), (1, Drain),
        (1, Clear), (1, CloneSelf), (1, ReserveLeft), (1, ReserveRight), (1, TryReserveLeft), (1, TryReserveRight),
        (1, ShrinkToLeft), (1, ShrinkToRight), (1, ShrinkToFit),
    ]
}
pub fn w_g() -> Vec<(u32, GK)> {
    use GK::*;
    vec![
        (10, Insert), (4, InsertRemove), (7, InsertLeft), (5, InsertRight), (5, SwapRight), (5, SwapRightRemove),
        (7, Pair), (2, Remove), (4, RemoveLeft), (3, RemoveRight), (2, Extend), (2, ExtendOpt), (2, RetainPaired),
        (2, RetainUnpaired), (1, Clear), (1, CloneSelf),
    ]
}
