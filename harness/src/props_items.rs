//! C30: the maps work alike for every type of item.
use crate::base::*;
use crate::driver::*;
use crate::items::*;
use crate::ops::*;
use crate::props_hist::Any;
use crate::tree::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt;
use std::hash::Hash;

pub trait Payload: Eq + Hash + Clone + 'static {
    /// Instances of this type are counted.
    const COUNTS: bool = false;
    fn mk(k: u16) -> Self;
    fn k(&self) -> u16;
}
impl Payload for () {
    fn mk(_: u16) -> Self {}
    fn k(&self) -> u16 {
        0
    }
}
impl Payload for bool {
    fn mk(k: u16) -> Self {
        k % 2 == 1
    }
    fn k(&self) -> u16 {
        *self as u16
    }
}
impl Payload for u8 {
    fn mk(k: u16) -> Self {
        k as u8
    }
    fn k(&self) -> u16 {
        *self as u16
    }
}
impl Payload for [u64; 37] {
    fn mk(k: u16) -> Self {
        let mut a = [k as u64; 37];
        a[0] = 5;
        a
    }
    fn k(&self) -> u16 {
        // every part must have arrived
        if self[0] != 5 || self[1..].iter().any(|x| *x != self[36]) {
            return u16::MAX;
        }
        self[36] as u16
    }
}
#[repr(align(128))]
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Al(u8);
impl Payload for Al {
    fn mk(k: u16) -> Self {
        Al(k as u8)
    }
    fn k(&self) -> u16 {
        if self as *const Al as usize % 128 != 0 {
            return u16::MAX;
        }
        self.0 as u16
    }
}
impl Payload for Box<u16> {
    fn mk(k: u16) -> Self {
        Box::new(k)
    }
    fn k(&self) -> u16 {
        **self
    }
}
impl Payload for String {
    fn mk(k: u16) -> Self {
        format!("the item number {k:04x}")
    }
    fn k(&self) -> u16 {
        u16::from_str_radix(&self[self.len() - 4..], 16).unwrap()
    }
}
impl Payload for Counted {
    const COUNTS: bool = true;
    fn mk(_: u16) -> Self {
        Counted::new()
    }
    fn k(&self) -> u16 {
        0
    }
}
impl<P: Payload> Payload for (P, Counted) {
    const COUNTS: bool = true;
    fn mk(k: u16) -> Self {
        (P::mk(k), Counted::new())
    }
    fn k(&self) -> u16 {
        self.0.k()
    }
}

/// An item of side S.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct W<const S: u8, P>(P);
impl<const S: u8, P: Payload> W<S, P> {
    pub fn new(k: u16) -> Self {
        W(P::mk(k))
    }
    pub fn with_tag(k: u16, _: u32) -> Self {
        W(P::mk(k))
    }
    pub fn k(&self) -> u16 {
        self.0.k()
    }
    pub fn v(&self) -> V {
        (self.0.k(), 0)
    }
}
impl<const S: u8, P: Payload> fmt::Debug for W<S, P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}{}", if S == 0 { 'L' } else { 'R' }, self.k())
    }
}
impl<const S: u8, P: Payload> Tr for W<S, P> {
    fn t(&self) -> T {
        T::It(S, self.k(), 0)
    }
}
pub trait Counts {
    const COUNTS: bool;
}
impl<const S: u8, P: Payload> Counts for W<S, P> {
    const COUNTS: bool = P::COUNTS;
}
impl<const S: u8> Counts for It<S> {
    const COUNTS: bool = true;
}

macro_rules! combos {
    ($($m:ident: $l:ty, $ld:expr; $r:ty, $rd:expr;)*) => {
        $(mod $m {
            #![allow(dead_code, unused_imports)]
            pub mod ty {
                use super::super::*;
                pub type L = $l;
                pub type R = $r;
                pub const LDOM: u16 = $ld;
                pub const RDOM: u16 = $rd;
            }
            pub mod exec {
                include!("exec.rs");
                use super::super::Counts;
                use crate::driver::Ctx;
                fn alive<F: Fam>(ex: &Ex<F, H>) -> Res {
                    let (l, r) = F::lens(&ex.map);
                    let want = l as i64 * <L as Counts>::COUNTS as i64 + r as i64 * <R as Counts>::COUNTS as i64;
                    if live_total() != want || double_drops() != 0 {
                        return Err(format!("{} instances are alive, {want} are stored; {} double drops", live_total(), double_drops()));
                    }
                    Ok(())
                }
                pub fn run<F: Fam>(h: &Hist<F::K>, cx: &mut Ctx) -> Res {
                    ledger_reset();
                    let mut ex = Ex::<F, H>::new(h)?;
                    ex.trace[0] += concat!(" items ", stringify!($l), " / ", stringify!($r));
                    let mut changed = 0;
                    let r = (|| {
                        for o in &h.ops {
                            let before = ex.m.clone();
                            ex.step(o, Chk { ret: true, tags: false, obs: true })?;
                            alive(&ex).map_err(|e| format!("after {}: {e}", ex.trace.last().unwrap()))?;
                            changed += (ex.m != before) as usize;
                        }
                        ex.observe(false, true)?;
                        let c = guard(|| F::clone_map(&ex.map))?;
                        if !guard(|| F::eq_map(&ex.map, &c) && F::eq_map(&c, &ex.map))? {
                            return Err("a clone is not equal to its original".into());
                        }
                        let d = guard(|| F::debug(&c, false))?;
                        F::lookups(&c, &ex.m, ex.dom, false, true).and_then(|_| F::iters(&c, &ex.m, false)).map_err(|e| format!("a clone: {e}"))?;
                        drop((c, d));
                        alive(&ex).map_err(|e| format!("after a clone came and went: {e}"))
                    })();
                    cx.trace = std::mem::take(&mut ex.trace);
                    cx.nontrivial = changed >= 3;
                    r?;
                    drop(ex);
                    if live_total() != 0 {
                        return Err(format!("{} instances are alive after the map is gone", live_total()));
                    }
                    Ok(())
                }
            }
        })*
        const COMBOS: &[&str] = &[$(concat!(stringify!($l), " / ", stringify!($r))),*];
        fn run_in(i: usize, a: &Any, cx: &mut Ctx) -> Res {
            let mut n = 0;
            $(
                if i == n {
                    return match a {
                        Any::C(h) => $m::exec::run::<$m::exec::CF>(h, cx),
                        Any::P(h) => $m::exec::run::<$m::exec::PF>(h, cx),
                        Any::G(h) => $m::exec::run::<$m::exec::GF>(h, cx),
                    };
                }
                n += 1;
            )*
            let _ = n;
            Ok(())
        }
    };
}
const MX: u16 = 250;
combos! {
    zt: W<0, ()>, 1; W<1, String>, MX;
    tz: W<0, (String, Counted)>, MX; W<1, ()>, 1;
    db: It<0>, MX; W<1, u8>, MX;
    bd: W<0, u8>, MX; It<1>, MX;
    wb: W<0, [u64; 37]>, MX; W<1, bool>, 2;
    aw: W<0, Al>, MX; W<1, [u64; 37]>, MX;
    xt: W<0, Box<u16>>, MX; W<1, (String, Counted)>, MX;
    ca: W<0, Counted>, 1; W<1, Al>, MX;
    bc: W<0, bool>, 2; W<1, Counted>, 1;
    bb: W<0, u8>, MX; W<1, u8>, MX;
    xx: W<0, Box<u16>>, MX; W<1, Box<u16>>, MX;
    zz: W<0, ()>, 1; W<1, ()>, 1;
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Typed {
    combo: u8,
    h: Any,
}
pub struct C30;
impl Prop for C30 {
    type Case = Typed;
    const ID: &'static str = "C30";
    const RULE: &'static str = "a random history over every operation of one of the maps, on one of 12 pairs of item types (zero-sized, one byte, two values only, 296 bytes, aligned to 128, heap-owning, counted on drop; on the left, the right or both sides); every return value, all lookups, all iterators, the counts of live instances, a clone, == and Debug compared with the model after every step or at the end. Non-trivial: >=3 calls changed the contents";
    fn cases(t: Tier) -> u64 {
        t.pick(120_000, 3_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Typed> {
        (0u8..COMBOS.len() as u8, crate::props_hist::any_hist(t.pick(24, 50), t.pick(40, 120))).prop_map(|(combo, h)| Typed { combo, h }).boxed()
    }
    fn run(c: &Typed, cx: &mut Ctx) -> Res {
        let i = c.combo as usize % COMBOS.len();
        let mut a = c.h.clone();
        match &mut a {
            Any::C(h) => h.raw = false,
            Any::P(h) => h.raw = false,
            Any::G(h) => h.raw = false,
        }
        let r = run_in(i, &a, cx);
        cx.label(COMBOS[i]);
        r
    }
}
