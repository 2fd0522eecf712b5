//! C01-C09: histories against the reference models, refusals, hashers.
use crate::driver::*;
use crate::exec::*;
use crate::items::*;
use crate::ops::*;
use crate::tree::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Picks the hash builder type for a hasher mode.
#[macro_export]
macro_rules! bld {
    ($mode:expr, $S:ident => $e:expr) => {
        if $mode == $crate::items::DEFAULT_HASHER {
            type $S = $crate::items::DefH;
            $e
        } else {
            type $S = $crate::items::H;
            $e
        }
    };
}

/// A history of any of the three maps.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Any {
    C(Hist<CK>),
    P(Hist<PK>),
    G(Hist<GK>),
}
pub fn any_hist(maxops: usize, maxdom: u16) -> BoxedStrategy<Any> {
    prop_oneof![
        widen(hist(w_c(), maxops, maxdom)).prop_map(Any::C),
        widen(hist(w_p(), maxops, maxdom)).prop_map(Any::P),
        widen(hist(w_g(), maxops, maxdom)).prop_map(Any::G),
    ]
    .boxed()
}
/// Runs `$f::<F, S>(h, ...)` for whichever map the case is about.
#[macro_export]
macro_rules! any {
    ($c:expr, $f:ident, $($arg:expr),*) => {
        match $c {
            $crate::props_hist::Any::C(h) => $crate::bld!(h.hasher, S => $f::<$crate::exec::CF, S>(h, $($arg),*)),
            $crate::props_hist::Any::P(h) => $crate::bld!(h.hasher, S => $f::<$crate::exec::PF, S>(h, $($arg),*)),
            $crate::props_hist::Any::G(h) => $crate::bld!(h.hasher, S => $f::<$crate::exec::GF, S>(h, $($arg),*)),
        }
    };
}

pub fn history<F: Fam, S: Bld>(h: &Hist<F::K>, chk: Chk, cx: &mut Ctx) -> Result<(), String> {
    let mut ex = Ex::<F, S>::new(h)?;
    let r = history_in(&mut ex, h, chk, cx);
    cx.trace = std::mem::take(&mut ex.trace);
    r
}
fn history_in<F: Fam, S: Bld>(ex: &mut Ex<F, S>, h: &Hist<F::K>, chk: Chk, cx: &mut Ctx) -> Result<(), String> {
    ex.observe(chk.tags, false).map_err(|e| format!("after the prefill: {e}"))?;
    let (mut changed, mut gave) = (0, 0);
    let mut most = 0;
    for o in &h.ops {
        let before = ex.m.clone();
        let c = ex.call(o);
        let known = if ex.raw { F::known_state(&before, &c) } else { None };
        let r = match (ex.run(&c, chk), known) {
            (Err(e), Some((m, id))) => {
                // exactly the recorded misbehaviour ends the history, anything else is reported
                let good = std::mem::replace(&mut ex.m, m);
                let torn = F::lookups(&ex.map, &ex.m, ex.dom, chk.tags, true);
                ex.m = good;
                return match torn {
                    Ok(()) => cx.known(id, e),
                    Err(t) => Err(format!("{e} [not the recorded finding: {t}]")),
                };
            }
            (r, _) => r?,
        };
        cx.label(F::kname(o.k));
        changed += (before != ex.m) as u32;
        gave += !matches!(r, T::U | T::None | T::Neither | T::B(false)) as u32;
        most = most.max(F::msize(&ex.m));
    }
    ex.observe(chk.tags, true).map_err(|e| format!("at the end: {e}"))?;
    cx.label(mode_name(h.hasher));
    cx.nontrivial = changed >= 2 && gave >= 1 && most >= 3;
    Ok(())
}

/// Histories with a sprinkling of larger maps.
fn hists<K: Copy + std::fmt::Debug + 'static>(w: Vec<(u32, K)>, t: Tier) -> BoxedStrategy<Hist<K>> {
    let small = hist(w.clone(), t.pick(28, 60), 24);
    let big = (hist(w, t.pick(50, 120), 24), 40u16..110, 20u16..100).prop_map(|(mut h, dom, fill)| {
        h.dom = dom;
        h.fill = fill.min(dom);
        h
    });
    (widen(prop_oneof![12 => small, 1 => big].boxed()), prop_oneof![15 => Just(false), 1 => Just(true)]).prop_map(|(mut h, raw)| {
        h.raw = raw;
        h
    }).boxed()
}

macro_rules! hist_prop {
    ($name:ident, $id:literal, $F:ty, $w:expr, $ret:literal, $tags:literal, $cases:literal, $rule:literal) => {
        pub struct $name;
        impl Prop for $name {
            type Case = Hist<<$F as Fam>::K>;
            const ID: &'static str = $id;
            const RULE: &'static str = $rule;
            fn cases(t: Tier) -> u64 {
                t.pick($cases, $cases * 25)
            }
            fn strategy(t: Tier) -> BoxedStrategy<Self::Case> {
                hists($w, t)
            }
            fn run(h: &Self::Case, cx: &mut Ctx) -> Result<(), String> {
                bld!(h.hasher, S => history::<$F, S>(h, Chk { ret: $ret, tags: $tags, obs: true }, cx))
            }
        }
    };
}

hist_prop!(C01, "C01", CF, w_c(), false, false, 150_000,
    "random histories over 20 CycleMap operations, arguments chosen by state (stored, absent, paired with ...), 8 kinds of hashers (seven of them in 28 seedings), domains 2..110 (about 1 in 160 histories: 201..2600 with prefills up to the whole domain; 5 in 160 after up to 65536 foreign pairs; 4 in 160 with room for up to 700; 3 in 160 over 100..200 keys); after every step all lookups over the domain and all iterators are compared with the model, at the end every pair query. Non-trivial: >=2 steps changed the contents, >=1 step reported a displaced or removed item, >=3 items stored at some time");
hist_prop!(C03, "C03", PF, w_p(), false, false, 120_000,
    "random histories over 34 PartialCycleMap operations, arguments chosen by state, 8 kinds of hashers (seven of them in 28 seedings), domains 2..110 (about 1 in 160 histories: 201..2600 with prefills up to the whole domain; 5 in 160 after up to 65536 foreign pairs; 4 in 160 with room for up to 700; 3 in 160 over 100..200 keys); after every step all lookups over the domain and all iterators are compared with the model. Non-trivial: >=2 steps changed the contents, >=1 step reported something, >=3 items stored at some time");
hist_prop!(C06, "C06", GF, w_g(), false, false, 110_000,
    "random histories over 16 GroupMap operations, arguments chosen by state, 8 kinds of hashers (seven of them in 28 seedings), domains 2..110 (about 1 in 160 histories: 201..2600 with prefills up to the whole domain; 5 in 160 after up to 65536 foreign pairs; 4 in 160 with room for up to 700; 3 in 160 over 100..200 keys); after every step all lookups over the domain and all iterators are compared with the model. Non-trivial: >=2 steps changed the contents, >=1 step reported something, >=3 items stored at some time");

fn w_c02() -> Vec<(u32, CK)> {
    use CK::*;
    vec![
        (9, Insert), (4, Remove), (4, RemoveViaLeft), (4, RemoveViaRight), (6, SwapLeft), (6, SwapRight),
        (6, SwapLeftChecked), (6, SwapRightChecked), (6, SwapLeftOrInsert), (6, SwapRightOrInsert),
        (1, Extend), (1, Clear), (1, CloneSelf), (1, ShrinkToFit),
    ]
}
fn w_c04() -> Vec<(u32, PK)> {
    use PK::*;
    vec![
        (8, Insert), (6, InsertLeft), (6, InsertRight), (4, Pair), (2, PairForced), (1, PairForcedRemove), (2, Unpair),
        (4, Remove), (4, RemoveLeft), (4, RemoveRight), (4, RemoveViaLeft), (4, RemoveViaRight), (6, SwapLeft),
        (6, SwapRight), (5, SwapLeftChecked), (5, SwapRightChecked), (6, SwapLeftOrInsert), (6, SwapRightOrInsert),
        (1, Clear), (1, CloneSelf), (1, ShrinkToFit),
    ]
}
fn w_c05() -> Vec<(u32, PK)> {
    use PK::*;
    vec![
        (5, Insert), (5, InsertLeft), (5, InsertRight), (10, Pair), (12, PairForced), (10, PairForcedRemove), (8, Unpair),
        (1, Remove), (3, RemoveLeft), (3, RemoveRight), (2, RemoveViaLeft), (2, RemoveViaRight), (3, SwapLeft),
        (3, SwapRight), (1, CloneSelf),
    ]
}
fn w_c07() -> Vec<(u32, GK)> {
    use GK::*;
    vec![
        (10, Insert), (6, InsertRemove), (8, InsertLeft), (5, InsertRight), (8, SwapRight), (8, SwapRightRemove),
        (8, Pair), (4, Remove), (5, RemoveLeft), (4, RemoveRight), (1, Clear), (1, CloneSelf),
    ]
}
hist_prop!(C02, "C02", CF, w_c02(), true, true, 150_000,
    "random CycleMap histories dominated by the documented mutators; every return value is compared with the model down to the instance (tags tell equal items apart), as are all lookups and iterators after the step. Non-trivial as in C01");
hist_prop!(C04, "C04", PF, w_c04(), true, true, 120_000,
    "random PartialCycleMap histories dominated by insert, remove and swap; every return value and all lookups and iterators after the step are compared with the model down to the instance. Non-trivial as in C03");
hist_prop!(C05, "C05", PF, w_c05(), true, true, 120_000,
    "random PartialCycleMap histories dominated by pair, pair_forced, pair_forced_remove and unpair, mixed with the operations that make later use of the pairings; return values, lookups and iterators are compared with the model down to the instance. Non-trivial as in C03");
hist_prop!(C07, "C07", GF, w_c07(), true, true, 120_000,
    "random GroupMap histories dominated by the documented mutators; return values, lookups, groups and iterators are compared with the model down to the instance. Non-trivial as in C06");

// ---------------------------------------------------------------- helpers shared by later checks

/// Runs an operation on a map alone; a panic becomes a marker value.
pub fn exec_only<F: Fam, S: Bld>(map: &mut F::Map<S>, c: &Call<F::K>) -> T {
    match guard(|| F::exec(map, c)) {
        Ok(t) => t,
        Err(_) => T::I(PANICKED),
    }
}
/// Runs the same operations on two maps that must behave alike; the model only resolves arguments.
pub fn lockstep<F: Fam, S: Bld>(
    a: &mut F::Map<S>,
    b: &mut F::Map<S>,
    m: &F::M,
    dom: u16,
    ops: &[Op<F::K>],
    trace: &mut Vec<String>,
    names: (&str, &str),
) -> Result<F::M, String> {
    let mut m = m.clone();
    for o in ops {
        let c = safe_call::<F>(&m, o, dom);
        let s = show::<F>(&c);
        trace.push(format!("both: {s}"));
        F::model(&mut m, &c);
        let ra = exec_only::<F, S>(a, &c);
        let rb = exec_only::<F, S>(b, &c);
        if ra != rb {
            return Err(format!("{s} returned {ra:?} on {}, but {rb:?} on {}", names.0, names.1));
        }
        if ra == T::I(PANICKED) {
            return Ok(m);
        }
        diff::<F, S>(a, b, dom, names).map_err(|e| format!("after {s}: {e}"))?;
    }
    Ok(m)
}
pub fn diff<F: Fam, S: Bld>(a: &F::Map<S>, b: &F::Map<S>, dom: u16, names: (&str, &str)) -> Res {
    let (da, db) = (F::dump(a, dom, false), F::dump(b, dom, false));
    if da != db {
        return Err(format!("{} and {} differ: {}", names.0, names.1, first_diff(&da, &db)));
    }
    Ok(())
}
pub fn first_diff(a: &T, b: &T) -> String {
    if let (T::Tup(x), T::Tup(y)) = (a, b) {
        for (i, (p, q)) in x.iter().zip(y).enumerate() {
            if p != q {
                return format!("item {i} of the dump is {p:?} against {q:?}");
            }
        }
        return format!("{} against {} dump items", x.len(), y.len());
    }
    format!("{a:?} against {b:?}")
}
/// Continues with `ops` on the map and on a freshly built map with the same contents: hidden damage shows
/// as a difference.  Skipped when a fresh build itself does not reproduce the contents.
pub fn tail_diff<F: Fam, S: Bld>(ex: &mut Ex<F, S>, h: u8, ops: &[Op<F::K>]) -> Res {
    let mut fresh = F::make(0, S::make(h, 99));
    if guard(|| F::rebuild(&mut fresh, &ex.m, ops.len() as u64 + 5)).is_err() {
        return Ok(());
    }
    if F::lookups(&fresh, &ex.m, ex.dom, true, false).is_err() || F::iters(&fresh, &ex.m, true).is_err() {
        return Ok(());
    }
    let m = ex.m.clone();
    let dom = ex.dom;
    ex.m = lockstep::<F, S>(&mut ex.map, &mut fresh, &m, dom, ops, &mut ex.trace, ("the map", "a freshly built map with the same contents"))?;
    Ok(())
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Refuse<K> {
    pub base: Hist<K>,
    pub tries: Vec<Op<K>>,
    pub tail: Vec<Op<K>>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AnyRefuse {
    C(Refuse<CK>),
    P(Refuse<PK>),
    G(Refuse<GK>),
}
fn refuse<K: Copy + std::fmt::Debug + 'static>(w: Vec<(u32, K)>, tries: Vec<(u32, K)>) -> BoxedStrategy<Refuse<K>> {
    (hist(w.clone(), 22, 16), proptest::collection::vec(op(tries), 1..14), proptest::collection::vec(op(w), 0..6))
        .prop_map(|(base, tries, tail)| Refuse { base, tries, tail })
        .boxed()
}
pub struct C08;
impl Prop for C08 {
    type Case = AnyRefuse;
    const ID: &'static str = "C08";
    const RULE: &'static str = "a random history builds a map; then operations that the model says must be refused (the arguments are drawn by state; others are skipped) run one by one and a full dump of lookups, lengths and iterators before and after each must be identical, instances included; finally both the map and a clone taken before the refusals continue with the same operations and must agree. Non-trivial: >=1 refused operation on a map with >=2 items";
    fn cases(t: Tier) -> u64 {
        t.pick(150_000, 3_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<AnyRefuse> {
        use CK as C;
        use GK as G;
        use PK as P;
        let c = vec![
            (4, C::Remove), (2, C::RemoveViaLeft), (2, C::RemoveViaRight), (5, C::SwapLeft), (5, C::SwapRight),
            (5, C::SwapLeftChecked), (5, C::SwapRightChecked), (3, C::TryReserve),
        ];
        let p = vec![
            (4, P::Pair), (4, P::PairForced), (4, P::PairForcedRemove), (5, P::Unpair), (4, P::Remove), (2, P::RemoveLeft),
            (2, P::RemoveRight), (2, P::RemoveViaLeft), (2, P::RemoveViaRight), (4, P::SwapLeft), (4, P::SwapRight),
            (4, P::SwapLeftChecked), (4, P::SwapRightChecked), (2, P::TryReserveLeft), (2, P::TryReserveRight),
        ];
        let g = vec![(5, G::InsertLeft), (5, G::Pair), (5, G::Remove), (2, G::RemoveLeft), (2, G::RemoveRight)];
        prop_oneof![
            1 => refuse(w_c(), c).prop_map(AnyRefuse::C),
            2 => refuse(w_p(), p).prop_map(AnyRefuse::P),
            1 => refuse(w_g(), g).prop_map(AnyRefuse::G),
        ]
        .boxed()
    }
    fn run(c: &AnyRefuse, cx: &mut Ctx) -> Result<(), String> {
        match c {
            AnyRefuse::C(r) => bld!(r.base.hasher, S => c08::<CF, S>(r, cx)),
            AnyRefuse::P(r) => bld!(r.base.hasher, S => c08::<PF, S>(r, cx)),
            AnyRefuse::G(r) => bld!(r.base.hasher, S => c08::<GF, S>(r, cx)),
        }
    }
}
fn c08<F: Fam, S: Bld>(r: &Refuse<F::K>, cx: &mut Ctx) -> Result<(), String> {
    let Some(mut ex) = build::<F, S>(&r.base) else {
        cx.label("history disagrees with the model");
        return Ok(());
    };
    let res = c08_in(&mut ex, r, cx);
    cx.trace = std::mem::take(&mut ex.trace);
    res
}
fn c08_in<F: Fam, S: Bld>(ex: &mut Ex<F, S>, r: &Refuse<F::K>, cx: &mut Ctx) -> Result<(), String> {
    let mut copy = F::clone_map(&ex.map);
    let same = diff::<F, S>(&ex.map, &copy, ex.dom, ("", "")).is_ok();
    let mut n = 0;
    for o in &r.tries {
        let c = ex.call(o);
        let mut m2 = ex.m.clone();
        let want = F::model(&mut m2, &c);
        // refused: the model is unchanged and reports nothing
        if m2 != ex.m || !matches!(want, T::None | T::Neither | T::B(false)) {
            continue;
        }
        let s = show::<F>(&c);
        ex.trace.push(s.clone());
        let before = F::dump(&ex.map, ex.dom, true);
        let map = &mut ex.map;
        guard(|| F::exec(map, &c)).map_err(|e| format!("{s} must be refused, but {e}"))?;
        let after = F::dump(&ex.map, ex.dom, true);
        if before != after {
            return Err(format!("{s} must be refused and change nothing, but {}", first_diff(&before, &after)));
        }
        cx.label(&format!("{}.{}", F::NAME, F::kname(o.k)));
        n += 1;
    }
    if n > 0 && same {
        let m = ex.m.clone();
        lockstep::<F, S>(
            &mut ex.map, &mut copy, &m, ex.dom, &r.tail, &mut ex.trace,
            ("the map after refused operations", "its clone from before them"),
        )?;
    }
    cx.nontrivial = n > 0 && F::msize(&ex.m) >= 2;
    Ok(())
}

// ---------------------------------------------------------------- C09

pub struct C09;
impl Prop for C09 {
    type Case = Any;
    const ID: &'static str = "C09";
    const RULE: &'static str = "one random history runs in lock-step on seven maps that differ only in their hasher (well mixed, constant 0, constant max, two bits of entropy, top bits only, identity, pairwise equal) and on one with the crate's hasher; both sides hash alike, so equal hashes occur within and across sides. Every return value (or panic) and a full dump after every step must equal those under the well-mixed hasher, instances included. Non-trivial: >=3 steps changed the contents and >=4 items stored at some time";
    fn cases(t: Tier) -> u64 {
        t.pick(60_000, 1_200_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Any> {
        any_hist(t.pick(24, 50), 14)
    }
    fn run(c: &Any, cx: &mut Ctx) -> Result<(), String> {
        match c {
            Any::C(h) => c09::<CF>(h, cx),
            Any::P(h) => c09::<PF>(h, cx),
            Any::G(h) => c09::<GF>(h, cx),
        }
    }
}
fn c09<F: Fam>(h: &Hist<F::K>, cx: &mut Ctx) -> Result<(), String> {
    let mut trace = vec![];
    let r = c09_in::<F>(h, cx, &mut trace);
    cx.trace = trace;
    r
}
fn c09_in<F: Fam>(h: &Hist<F::K>, cx: &mut Ctx, trace: &mut Vec<String>) -> Result<(), String> {
    let hh = |m: u8| Hist { hasher: m, ..h.clone() };
    // the prefills must use the same tags on every map
    let mut base = {
        ledger_reset();
        Ex::<F, H>::new(&hh(0))?
    };
    let mut others_: Vec<(u8, F::Map<H>)> = vec![];
    let seed = if h.hasher == DEFAULT_HASHER { 0 } else { h.hasher / MODES };
    for m in (0..MODES).map(|m| m + MODES * seed).skip((seed == 0) as usize) {
        // long chains of colliding items take too long
        if h.dom > 600 && [1, 2, 3].contains(&(m % MODES)) {
            continue;
        }
        ledger_reset();
        match Ex::<F, H>::with(&hh(m), H::make(m, m as u64), h.cap as usize) {
            Ok(e) => others_.push((m, e.map)),
            Err(e) => return Err(format!("hasher {}: {e}", mode_name(m))),
        }
    }
    ledger_reset();
    let mut def = Ex::<F, DefH>::new(&hh(DEFAULT_HASHER))?.map;
    trace.extend(base.trace.iter().cloned());
    let dom = base.dom;
    let (mut changed, mut most) = (0, F::msize(&base.m));
    let d0 = F::dump(&base.map, dom, false);
    for (m, o) in &others_ {
        let d = F::dump(o, dom, false);
        if d != d0 {
            return Err(format!("after the prefill, hasher {} differs: {}", mode_name(*m), first_diff(&d, &d0)));
        }
    }
    for o in &h.ops {
        let c = base.call(o);
        let s = show::<F>(&c);
        trace.push(s.clone());
        let before = base.m.clone();
        F::model(&mut base.m, &c);
        changed += (before != base.m) as u32;
        most = most.max(F::msize(&base.m));
        let r0 = exec_only::<F, H>(&mut base.map, &c);
        let d0 = F::dump(&base.map, dom, false);
        for (m, o) in &mut others_ {
            let r = exec_only::<F, H>(o, &c);
            if r != r0 {
                return Err(format!("{s} returned {r:?} with hasher {}, but {r0:?} with hasher mixed", mode_name(*m)));
            }
            let d = F::dump(o, dom, false);
            if d != d0 {
                return Err(format!("after {s}, hasher {} differs from hasher mixed: {}", mode_name(*m), first_diff(&d, &d0)));
            }
        }
        let r = exec_only::<F, DefH>(&mut def, &c);
        let d = F::dump(&def, dom, false);
        if r != r0 || d != d0 {
            return Err(format!("{s}: the default hasher gives {r:?}, hasher mixed {r0:?}; {}", first_diff(&d, &d0)));
        }
        if r0 == T::I(PANICKED) {
            cx.label("panicked alike");
            break;
        }
        cx.label(F::NAME);
    }
    cx.nontrivial = changed >= 3 && most >= 4;
    Ok(())
}
