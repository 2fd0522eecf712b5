//! Runs encoded histories over the maps, with items on the heap, touching everything that comes back.  Meant to be
//! interpreted by Miri, which stops at the first undefined behaviour.  Results are not judged here.
//!
//! Histories come one per line on standard input, in hex: map, hasher, capacity, number of keys, then 4 bytes per
//! call.  Before each its number is printed.
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use std::cell::Cell;
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static FUSE: Cell<u32> = const { Cell::new(0) };
    static SUM: Cell<u64> = const { Cell::new(0) };
}
static KEYS: AtomicU8 = AtomicU8::new(7);
fn tick() {
    FUSE.with(|f| match f.get() {
        0 => {}
        // (a second panic during unwinding aborts any program)
        1 if std::thread::panicking() => {}
        1 => {
            f.set(0);
            std::panic::resume_unwind(Box::new(()))
        }
        n => f.set(n - 1),
    })
}
/// An item: heap memory that a stale reference would read after it is freed.
#[derive(Clone)]
struct It<const S: u8>(Box<u16>);
type L = It<0>;
type R = It<1>;
impl<const S: u8> PartialEq for It<S> {
    fn eq(&self, o: &Self) -> bool {
        tick();
        *self.0 == *o.0
    }
}
impl<const S: u8> Eq for It<S> {}
impl<const S: u8> Hash for It<S> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        h.write_u16(*self.0)
    }
}
impl<const S: u8> fmt::Debug for It<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if *self.0 & 1 == 0 { "e" } else { "o" })
    }
}
#[derive(Clone, Default)]
struct B(u8);
struct Hs(u8, u64);
impl BuildHasher for B {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(self.0, 0)
    }
}
impl Hasher for Hs {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = self.1 << 8 | *x as u64;
        }
    }
    fn write_u16(&mut self, x: u16) {
        self.1 = x as u64;
    }
    fn finish(&self) -> u64 {
        match self.0 % 4 {
            0 => (self.1 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15),
            1 => 0,
            2 => self.1 << 57,
            _ => self.1,
        }
    }
}

/// Reads every item in a result.
trait Touch {
    fn touch(&self);
}
impl<const S: u8> Touch for It<S> {
    fn touch(&self) {
        SUM.with(|s| s.set(s.get().wrapping_add(*self.0 as u64 + 1)))
    }
}
impl<X: Touch> Touch for &X {
    fn touch(&self) {
        (**self).touch()
    }
}
impl<X: Touch> Touch for Option<X> {
    fn touch(&self) {
        if let Some(x) = self {
            x.touch()
        }
    }
}
impl<X: Touch, Y: Touch> Touch for (X, Y) {
    fn touch(&self) {
        self.0.touch();
        self.1.touch()
    }
}
impl<X: Touch + Eq, Y: Touch + Eq> Touch for OptionalPair<X, Y> {
    fn touch(&self) {
        match self {
            OptionalPair::Neither => {}
            OptionalPair::SomeLeft(x) => x.touch(),
            OptionalPair::SomeRight(x) => x.touch(),
            OptionalPair::SomeBoth(x, y) => {
                x.touch();
                y.touch()
            }
        }
    }
}
struct Set<X>(X);
impl<'a, I: Touch + 'a, X> Touch for Set<&'a X>
where
    &'a X: IntoIterator<Item = &'a I>,
{
    fn touch(&self) {
        for x in self.0 {
            x.touch()
        }
    }
}
macro_rules! plain {
    ($($t:ty),*) => { $(impl Touch for $t { fn touch(&self) { SUM.with(|s| s.set(s.get().wrapping_add(*self as u64))) } })* };
}
plain!(bool, usize);
impl Touch for () {
    fn touch(&self) {}
}

fn l(k: u8) -> L {
    It(Box::new((k % KEYS.load(Relaxed)) as u16))
}
fn r(k: u8) -> R {
    It(Box::new((k % KEYS.load(Relaxed)) as u16))
}
fn yes(x: u8, i: &mut u8) -> bool {
    *i = i.wrapping_add(1);
    x >> (*i & 7) & 1 == 1
}
/// A source of entries that may panic on the way.
fn source<X>(n: u8, stop: u8, f: impl Fn(u8) -> X) -> impl Iterator<Item = X> {
    (0..n % 6).map(move |i| {
        if stop & 0x87 == 0x80 | i {
            std::panic::resume_unwind(Box::new(()))
        }
        f(i)
    })
}
/// Steps an iterator, clones it on the way, reads what both yield, and what was yielded again at the end.
fn walk<X: Touch, I: Iterator<Item = X> + Clone + fmt::Debug>(mut it: I, a: u8) {
    let mut kept = Vec::new();
    for _ in 0..a % 5 {
        kept.extend(it.next());
    }
    it.size_hint().0.touch();
    let c = it.clone();
    if a & 0x20 != 0 {
        SUM.with(|s| s.set(s.get() + format!("{c:?}").len() as u64));
    }
    if a & 0x40 != 0 {
        drop(it);
        kept.extend(c);
    } else {
        kept.extend(it);
        drop(c);
    }
    for x in &kept {
        x.touch();
    }
}
fn pull<X: Touch>(mut it: impl Iterator<Item = X>, a: u8) {
    let mut kept = Vec::new();
    let n = if a & 0x40 != 0 { 99 } else { a % 5 };
    for _ in 0..n {
        match it.next() {
            Some(x) => kept.push(x),
            None => break,
        }
    }
    it.size_hint().0.touch();
    drop(it);
    for x in &kept {
        x.touch();
    }
}
struct Share<X>(*const X);
unsafe impl<X> Sync for Share<X> {}
impl<X> Share<X> {
    fn get(&self) -> &X {
        unsafe { &*self.0 }
    }
}
fn both<M>(m: &M, f: fn(&M, u8, u8)) {
    let s = Share(m as *const M);
    std::thread::scope(|t| {
        let s = &s;
        t.spawn(move || f(s.get(), 1, 2));
        f(s.get(), 1, 2);
    });
}

type C = CycleMap<L, R, B>;
fn c_read(m: &C, a: u8, b: u8) {
    let (x, y) = (l(a), r(b));
    m.get_left(&y).touch();
    m.get_right(&x).touch();
    m.are_paired(&x, &y).touch();
    m.contains_left(&x).touch();
    m.contains_right(&y).touch();
    match b >> 2 & 3 {
        0 => walk(m.iter_left(), a),
        1 => walk(m.iter_right(), a),
        _ => walk(m.iter(), a),
    }
    m.len().touch();
}
fn c_step(m: &mut C, [k, a, b, c]: [u8; 4]) {
    let mut i = 0;
    match k % 26 {
        0..=2 => m.insert(l(a), r(b)).touch(),
        3 => m.remove(&l(a), &r(b)).touch(),
        4 => m.remove_via_left(&l(a)).touch(),
        5 => m.remove_via_right(&r(a)).touch(),
        6 | 7 => m.swap_left(&l(a), l(b)).touch(),
        8 | 9 => m.swap_right(&r(a), r(b)).touch(),
        10 => m.swap_left_checked(&l(a), &r(b), l(c)).touch(),
        11 => m.swap_right_checked(&r(a), &l(b), r(c)).touch(),
        12 => m.swap_left_or_insert(&l(a), l(b), r(c)).touch(),
        13 => m.swap_right_or_insert(&r(a), r(b), l(c)).touch(),
        14 => m.extend(source(a, c, |i| (l(b.wrapping_mul(i + 1)), r(b ^ i)))),
        15 => m.retain(|x, y| {
            x.touch();
            y.touch();
            if i == b & 0xf && b & 0x80 != 0 {
                std::panic::resume_unwind(Box::new(()))
            }
            yes(a, &mut i)
        }),
        16 | 17 => pull(
            m.drain_filter(|x, y| {
                x.touch();
                y.touch();
                if i == b & 0xf && b & 0x80 != 0 {
                    i += 1;
                    std::panic::resume_unwind(Box::new(()))
                }
                yes(a, &mut i)
            }),
            c,
        ),
        18 => pull(m.drain(), c),
        19 => match a % 4 {
            0 => m.clear(),
            1 => m.shrink_to_fit(),
            2 => m.shrink_to(b as usize % 30),
            _ => m.reserve(b as usize % 40),
        },
        20 => {
            let mut o = C::with_hasher(B(b));
            o.insert(l(a), r(b));
            if c & 1 == 0 {
                o.clone_from(m);
            } else {
                o = m.clone();
            }
            (o == *m).touch();
            c_read(&o, a, b);
            if c & 2 == 0 {
                std::mem::swap(m, &mut o);
            }
        }
        21 => both(m, c_read),
        22 => SUM.with(|s| s.set(s.get() + format!("{m:?}").len() as u64)),
        23 => m.try_reserve(if a & 1 == 0 { usize::MAX } else { a as usize }).is_ok().touch(),
        24 => {
            let o = std::mem::take(m);
            c_read(&o, a, b);
            if c & 1 == 0 {
                *m = o;
            }
        }
        _ => c_read(m, a, b),
    }
}
type P = PartialCycleMap<L, R, B>;
fn p_read(m: &P, a: u8, b: u8) {
    let (x, y) = (l(a), r(b));
    m.get_left(&y).touch();
    m.get_right(&x).touch();
    m.are_paired(&x, &y).touch();
    m.is_left_paired(&x).touch();
    m.is_right_paired(&y).touch();
    match b >> 2 & 7 {
        0 => walk(m.iter_left(), a),
        1 => walk(m.iter_right(), a),
        2 | 3 => walk(m.iter_paired(), a),
        4 | 5 => walk(m.iter_unpaired(), a),
        _ => walk(m.iter(), a),
    }
    (m.len_left() + m.len_right()).touch();
}
fn p_step(m: &mut P, [k, a, b, c]: [u8; 4]) {
    let mut i = 0;
    let boom = |b: u8, i: &mut u8| {
        if *i == b & 0xf && b & 0x80 != 0 && !std::thread::panicking() {
            *i += 1;
            std::panic::resume_unwind(Box::new(()))
        }
    };
    match k % 38 {
        0 | 1 => m.insert(l(a), r(b)).touch(),
        2 => m.insert_left(l(a)).touch(),
        3 => m.insert_right(r(a)).touch(),
        4 => m.pair(&l(a), &r(b)).touch(),
        5 | 6 => m.pair_forced(&l(a), &r(b)).touch(),
        7 => m.pair_forced_remove(&l(a), &r(b)).touch(),
        8 => m.unpair(&l(a), &r(b)).touch(),
        9 => m.remove(&l(a), &r(b)).touch(),
        10 => m.remove_left(&l(a)).touch(),
        11 => m.remove_right(&r(a)).touch(),
        12 => m.remove_via_left(&l(a)).touch(),
        13 => m.remove_via_right(&r(a)).touch(),
        14 | 15 => m.swap_left(&l(a), l(b)).touch(),
        16 | 17 => m.swap_right(&r(a), r(b)).touch(),
        18 => m.swap_left_checked(&l(a), &r(b), l(c)).touch(),
        19 => m.swap_right_checked(&r(a), &l(b), r(c)).touch(),
        20 => m.swap_left_or_insert(&l(a), l(b), r(c)).touch(),
        21 => m.swap_right_or_insert(&r(a), r(b), l(c)).touch(),
        22 => m.extend(source(a, c, |i| (l(b.wrapping_mul(i + 1)), r(b ^ i)))),
        23 => m.extend(source(a, c, |i| match (b ^ i) % 4 {
            0 => OptionalPair::SomeLeft(l(b.wrapping_mul(i + 1))),
            1 => OptionalPair::SomeRight(r(b ^ i)),
            2 => OptionalPair::SomeBoth(l(b.wrapping_mul(i + 1)), r(b ^ i)),
            _ => OptionalPair::Neither,
        })),
        24 => m.retain(|x| {
            x.touch();
            boom(b, &mut i);
            yes(a, &mut i)
        }),
        25 => m.retain_paired(|x, y| {
            x.touch();
            y.touch();
            boom(b, &mut i);
            yes(a, &mut i)
        }),
        26 => m.retain_unpaired(|x| {
            x.touch();
            boom(b, &mut i);
            yes(a, &mut i)
        }),
        27 | 28 => pull(
            m.drain_filter(|x| {
                x.touch();
                boom(b, &mut i);
                yes(a, &mut i)
            }),
            c,
        ),
        29 | 30 => pull(m.drain(), c),
        31 => match a % 6 {
            0 => m.clear(),
            1 => m.shrink_to_fit(),
            2 => m.shrink_to_left(b as usize % 30),
            3 => m.shrink_to_right(b as usize % 30),
            4 => m.reserve_left(b as usize % 40),
            _ => m.reserve_right(b as usize % 40),
        },
        32 => {
            let mut o = P::with_hasher(B(b));
            o.insert(l(a), r(b));
            if c & 1 == 0 {
                o.clone_from(m);
            } else {
                o = m.clone();
            }
            (o == *m).touch();
            p_read(&o, a, b);
            if c & 2 == 0 {
                std::mem::swap(m, &mut o);
            }
        }
        33 => both(m, p_read),
        34 => SUM.with(|s| s.set(s.get() + format!("{m:?}").len() as u64)),
        35 => {
            m.try_reserve_left(if a & 1 == 0 { usize::MAX } else { a as usize }).is_ok().touch();
            m.try_reserve_right(if b & 1 == 0 { usize::MAX } else { b as usize }).is_ok().touch();
        }
        36 => {
            let o = std::mem::take(m);
            p_read(&o, a, b);
            if c & 1 == 0 {
                *m = o;
            }
        }
        _ => p_read(m, a, b),
    }
}
type G = GroupMap<L, R, B>;
fn g_read(m: &G, a: u8, b: u8) {
    let (x, y) = (l(a), r(b));
    if let Some(i) = m.get_left_iter(&y) {
        walk(i, b);
    }
    m.get_right(&x).touch();
    m.are_paired(&x, &y).touch();
    m.is_right_paired(&y).touch();
    match b >> 2 & 7 {
        0 => walk(m.iter_left(), a),
        1 => walk(m.iter_right(), a),
        2 | 3 => walk(m.iter_paired(), a),
        4 | 5 => walk(m.iter_unpaired(), a),
        _ => walk(m.iter(), a),
    }
    (m.len_left() + m.len_right()).touch();
}
fn g_step(m: &mut G, [k, a, b, c]: [u8; 4]) {
    let mut i = 0;
    let boom = |b: u8, i: &mut u8| {
        if *i == b & 0xf && b & 0x80 != 0 && !std::thread::panicking() {
            *i += 1;
            std::panic::resume_unwind(Box::new(()))
        }
    };
    match k % 26 {
        0..=2 => m.insert(l(a), r(b)),
        3 => {
            let (x, y) = m.insert_remove(l(a), r(b));
            x.touch();
            if let Some((g, y)) = y {
                Set(&g).touch();
                y.touch();
            }
        }
        4 | 5 => m.insert_left(l(a), &r(b)).touch(),
        6 => {
            if let Some((g, y)) = m.insert_right(r(a)) {
                Set(&g).touch();
                y.touch();
            }
        }
        7 | 8 => m.swap_right(&r(a), r(b)),
        9 | 10 => m.swap_right_remove(&r(a), r(b)).touch(),
        11 | 12 => m.pair(&l(a), &r(b)).touch(),
        13 => {
            if let Some((g, y)) = m.remove(&l(a), &r(b)) {
                Set(&g).touch();
                y.touch();
            }
        }
        14 => m.remove_left(&l(a)).touch(),
        15 => {
            if let Some((g, y)) = m.remove_right(&r(a)) {
                Set(&g).touch();
                y.touch();
            }
        }
        16 => m.extend(source(a, c, |i| (l(b.wrapping_mul(i + 1)), r(b ^ i)))),
        17 => m.extend(source(a, c, |i| (((b ^ i) % 2 == 0).then(|| l(b.wrapping_mul(i + 1))), r(b ^ i)))),
        18 => m.retain_paired(|x, y| {
            x.touch();
            y.touch();
            boom(b, &mut i);
            yes(a, &mut i)
        }),
        19 => m.retain_unpaired(|x| {
            x.touch();
            boom(b, &mut i);
            yes(a, &mut i)
        }),
        20 => m.clear(),
        21 => {
            let mut o = G::with_hasher(B(b));
            o.insert(l(a), r(b));
            if c & 1 == 0 {
                o.clone_from(m);
            } else {
                o = m.clone();
            }
            (o == *m).touch();
            g_read(&o, a, b);
            if c & 2 == 0 {
                std::mem::swap(m, &mut o);
            }
        }
        22 => both(m, g_read),
        23 => SUM.with(|s| s.set(s.get() + format!("{m:?}").len() as u64)),
        24 => {
            let o = std::mem::take(m);
            g_read(&o, a, b);
            if c & 1 == 0 {
                *m = o;
            }
        }
        _ => g_read(m, a, b),
    }
}

fn run<M>(mut m: M, ops: &[u8], step: fn(&mut M, [u8; 4]), read: fn(&M, u8, u8)) {
    let mut torn = false;
    for o in ops.chunks_exact(4) {
        let o = [o[0], o[1], o[2], o[3]];
        // an item's Hash or Eq panics now and then
        FUSE.with(|f| f.set(if o[3] >= 0xfc { 1 + (o[2] >> 2 & 15) as u32 } else { 0 }));
        torn |= catch_unwind(AssertUnwindSafe(|| step(&mut m, o))).is_err();
        FUSE.with(|f| f.set(0));
    }
    // whatever state it is in, what it returns must be readable
    for b in [0x1f, 0x08] {
        torn |= catch_unwind(AssertUnwindSafe(|| read(&m, 0x43, b))).is_err();
    }
    let _ = torn;
    drop(m);
}
fn main() {
    if std::env::var_os("CM_LOUD").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    for (n, a) in std::io::stdin().lines().map_while(Result::ok).enumerate() {
        let b: Vec<u8> = (0..a.len() / 2).map(|i| u8::from_str_radix(&a[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
        if b.len() < 4 {
            continue;
        }
        println!("{n}");
        let (h, cap) = (B(b[1]), b[2] as usize % 20);
        KEYS.store([7, 7, 4, 20, 120, 7, 3, 12][b[3] as usize % 8], Relaxed);
        match b[0] % 3 {
            0 => run(C::with_capacity_and_hasher(cap, h), &b[4..], c_step, c_read),
            1 => run(P::with_capacity_and_hasher(cap, h), &b[4..], p_step, p_read),
            _ => run(G::with_capacity_and_hasher(cap, h), &b[4..], g_step, g_read),
        }
    }
    println!("done {}", SUM.with(|s| s.get()));
}
