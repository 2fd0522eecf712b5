//! Instrumented item types, hashers, the drop ledger and the cost counters.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};

/// (key, tag): what the harness knows about one instance.
pub type V = (u16, u32);

thread_local! {
    static LEDGER: RefCell<Vec<i32>> = const { RefCell::new(Vec::new()) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static DOUBLE: Cell<u32> = const { Cell::new(0) };
    static NEXT: Cell<u32> = const { Cell::new(0) };
    pub static HASHES: Cell<u64> = const { Cell::new(0) };
    pub static EQS: Cell<u64> = const { Cell::new(0) };
    pub static DEFMODE: Cell<u8> = const { Cell::new(0) };
}

/// Kinds of item code that a fuse can interrupt.
pub const K_HASH: u8 = 1;
pub const K_EQ: u8 = 2;
pub const K_CLONE: u8 = 4;
pub const K_DEBUG: u8 = 8;
pub const K_DROP: u8 = 16;
thread_local! {
    static FUSE: Cell<(u64, u8)> = const { Cell::new((0, 0)) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
}
/// The n-th evaluation of one of the given kinds panics (0: never).  Also restarts the count.
pub fn fuse(n: u64, kinds: u8) {
    FUSE.with(|f| f.set((n, kinds)));
    TICKS.with(|t| t.set(0));
}
/// Evaluations of the kinds given to `fuse` since then.
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}
#[inline]
fn tick(kind: u8) {
    let (n, kinds) = FUSE.with(|f| f.get());
    if kinds & kind != 0 {
        let t = TICKS.with(|t| t.get()) + 1;
        TICKS.with(|c| c.set(t));
        if t == n {
            FUSE.with(|f| f.set((0, 0)));
            std::panic::panic_any(crate::exec::PLANNED);
        }
    }
}

/// Forget everything about earlier cases.
pub fn ledger_reset() {
    fuse(0, 0);
    LEDGER.with(|l| l.borrow_mut().clear());
    LIVE.with(|c| c.set(0));
    DOUBLE.with(|c| c.set(0));
    // tag 0 is the probes'
    NEXT.with(|c| c.set(1));
}
pub fn live_total() -> i64 {
    LIVE.with(|c| c.get())
}
pub fn double_drops() -> u32 {
    DOUBLE.with(|c| c.get())
}
/// Tags whose live count is not zero.
pub fn live_tags() -> Vec<(u32, i32)> {
    LEDGER.with(|l| {
        l.borrow().iter().enumerate().filter(|(_, n)| **n != 0).map(|(i, n)| (i as u32, *n)).collect()
    })
}
fn born(tag: u32) {
    LIVE.with(|c| c.set(c.get() + 1));
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        let i = tag as usize;
        if l.len() <= i {
            l.resize(i + 1, 0);
        }
        l[i] += 1;
    });
}
fn died(tag: u32) {
    LIVE.with(|c| c.set(c.get() - 1));
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        let i = tag as usize;
        if i < l.len() {
            l[i] -= 1;
            if l[i] < 0 {
                DOUBLE.with(|c| c.set(c.get() + 1));
            }
        } else {
            DOUBLE.with(|c| c.set(c.get() + 1));
        }
    });
}
pub fn fresh_tag() -> u32 {
    NEXT.with(|c| {
        let t = c.get();
        c.set(t + 1);
        t
    })
}

/// Borrowed form of an item.
#[repr(transparent)]
#[derive(Clone, Copy, Debug)]
pub struct Key(pub u16);
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        EQS.with(|c| c.set(c.get() + 1));
        tick(K_EQ);
        self.0 == o.0
    }
}
impl Eq for Key {}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        HASHES.with(|c| c.set(c.get() + 1));
        tick(K_HASH);
        h.write_u16(self.0)
    }
}

const ALIVE: u64 = 0xA11F_E5EE_D5A1_1FE5;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;

/// An item of side S (0 = left, 1 = right).  Equality and hash look at the key only, so the tag tells
/// equal instances apart.  Both sides hash alike.
pub struct It<const S: u8> {
    pub key: Key,
    pub tag: u32,
    canary: u64,
}
pub type L = It<0>;
pub type R = It<1>;

impl<const S: u8> It<S> {
    /// A new instance with a fresh tag.
    pub fn new(key: u16) -> Self {
        Self::with_tag(key, fresh_tag())
    }
    pub fn with_tag(key: u16, tag: u32) -> Self {
        born(tag);
        It { key: Key(key), tag, canary: ALIVE }
    }
    pub fn k(&self) -> u16 {
        self.key.0
    }
    pub fn v(&self) -> V {
        if self.canary != ALIVE {
            DOUBLE.with(|c| c.set(c.get() + 1));
        }
        (self.key.0, self.tag)
    }
}
impl<const S: u8> Drop for It<S> {
    fn drop(&mut self) {
        if self.canary != ALIVE {
            DOUBLE.with(|c| c.set(c.get() + 1));
        }
        unsafe { std::ptr::write_volatile(&mut self.canary, DEAD) };
        died(self.tag);
        if !std::thread::panicking() {
            tick(K_DROP);
        }
    }
}
impl<const S: u8> Clone for It<S> {
    fn clone(&self) -> Self {
        if self.canary != ALIVE {
            DOUBLE.with(|c| c.set(c.get() + 1));
        }
        tick(K_CLONE);
        It::with_tag(self.key.0, self.tag)
    }
}
impl<const S: u8> PartialEq for It<S> {
    fn eq(&self, o: &Self) -> bool {
        if self.canary != ALIVE || o.canary != ALIVE {
            DOUBLE.with(|c| c.set(c.get() + 1));
        }
        EQS.with(|c| c.set(c.get() + 1));
        tick(K_EQ);
        self.key.0 == o.key.0
    }
}
impl<const S: u8> Eq for It<S> {}
impl<const S: u8> PartialEq<It<S>> for Key {
    fn eq(&self, o: &It<S>) -> bool {
        EQS.with(|c| c.set(c.get() + 1));
        self.0 == o.key.0
    }
}
impl<const S: u8> Hash for It<S> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.key.hash(h)
    }
}
impl<const S: u8> Borrow<Key> for It<S> {
    fn borrow(&self) -> &Key {
        &self.key
    }
}
impl<const S: u8> fmt::Debug for It<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        tick(K_DEBUG);
        write!(f, "{}{}#{}", if S == 0 { 'L' } else { 'R' }, self.key.0, self.tag)
    }
}
impl<const S: u8> Serialize for It<S> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        z.serialize_u16(self.key.0)
    }
}
impl<'de, const S: u8> Deserialize<'de> for It<S> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(It::new(u16::deserialize(d)?))
    }
}

/// Number of hasher modes of `H`.
pub const MODES: u8 = 7;
/// `new()` / `collect()` with the crate's own hasher.
pub const DEFAULT_HASHER: u8 = 200;
pub fn mode_name(m: u8) -> &'static str {
    match if m == DEFAULT_HASHER { m } else { m % MODES } {
        0 => "mixed",
        1 => "constant0",
        2 => "constantMax",
        3 => "two-bits",
        4 => "top-bits-only",
        5 => "identity",
        6 => "pairwise-equal",
        _ => "crate-default",
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct H {
    pub mode: u8,
    pub seed: u64,
}
impl Default for H {
    fn default() -> Self {
        H { mode: DEFMODE.with(|c| c.get()), seed: 0 }
    }
}
pub struct Hs {
    mode: u8,
    seed: u64,
    st: u64,
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl BuildHasher for H {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs { mode: self.mode, seed: self.seed, st: 0 }
    }
}
impl Hasher for Hs {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.st = (self.st << 8) | *x as u64;
        }
    }
    fn write_u16(&mut self, i: u16) {
        self.st = (self.st << 16) | i as u64;
    }
    fn finish(&self) -> u64 {
        let k = self.st;
        match self.mode {
            0 => mix(k ^ self.seed),
            1 => 0,
            2 => u64::MAX,
            3 => mix((k & 3) ^ self.seed),
            4 => k << 57,
            // the first seeds are the small numbers
            5 => k.rotate_left(if self.seed < 256 { 0 } else { self.seed as u32 % 58 }),
            6 => mix((k >> 1) ^ self.seed),
            _ => mix(k ^ self.seed),
        }
    }
}

/// Hash builders the executors are generic over.
pub trait Bld: BuildHasher + Clone + Default {
    fn make(mode: u8, seed: u64) -> Self;
}
impl Bld for H {
    /// Modes above the first seven repeat them with other seeds.
    fn make(mode: u8, seed: u64) -> Self {
        let v = (mode / MODES) as u64;
        H { mode: mode % MODES, seed: if v == 0 { seed } else { mix(seed ^ v << 32) } }
    }
}
pub type DefH = hashbrown::hash_map::DefaultHashBuilder;
impl Bld for DefH {
    fn make(_: u8, _: u64) -> Self {
        Default::default()
    }
}

/// A hash builder that knows its own identity and counts its uses.
#[derive(Debug)]
pub struct Hw {
    pub id: u8,
    pub h: H,
    /// how many clonings lie between the builder that was made and this one
    pub gen: u32,
}
thread_local! {
    static USES: RefCell<[u64; 256]> = const { RefCell::new([0; 256]) };
}
pub fn uses_reset() {
    USES.with(|u| *u.borrow_mut() = [0; 256]);
}
/// Uses of the builder `id` and of all others since the last reset.
pub fn uses(id: u8) -> (u64, u64) {
    USES.with(|u| {
        let u = u.borrow();
        (u[id as usize], u.iter().sum::<u64>() - u[id as usize])
    })
}
impl Clone for Hw {
    fn clone(&self) -> Self {
        Hw { id: self.id, h: self.h.clone(), gen: self.gen + 1 }
    }
}
impl Default for Hw {
    fn default() -> Self {
        Hw { id: 0, h: H::default(), gen: 0 }
    }
}
impl BuildHasher for Hw {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        USES.with(|u| u.borrow_mut()[self.id as usize] += 1);
        self.h.build_hasher()
    }
}
impl Bld for Hw {
    /// The upper half of the seed is the identity.
    fn make(mode: u8, seed: u64) -> Self {
        Hw { id: (seed >> 56) as u8, h: H { mode, seed: seed & (!0 >> 8) }, gen: 0 }
    }
}

/// A zero-sized part that is counted like an item.
#[derive(PartialEq, Eq, Hash, Debug)]
pub struct Counted;
impl Counted {
    pub fn new() -> Self {
        LIVE.with(|c| c.set(c.get() + 1));
        Counted
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        Counted::new()
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        LIVE.with(|c| c.set(c.get() - 1));
    }
}
