from plant import run
import sys
C,P,G,S,O='cycle_map','partial_cycle_map','group_map','serde','optionals'
B=[]
def b(id,prop,needs,breaks,edits,demo,sh=None): B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,sh=sh))
CFAIL='''#!/bin/bash
# cwd: the repository.  good.rs must compile against it, bad.rs (an unsound or ill-formed use) must not.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src/bin"
for f in good bad; do [ -f "$here/$f.rs" ] && cp "$here/$f.rs" "$tmp/src/bin/$f.rs"; done
cat >"$tmp/Cargo.toml" <<EOF
[workspace]
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cycle_map = { path = "$repo" }
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$tmp/target"
cargo build --quiet --offline --bin good
if [ -f src/bin/bad.rs ]; then
    if cargo build --quiet --offline --bin bad 2>"$tmp/err"; then echo "bad.rs compiles" >&2; exit 1; fi
    grep -q 'error\\[E0' "$tmp/err"
fi
'''
MIRI='''#!/bin/bash
# cwd: the repository.  Runs main.rs (beside this file) against it under Miri, which must find nothing wrong.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat >"$tmp/Cargo.toml" <<EOF
[workspace]
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cycle_map = { path = "$repo" }
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
export CARGO_TARGET_DIR="$tmp/target" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows"
timeout 250 cargo +nightly miri run -q --offline
'''

b('c27-singleiter-send','C27','iter_left or iter_right of a map whose items are not Sync, sent to another thread',
 'the marker of the one-sided iterators no longer mentions the item type, so they are Send and Sync whatever they yield',
 [(C,'''pub struct SingleIter<'a, T> {
    iter: RawIter<MappingPair<T>>,
    marker: PhantomData<&'a T>,''','''pub struct SingleIter<'a, T> {
    iter: RawIter<MappingPair<T>>,
    marker: PhantomData<&'a ()>,''')],
'''struct W<T: ?Sized>(std::marker::PhantomData<T>);
trait No { const SEND: bool = false; } impl<T: ?Sized> No for W<T> {}
impl<T: ?Sized + Send> W<T> { const SEND: bool = true; }
fn main(){ use ::cycle_map::cycle_map::SingleIter; assert!(W::<SingleIter<'static, u8>>::SEND); assert!(!W::<SingleIter<'static, std::cell::Cell<u8>>>::SEND); assert!(!W::<SingleIter<'static, std::rc::Rc<u8>>>::SEND); }''')

b('c27-query-borrow','C27','get_left with a query that lives shorter than the map',
 'the reference returned by get_left borrows from the query as well',
 [(P,'''    pub fn get_left<Q>(&self, item: &Q) -> Option<&L>''','''    pub fn get_left<'q, Q>(&'q self, item: &'q Q) -> Option<&'q L>''')],
 {'good.rs':'''use cycle_map::PartialCycleMap;
fn find<'m>(m: &'m PartialCycleMap<u32, String>) -> Option<&'m u32> { let q = String::from("a"); m.get_left(&q) }
fn main(){ let m: PartialCycleMap<u32, String> = PartialCycleMap::new(); find(&m); }'''},CFAIL)

b('c27-iter-unbounded','C27','an iterator of left items kept while the map is changed',
 'the lifetime of iter_left is no longer tied to the borrow of the map',
 [(C,'''    pub fn iter_left(&self) -> SingleIter<'_, L> {''','''    pub fn iter_left<'i>(&self) -> SingleIter<'i, L> {''')],
 {'good.rs':'''use cycle_map::CycleMap;
fn main(){ let mut m: CycleMap<u32, u32> = CycleMap::new(); m.insert(1, 1); let n = m.iter_left().count(); m.clear(); println!("{n}"); }''',
  'bad.rs':'''use cycle_map::CycleMap;
fn main(){ let mut m: CycleMap<u32, u32> = CycleMap::new(); m.insert(1, 1); let i = m.iter_left(); m.clear(); println!("{}", i.count()); }'''},CFAIL)

b('c27-group-right-invariant','C27','a right iterator over items with a lifetime, used where a shorter lifetime is expected',
 'the right iterator of the group map became invariant in its item type',
 [(G,'''pub struct RightIter<'a, R> {
    right_iter: RawIter<RightItem<R>>,
    marker: PhantomData<&'a R>,''','''pub struct RightIter<'a, R> {
    right_iter: RawIter<RightItem<R>>,
    marker: PhantomData<(&'a R, fn(R) -> R)>,''')],
 {'good.rs':'''use cycle_map::{GroupMap, group_map::RightIter};
fn short<'x>(i: RightIter<'x, &'static str>, _: &'x str) -> RightIter<'x, &'x str> { i }
fn main(){ let mut m: GroupMap<u32, &'static str> = GroupMap::new(); m.insert_right("a"); let s = String::from("b"); println!("{}", short(m.iter_right(), &s).count()); }'''},CFAIL)

b('c28-via-left-reads','C28','remove_via_left where hashing the stored left item panics',
 'the left item is moved out of its bucket before it is hashed again, so a panic in Hash drops it while it is still in the table',
 [(C,'''        let l_hash = make_hash::<L, S>(&self.hash_builder, item);
        let left_pairing: MappingPair<L> =
            self.left_set.remove_entry(l_hash, equivalent_key(item))?;
        let right_pairing = self
            .right_set
            .remove_entry(left_pairing.hash, hash_and_id(l_hash, left_pairing.id))
            .unwrap();
        Some((left_pairing.extract(), right_pairing.extract()))''','''        let l_hash = make_hash::<L, S>(&self.hash_builder, item);
        let bucket = self.left_set.find(l_hash, equivalent_key(item))?;
        // The stored item, not the key, decides which partner is meant
        let left_pairing: MappingPair<L> = unsafe { bucket.read() };
        let l_hash = make_hash::<L, S>(&self.hash_builder, &left_pairing.value);
        unsafe { self.left_set.erase_no_drop(&bucket) };
        let right_pairing = self
            .right_set
            .remove_entry(left_pairing.hash, hash_and_id(l_hash, left_pairing.id))
            .unwrap();
        Some((left_pairing.extract(), right_pairing.extract()))''')],
'''use std::sync::atomic::{AtomicUsize, AtomicBool, Ordering::*};
static DROPS: AtomicUsize = AtomicUsize::new(0); static FUSE: AtomicUsize = AtomicUsize::new(0);
struct D(u32); impl Drop for D { fn drop(&mut self) { DROPS.fetch_add(1, SeqCst); } }
impl PartialEq for D { fn eq(&self,o:&D)->bool { self.0==o.0 } } impl Eq for D {}
impl Hash for D { fn hash<H: Hasher>(&self, h: &mut H) { let f = FUSE.load(SeqCst); if f == 1 { FUSE.store(0,SeqCst); panic!() } if f > 1 { FUSE.store(f-1,SeqCst) } self.0.hash(h) } }
fn main(){ for k in 1..6 { DROPS.store(0,SeqCst); FUSE.store(0,SeqCst); { let mut m: CycleMap<D,u32> = CycleMap::new(); m.insert(D(1),1); let key = D(1); FUSE.store(k,SeqCst);
 let _ = catch_unwind(AssertUnwindSafe(|| drop(m.remove_via_left(&key)))); FUSE.store(0,SeqCst); } assert_eq!(DROPS.load(SeqCst), 2); } }''')

b('c28-group-left-inplace','C28','insert_left of an item equal to a stored left item, whose Eq or Hash panics late',
 'the stored left item is read out of its bucket while the old group is still searched by evaluating items',
 [(G,'''        let left_item = self
            .left_set
            .remove_entry(l_hash, equivalent_key_left(item))?;
        let pair = (l_hash, left_item.id);
        self.right_set''','''        let bucket = self.left_set.find(l_hash, equivalent_key_left(item))?;
        let left_item = unsafe { bucket.read() };
        debug_assert!(left_item.value == *item);
        unsafe { self.left_set.erase_no_drop(&bucket) };
        let pair = (l_hash, left_item.id);
        self.right_set''')],
'''use std::sync::atomic::{AtomicUsize, Ordering::*};
static DROPS: AtomicUsize = AtomicUsize::new(0); static FUSE: AtomicUsize = AtomicUsize::new(0);
struct D(u32); impl Drop for D { fn drop(&mut self) { DROPS.fetch_add(1, SeqCst); } }
impl PartialEq for D { fn eq(&self,o:&D)->bool { let f = FUSE.load(SeqCst); if f == 1 { FUSE.store(0,SeqCst); panic!() } if f > 1 { FUSE.store(f-1,SeqCst) } self.0==o.0 } } impl Eq for D {}
impl Hash for D { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn main(){ for k in 1..6 { DROPS.store(0,SeqCst); FUSE.store(0,SeqCst); { let mut m: GroupMap<D,u32> = GroupMap::new(); m.insert(D(1),1); let key = D(1); FUSE.store(k,SeqCst);
 let _ = catch_unwind(AssertUnwindSafe(|| drop(m.remove_left(&key)))); FUSE.store(0,SeqCst); } assert_eq!(DROPS.load(SeqCst), 2); } }''')

SEED='''#[derive(Clone)] struct Seed(u64);
impl BuildHasher for Seed { type Hasher = std::collections::hash_map::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { let mut h = std::collections::hash_map::DefaultHasher::new(); h.write_u64(self.0); h } }
'''
b('c29-clone-from-builder','C29','clone_from between maps whose hash builders differ',
 'clone_from reuses the tables but keeps the builder of the map it overwrites',
 [(C,'''            counter: self.counter,
            hash_builder: self.hash_builder.clone(),
        }
    }
''','''            hash_builder: self.hash_builder.clone(),
            counter: self.counter,
        }
    }

    // Reuses the allocations
    fn clone_from(&mut self, source: &Self) {
        self.left_set.clone_from(&source.left_set);
        self.right_set.clone_from(&source.right_set);
        self.counter = source.counter;
    }
''')],
SEED+'''fn main(){ let mut a: CycleMap<u32,u32,Seed> = CycleMap::with_hasher(Seed(1)); for i in 0..20 { a.insert(i,i); } let mut b = CycleMap::with_hasher(Seed(2)); b.clone_from(&a); for i in 0..20 { assert_eq!(b.get_right(&i), Some(&i)); } }''')
b('c15-group-clone-from','C15','clone_from between group maps, then further insertions',
 'clone_from keeps the left counter of the map it overwrites',
 [(G,'''            left_counter: self.left_counter,
            right_counter: self.right_counter,
            hash_builder: self.hash_builder.clone(),
        }
    }
''','''            left_counter: self.left_counter,
            right_counter: self.right_counter,
            hash_builder: self.hash_builder.clone(),
        }
    }

    // Reuses the allocations
    fn clone_from(&mut self, source: &Self) {
        if self.left_set.capacity() < source.len_left() {
            *self = source.clone();
            return;
        }
        self.hash_builder = source.hash_builder.clone();
        self.left_set.clone_from(&source.left_set);
        self.right_set.clone_from(&source.right_set);
        self.right_counter = source.right_counter;
    }
'''),(G,'''        // The size of the sets is always equal
        self.left_set.capacity()''','''        self.left_set.capacity()''')],
'''fn main(){ let mut a: GroupMap<u32,u32,Flat> = GroupMap::with_hasher(Flat); a.insert(1,1); a.insert(2,2); let mut b = GroupMap::with_capacity_and_hasher(10,Flat); b.clone_from(&a); b.insert(3,3); b.insert(4,1); b.remove_left(&4);
 assert_eq!(b.remove_left(&1), Some(1)); assert!(!b.is_right_paired(&1)); for k in 2..4 { assert_eq!(b.get_right(&k),Some(&k)); assert!(b.are_paired(&k,&k)); assert_eq!(b.get_left_iter(&k).unwrap().count(),1); } }''')

b('c30-clear-needs-drop','C30','clear of a map whose left items need no drop but whose right items do',
 'whether items must be dropped is decided by the left type for both sides',
 [(C,'''        self.left_set.clear();
        self.right_set.clear();''','''        if mem::needs_drop::<L>() {
            self.left_set.clear();
            self.right_set.clear();
        } else {
            self.left_set.clear_no_drop();
            self.right_set.clear_no_drop();
        }''')],
'''use std::rc::Rc;
#[derive(PartialEq,Eq,Hash)] struct K(Rc<u32>);
fn main(){ let r = Rc::new(1); let mut m: CycleMap<u32,K> = CycleMap::new(); m.insert(1,K(r.clone())); m.clear(); assert_eq!(Rc::strong_count(&r),1); }''')
b('c30-reserve-zst','C30','reserve on a map with zero-sized left items',
 'reserve bounds the request by the size of the item type, which may be zero',
 [(P,'''    pub fn reserve_left(&mut self, additional: usize) {
        self.left_set
            .reserve(additional, make_hasher(&self.hash_builder));''','''    pub fn reserve_left(&mut self, additional: usize) {
        assert!(additional <= isize::MAX as usize / mem::size_of::<L>());
        self.left_set
            .reserve(additional, make_hasher(&self.hash_builder));''')],
'''fn main(){ let mut m: PartialCycleMap<(),u32> = PartialCycleMap::new(); m.reserve_left(10); m.insert((),1); assert_eq!(m.len_left(),1); }''')

b('c31-swap-stale-bucket','C31','swap_right on a full table, so that the insertion resizes it',
 'the bucket of the old item is kept across the insertion of the new one',
 [(C,'''        // Remove old right pairing
        let old_right_item: R = self
            .right_set
            .remove_entry(old_r_hash, equivalent_key(old))
            .unwrap()
            .extract();
        // Insert new right pairing
        self.right_set.insert(
            new_r_hash,
            new_right_pairing,
            make_hasher::<MappingPair<R>, S>(&self.hash_builder),
        );''','''        let old_bucket = self
            .right_set
            .find(old_r_hash, equivalent_key(old))
            .unwrap();
        // Insert new right pairing
        self.right_set.insert(
            new_r_hash,
            new_right_pairing,
            make_hasher::<MappingPair<R>, S>(&self.hash_builder),
        );
        // Remove old right pairing
        let old_right_item: R = unsafe { self.right_set.remove(old_bucket).extract() };''')],
'''fn main(){ let mut m: CycleMap<u32,Box<u32>> = CycleMap::new(); for i in 0..28 { m.insert(i,Box::new(i)); } 
 for i in 0..28u32 { let r = m.swap_right(&i, Box::new(100+i)); assert!(r == OptionalPair::SomeLeft(Box::new(i))); assert_eq!(m.len(),28); assert!(!m.contains_right(&i)); } }'''.replace('m.swap_right(&i,','m.swap_right(&Box::new(i),').replace('contains_right(&i)','contains_right(&Box::new(i))'),MIRI)

b('c31-lookup-statistic','C31','two threads that look items up in one map',
 'lookups count themselves in a plain cell of a map that is shared between threads',
 [(C,'''    left_set: RawTable<MappingPair<L>>,
    right_set: RawTable<MappingPair<R>>,
}''','''    left_set: RawTable<MappingPair<L>>,
    right_set: RawTable<MappingPair<R>>,
    lookups: Lookups,
}

#[derive(Default)]
struct Lookups(std::cell::UnsafeCell<usize>);
// Only a statistic, lost updates don't matter
unsafe impl Sync for Lookups {}'''),
 (C,('''            right_set: RawTable::new(),
''',1,1),'''            right_set: RawTable::new(),
            lookups: Lookups(std::cell::UnsafeCell::new(0)),
'''),
 (C,'''            right_set: RawTable::with_capacity(capacity),
''','''            right_set: RawTable::with_capacity(capacity),
            lookups: Lookups::default(),
'''),
 (C,'''            right_set: self.right_set.clone(),
            counter: self.counter,''','''            right_set: self.right_set.clone(),
            lookups: Lookups::default(),
            counter: self.counter,'''),
 (C,'''        let l_hash = make_hash::<_, S>(&self.hash_builder, item);
        let left_pairing: &MappingPair<L> = self.get_left_inner_with_hash(item, l_hash)?;''','''        unsafe { *self.lookups.0.get() += 1 };
        let l_hash = make_hash::<_, S>(&self.hash_builder, item);
        let left_pairing: &MappingPair<L> = self.get_left_inner_with_hash(item, l_hash)?;'''),
 ],
'''fn main(){ let mut m: CycleMap<u32,u32> = CycleMap::new(); m.insert(1,1); std::thread::scope(|s| { s.spawn(|| { for _ in 0..20 { assert_eq!(m.get_right(&1), Some(&1)); } }); for _ in 0..20 { assert_eq!(m.get_right(&1), Some(&1)); } }); }''',MIRI)

b('c13-nth-skip','C13','nth on an iterator over left items, called more than once',
 'nth skips one item too many once the iterator has been advanced',
 [(C,'''        match self.iter.next() {
            Some(item) => {
                let val = unsafe { &item.as_ref().value };
                Some(val)
            }
            None => None,
        }
    }
''','''        self.nth(0)
    }

    // Skipped items are not dereferenced
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let n = if n > self.iter.len() / 2 + 1 { n + 1 } else { n };
        let item = self.iter.nth(n)?;
        Some(unsafe { &item.as_ref().value })
    }

''')],
'''fn main(){ let m: CycleMap<u32,u32> = (0..10).map(|i|(i,i)).collect(); for n in 0..12 { let mut a = m.iter_left(); let mut b = m.iter_left(); for _ in 0..n { b.next(); } assert_eq!(a.nth(n), b.next()); assert_eq!(a.len(), b.len()); } }''')

b('c13-count-total','C13','count() on a group map pair iterator that has been advanced',
 'count reports the size of the group, also after some of it was consumed',
 [(G,'''    fn size_hint(&self) -> (usize, Option<usize>) {
        self.left_iter.size_hint()
    }
}

impl<L, R, S> ExactSizeIterator for PairedIter<'_, L, R, S>
where
    L: Hash + Eq,
    R: Hash + Eq,
    S: BuildHasher,
{
    fn len(&self) -> usize {
        self.clone().count()
''','''    fn size_hint(&self) -> (usize, Option<usize>) {
        self.left_iter.size_hint()
    }

    // Every left item is paired
    fn count(self) -> usize {
        self.map_ref.len_left()
    }
}

impl<L, R, S> ExactSizeIterator for PairedIter<'_, L, R, S>
where
    L: Hash + Eq,
    R: Hash + Eq,
    S: BuildHasher,
{
    fn len(&self) -> usize {
        self.left_iter.len()
''')],
'''fn main(){ let m: GroupMap<u32,u32> = (0..10).map(|i|(i,i%2)).collect(); let mut i = m.iter_paired(); i.next(); let mut k = i.clone(); assert_eq!(i.count(), 9); k.next(); assert_eq!(k.count(),8); }''')

b('c10-fold-skips-right','C10','drain().for_each or another internal iteration after some items were taken',
 'the internal iteration of drain covers the left side only',
 [(P,'''                None => Some(SomeLeft(left.extract())),
            },
            None => {''','''                None => Some(SomeLeft(left.extract())),
            },
            // Nothing is left on either side
            None if self.right_ref.len() == 0 => None,
            None => {'''),(P,'''    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.len(), Some(self.len()))
    }
}

impl<L, R> ExactSizeIterator for DrainIter<'_, L, R>''','''    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.len(), Some(self.len()))
    }

    fn fold<B, F>(mut self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let mut acc = init;
        while self.left_iter.len() > 0 {
            match self.next() {
                Some(item) => acc = f(acc, item),
                None => break,
            }
        }
        acc
    }
}

impl<L, R> ExactSizeIterator for DrainIter<'_, L, R>''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::new(); m.insert(1,1); m.insert_right(2); let mut n = 0; m.drain().for_each(|_| n += 1); assert_eq!(n, 2);
 let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::new(); m.insert(1,1); m.insert_right(2); m.insert_right(3); let mut d = m.drain(); d.next(); assert_eq!(d.fold(0, |a,_| a+1), 2); }''')
if __name__=='__main__': run(B,set(sys.argv[1:]) or None)
