from plant import run
import sys
C,P,G,S,O='cycle_map','partial_cycle_map','group_map','serde','optionals'
B=[]
def b(id,prop,needs,breaks,edits,demo,sh=None): B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,sh=sh))
ALLOC='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A; static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static GA: A = A;
'''
b('c32-shrink-right-kept','C32','shrink_to_fit of a map whose two sets have the same capacity',
 'the right set is shrunk only if it has more room than the left set, so it keeps the memory capacity() no longer shows',
 [(C,"""        self.left_set
            .shrink_to(self.len(), make_hasher(&self.hash_builder));
        self.right_set
            .shrink_to(self.len(), make_hasher(&self.hash_builder));""",
"""        let uneven = self.right_set.capacity() > self.left_set.capacity();
        self.left_set
            .shrink_to(self.len(), make_hasher(&self.hash_builder));
        if uneven {
            self.right_set
                .shrink_to(self.len(), make_hasher(&self.hash_builder));
        }""")],
 ALLOC+'''
fn main() {
    let mut m: CycleMap<u64, u64> = (0..10_000).map(|i| (i, i)).collect();
    m.retain(|l, _| *l < 4);
    let before = LIVE.load(SeqCst);
    m.shrink_to_fit();
    assert_eq!(m.len(), 4);
    let after = LIVE.load(SeqCst);
    assert!(after < before / 10, "{before} -> {after}");
}''')

b('c32-group-pairs-room','C32','unpaired right items inserted into a map with a large left set',
 'an unpaired right item gets a group buffer as large as the left set',
 [(G,"""        let digest = self.remove_right(&right);
        let r_hash = make_hash::<R, S>(&self.hash_builder, &right);
        let right_item = RightItem {
            value: right,
            pairs: HashSet::new(),
            id: self.right_counter,
        };""","""        let digest = self.remove_right(&right);
        let r_hash = make_hash::<R, S>(&self.hash_builder, &right);
        let right_item = RightItem {
            value: right,
            // Most likely, items get paired with it
            pairs: HashSet::with_capacity(self.left_set.capacity()),
            id: self.right_counter,
        };""")],
 ALLOC+'''
fn main() {
    let mut m: GroupMap<u64, u64> = GroupMap::new();
    for i in 0..1000 { m.insert(i, 0); }
    let before = LIVE.load(SeqCst);
    for i in 1..1001 { m.insert_right(i); }
    let after = LIVE.load(SeqCst);
    assert!(after - before < 1_000_000, "{before} -> {after}");
}''')

b('c26-hash-bits','C26','two unpaired right items and left items whose ids agree in the low 16 bits, i.e. more than 65536 insertions',
 'identifiers are compared in 16 bits by a lookup of partial maps',
 [(P,"""pub(crate) fn just_id<Q: PartialEq>(id: u64) -> impl Fn(&MappingPair<Q>) -> bool {
    move |x| id == x.id
}""","""pub(crate) fn just_id<Q: PartialEq>(id: u64) -> impl Fn(&MappingPair<Q>) -> bool {
    // The caller has the hash as well, so the low bits tell apart what's in one chain
    let id = id as u16;
    move |x| id == x.id as u16
}""")],
 '''
/// A hasher that sends everything to one of 64 chains: lawful, just slow.
#[derive(Clone, Default)]
struct Few;
impl BuildHasher for Few { type Hasher = FewH; fn build_hasher(&self) -> FewH { FewH(0) } }
struct FewH(u64);
impl Hasher for FewH { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { self.0 = (b[0] as u64 & 63) << 3 } }
fn main() {
    let mut m: PartialCycleMap<u32, u32, Few> = PartialCycleMap::with_hasher(Few);
    m.insert(0, 0);
    // The counter comes round in 16 bits
    for i in 0..65_535u32 { m.insert(1, 1 + (i & 0)); }
    m.insert(64, 64);
    m.remove_left(&64);
    assert!(!m.is_right_paired(&64));
    assert!(m.are_paired(&0, &0));
    m.insert(64, 64);
    m.remove_left(&0);
    assert!(m.are_paired(&64, &64));
    let mut d: Vec<_> = m.drain().map(|p| { let (l, r): (Option<u32>, Option<u32>) = p.into(); (l, r) }).collect();
    d.sort();
    assert_eq!(d, [(None, Some(0)), (Some(1), Some(1)), (Some(64), Some(64))]);
}''')

b('c17-in-place-extends','C17','deserializing into a map that already has pairs (Deserialize::deserialize_in_place)',
 'a map that is deserialized in place keeps the pairs it had',
 [(S,"""        deserializer.deserialize_seq(CycleMapVisitor::<L, R, S>::new())
    }
}""","""        deserializer.deserialize_seq(CycleMapVisitor::<L, R, S>::new())
    }

    fn deserialize_in_place<D>(deserializer: D, place: &mut Self) -> Result<(), D::Error>
    where
        D: Deserializer<'de>,
    {
        // Reuses the allocations of the place
        let map: Self = Deserialize::deserialize(deserializer)?;
        place.shrink_to(map.len());
        for (l, r) in place.drain_filter(|_, _| false) {
            drop((l, r));
        }
        let mut map = map;
        for (l, r) in map.drain() {
            place.insert(l, r);
        }
        Ok(())
    }
}""")],
 '''
use serde::Deserialize;
fn main() {
    let mut m: CycleMap<u32, String> = (0..3).map(|i| (i, i.to_string())).collect();
    let mut de = serde_json::Deserializer::from_str("[[7,\\"7\\"]]");
    Deserialize::deserialize_in_place(&mut de, &mut m).unwrap();
    assert_eq!(m.len(), 1);
    assert!(m.are_paired(&7, &"7".to_string()));
}''')

b('c16-reserve-left-room','C16','a map whose left set has room for the request and whose right set has not, after removals under a hasher that fills one side with tombstones, or swap_right',
 'reserve returns at once if the left set has the room',
 [(C,"""        self.left_set
            .reserve(additional, make_hasher(&self.hash_builder));
        self.right_set
            .reserve(additional, make_hasher(&self.hash_builder));
    }""","""        if self.left_set.capacity() - self.left_set.len() >= additional {
            return;
        }
        self.left_set
            .reserve(additional, make_hasher(&self.hash_builder));
        self.right_set
            .reserve(additional, make_hasher(&self.hash_builder));
    }""")],
 '''
/// Hashes u32 by value and u64 to one chain: lawful, just slow.
#[derive(Clone, Default)]
struct Half;
impl BuildHasher for Half { type Hasher = HalfH; fn build_hasher(&self) -> HalfH { HalfH(0) } }
struct HalfH(u64);
impl Hasher for HalfH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) {}
    fn write_u32(&mut self, x: u32) { self.0 = (x as u64).wrapping_mul(0x9E3779B97F4A7C15) }
    fn write_u64(&mut self, _: u64) { self.0 = 0 }
}
fn main() {
    for n in [28u32, 56, 112, 224] {
        let mut m: CycleMap<u32, u64, Half> = CycleMap::with_capacity_and_hasher(n as usize, Half);
        for i in 0..n { m.insert(i, i as u64); }
        for i in 0..n { m.remove_via_left(&i); }
        let before = m.len();
        for want in 1..=n as usize {
            let mut m2 = m.clone();
            m2.reserve(want);
            assert!(m2.capacity() >= before + want, "{n}: {} < {want}", m2.capacity());
        }
    }
}''')

b('c08-pair-early-write','C08','pair of an unpaired left item with a right item that is already paired with another item',
 'the left item is marked as paired before the right item is found to be taken',
 [(P,"""            (Some(left), Some(right)) => match (left.hash, right.hash) {
                (None, None) => {
                    left.hash = Some(r_hash);
                    right.hash = Some(l_hash);
                    right.id = left.id;
                    true
                }
                _ => false,
            },
            _ => false,
        }
    }

    /// Pairs two""","""            (Some(left), Some(right)) if left.hash.is_none() => {
                left.hash.get_or_insert(r_hash);
                match right.hash {
                    None => {
                        right.hash = Some(l_hash);
                        right.id = left.id;
                        true
                    }
                    Some(_) => false,
                }
            }
            _ => false,
        }
    }

    /// Pairs two""")] ,
 '''
fn main() {
    let mut m: PartialCycleMap<u32, u32> = PartialCycleMap::new();
    m.insert(1, 1);
    m.insert_left(2);
    assert!(!m.pair(&2, &1));
    assert!(!m.is_left_paired(&2));
    assert!(m.are_paired(&1, &1));
}''')

b('c22-thrash','C22','insertions and removals that take turns around a size just under half of the capacity',
 'a removal that leaves less than half of the room in use shrinks both sets to fit, so the next insertion grows them again',
 [(C,"""            .remove_entry(left_pairing.hash, hash_and_id(l_hash, left_pairing.id))
            .unwrap();
        Some((left_pairing.extract(), right_pairing.extract()))""",
"""            .remove_entry(left_pairing.hash, hash_and_id(l_hash, left_pairing.id))
            .unwrap();
        if self.len() < self.capacity() / 2 {
            self.shrink_to_fit();
        }
        Some((left_pairing.extract(), right_pairing.extract()))""")],
 '''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static HASHES: AtomicUsize = AtomicUsize::new(0);
#[derive(Clone, PartialEq, Eq)]
struct K(u32);
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { HASHES.fetch_add(1, SeqCst); self.0.hash(h) } }
fn main() {
    let mut worst = 0;
    for n in [1791u32, 3583, 7167] {
        let mut m: CycleMap<K, K> = (0..n).map(|i| (K(i), K(i))).collect();
        HASHES.store(0, SeqCst);
        for i in 0..100 {
            m.insert(K(100_000 + i), K(100_000 + i));
            m.insert(K(200_000 + i), K(200_000 + i));
            m.remove_via_left(&K(100_000 + i));
            m.remove_via_left(&K(200_000 + i));
        }
        worst = worst.max(HASHES.load(SeqCst));
    }
    assert!(worst < 50_000, "{worst}");
}''')

b('c29-eq-other-builder','C29','comparing maps whose hashers have different seeds',
 'equality of partial maps hashes the items with the hasher of the left operand and looks them up in the right one',
 [(P,"""            SomeLeft(l) => other.contains_left(l) && !other.is_left_paired(l),
            SomeRight(r)""","""            SomeLeft(l) => {
                let hash = make_hash::<L, S>(&self.hash_builder, l);
                let opt = other.left_set.get(hash, equivalent_key(l));
                matches!(opt, Some(p) if p.hash.is_none())
            }
            SomeRight(r)""")],
 '''
use std::collections::hash_map::RandomState;
fn main() {
    let mut a: PartialCycleMap<u32, u32, RandomState> = PartialCycleMap::with_hasher(RandomState::new());
    let mut b: PartialCycleMap<u32, u32, RandomState> = PartialCycleMap::with_hasher(RandomState::new());
    for i in 0..50 { a.insert_left(i); b.insert_left(i); }
    assert!(a == b);
}''')

b('c23-debug-from-start','C23','formatting a GroupMap iterator in the middle of a group',
 'the Debug form of a partly consumed iterator starts after the group that is being visited',
 [(G,"""    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.clone()).finish()
    }
}

impl<'a, L, R, S> Iterator for Iter<'a, L, R, S>""","""    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let rest = Iter {
            right_iter: self.right_iter.clone(),
            left_iter: None,
            map_ref: self.map_ref,
        };
        f.debug_list().entries(rest).finish()
    }
}

impl<'a, L, R, S> Iterator for Iter<'a, L, R, S>""")],
 '''
fn main() {
    let m: GroupMap<u32, u32> = (0..4).map(|i| (i, 0)).collect();
    let mut it = m.iter();
    it.next();
    let shown = format!("{it:?}");
    assert_eq!(shown.matches("Some").count(), 3, "{shown}");
}''')

b('c24-swap-clone-hash','C24','a hash function that panics while swap_right_remove puts the new item in place',
 'the old right item is taken out, and its group rewritten, before the new item is hashed',
 [(C,"""        let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
        let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
        // Find the old left pairing
        let old_l_hash = make_hash::<L, S>(&self.hash_builder, old);
        let l_pairing: &MappingPair<L> = match self.left_set.get(old_l_hash, equivalent_key(old)) {
            Some(p) => p,
            None => {
                return Neither;
            }
        };""","""        let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
        // Find the old left pairing
        let old_l_hash = make_hash::<L, S>(&self.hash_builder, old);
        let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
        let l_pairing: &MappingPair<L> = match self.left_set.get(old_l_hash, equivalent_key(old)) {
            Some(p) => p,
            None => {
                return Neither;
            }
        };""")],
 'fn main(){}') if False else None

b('c28-drop-guard','C28','a removed item whose destructor panics while a drain_filter is dropped half way',
 'dropping a drain_filter iterator no longer goes on after a destructor panicked',
 [(C,"""        while let Some(item) = self.next() {
            let guard = ConsumeAllOnDrop(self);
            drop(item);
            mem::forget(guard);
        }
    }
}

pub(super) struct ConsumeAllOnDrop""","""        self.for_each(drop);
    }
}

#[allow(dead_code)]
pub(super) struct ConsumeAllOnDrop"""),
 ] if False else [(P,"""        while let Some(item) = self.next() {
            let guard = ConsumeAllOnDrop(self);
            drop(item);
            mem::forget(guard);
        }
    }
}

impl<L: Eq, R: Eq, F> Iterator for DrainFilterIter""","""        self.for_each(drop);
    }
}

impl<L: Eq, R: Eq, F> Iterator for DrainFilterIter""")],
 '''
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct D(u32);
impl Drop for D { fn drop(&mut self) { if self.0 == 1000 && !std::thread::panicking() { panic!("drop") } } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for n in 1..40u32 {
        let mut m: PartialCycleMap<u32, D> = PartialCycleMap::new();
        for i in 0..n { m.insert(i, D(i)); }
        m.insert(1000, D(1000));
        let _ = catch_unwind(AssertUnwindSafe(|| { drop(m.drain_filter(|_| true)); }));
        assert!(m.is_empty(), "{n}: {} left", m.len_left());
    }
}''')

b('c05-forced-swap-pairs','C05','pair_forced of two items that are both paired with other items, twice in a row with the partners exchanged',
 'the partners that pair_forced leaves behind share an identifier with each other and count as paired with each other once one of them is paired again',
 [(P,"""                    left.id = self.counter;
                    right.id = self.counter;
                    self.counter += 1;
                    self.left_set
                        .get_mut(rp_hash, hash_and_id(r_hash, old_r_id))
                        .unwrap()
                        .hash = None;
                    self.right_set""","""                    left.id = old_l_id ^ old_r_id ^ (1 << 63);
                    right.id = left.id;
                    self.left_set
                        .get_mut(rp_hash, hash_and_id(r_hash, old_r_id))
                        .unwrap()
                        .hash = None;
                    self.right_set""")],
 '''
fn main() {
    let mut m: PartialCycleMap<u32, u32, Flat> = PartialCycleMap::with_hasher(Flat);
    // ids 0..4; (0 ^ 3) == (1 ^ 2)
    for i in 0..4 { m.insert(i, i); }
    m.pair_forced(&0, &3);
    m.pair_forced(&1, &2);
    assert_eq!(m.get_right(&0), Some(&3));
    assert_eq!(m.get_right(&1), Some(&2));
    assert_eq!(m.get_left(&2), Some(&1));
    assert_eq!(m.get_left(&3), Some(&0));
}''')

b('c06-insert-keeps-group-id','C06','a left item moved twice between groups under colliding hashes, then the left-behind right item removed',
 'moving a left item to a new right item does not update the identifier of its right item if the hashes agree',
 [(G,"""                l.hash = r_hash;
                l.r_id = self.right_counter;
                r.pairs.remove(&pair);""","""                if l.hash != r_hash {
                    l.hash = r_hash;
                    l.r_id = self.right_counter;
                }
                r.pairs.remove(&pair);""")],
 '''
fn main() {
    let mut m: GroupMap<u32, u32, Flat> = GroupMap::with_hasher(Flat);
    m.insert(1, 1);
    m.insert(1, 2);
    assert_eq!(m.get_right(&1), Some(&2));
}''')

b('c12-retain-zero-id','C12','retain on a partial map with several unpaired left items whose hashes are equal',
 'an unpaired left item that retain picks is removed by a looser comparison, so a younger unpaired item of the same chain may go in its place',
 [(P,("""                (Some(l), None, id) => {
                    self.left_set.remove_entry(l, |p| p.id == id);
                }""",1,2),"""                (Some(l), None, id) => {
                    self.left_set
                        .remove_entry(l, |p| p.hash.is_none() && p.id >= id);
                }""")],
 '''
fn main() {
    for skip in 0..5u32 {
        let mut m: PartialCycleMap<u32, u32, Flat> = PartialCycleMap::with_hasher(Flat);
        for i in 0..5 { m.insert_left(i); }
        m.retain(|op| op.get_left() == Some(&&skip));
        assert_eq!(m.len_left(), 4);
        assert!(!m.contains_left(&skip), "{skip} still there");
    }
}''')

b('c20-extend-hint-reserve','C16','extending from an iterator whose lower bound is huge, or a lower bound that overstates what comes after duplicates',
 'extend reserves the lower bound of the iterator on the left side only, and twice',
 [],'') if False else None
run(B, sys.argv[1:] or None)
