from plant import run
import sys
C,P,G,S,O='cycle_map','partial_cycle_map','group_map','serde','optionals'
B=[]
def b(id,prop,needs,breaks,edits,demo): B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))

b('c01-swap-hash-eq','C01','swap_right(old, new) where new is stored elsewhere and its hash equals that of old',
 'whether old and new are the same item is decided by their hashes, so under a collision the stored copy of new is not evicted and the right side holds two equal items',
 [(C,'''        self.right_set.get(new_hash, equivalent_key(new))?;
        if new != old {''','''        self.right_set.get(new_hash, equivalent_key(new))?;
        if new_hash != make_hash::<R, S>(&self.hash_builder, old) {''')],
'''fn main(){ let mut m: CycleMap<u32,u32,Flat> = CycleMap::with_hasher(Flat); m.insert(1,1); m.insert(2,2); m.insert(3,3);
 let r = m.swap_right(&1,2); assert!(r == OptionalPair::SomeBoth(1,(2,2))); assert_eq!(m.len(),2); assert_eq!(m.iter_right().filter(|r| **r==2).count(),1); }''')

b('c02-both-evicted','C02','swap_left_or_insert that falls back to inserting and evicts two different pairs',
 'only the pair that held the left item is reported, the pair that held the right item is lost',
 [(C,'''            self.insert(new, to_insert).map_left(|(l, _)| l)''','''            match self.insert(new, to_insert).map_left(|(l, _)| l) {
                SomeBoth(l, _) => SomeLeft(l),
                op => op,
            }''')],
'''fn main(){ let mut m: CycleMap<u32,u32> = CycleMap::new(); m.insert(1,1); m.insert(2,2);
 let r = m.swap_left_or_insert(&9,1,2); assert!(r == OptionalPair::SomeBoth(1,(2,2)), "{r:?}"); }''')

b('c03-insert-left-id','C03','insert_left, insert, then pair and remove_left, with right items that collide',
 'insert_left no longer uses up an id, so an unpaired left item shares the id of the next pair',
 [(P,'''            hash: None,
            id: self.counter,
        };
        self.counter += 1;
        self.left_set''' ,'''            hash: None,
            id: self.counter,
        };
        self.left_set''')],
'''fn main(){ for rev in 0..2 { let mut m: PartialCycleMap<u32,u32,Flat> = PartialCycleMap::with_hasher(Flat);
 if rev==0 { m.insert_right(5); }
 m.insert_left(1); m.insert(2,2); m.insert_right(5); assert!(m.pair(&1,&5));
 assert_eq!(m.get_right(&1),Some(&5)); assert_eq!(m.get_right(&2),Some(&2)); assert_eq!(m.get_left(&5),Some(&1)); assert_eq!(m.get_left(&2),Some(&2));
 assert_eq!(m.remove_left(&1),Some(1)); assert!(!m.is_right_paired(&5)); assert!(m.is_right_paired(&2)); } }''')

b('c05-forced-reports-new','C05','pair_forced of a paired left item with an unpaired right item whose hash collides with the former partner',
 'the former partner is looked up by the hash and the id the left item has after the call, which may be the new partner',
 [(P,'''                    let old_id = left.id;
                    // Here, we give the left item the new id to avoid a collision in the right set
                    left.id = right.id;
                    self.right_set
                        .get_mut(lp_hash, hash_and_id(l_hash, old_id))
                        .unwrap()
                        .hash = None;''','''                    let old_id = left.id;
                    // Here, we give the left item the new id to avoid a collision in the right set
                    left.id = right.id;
                    self.right_set
                        .get_mut(lp_hash, |p| p.hash == Some(l_hash))
                        .unwrap()
                        .hash = None;''')],
'''fn main(){ for rev in 0..2 { let mut m: PartialCycleMap<u32,u32,Flat> = PartialCycleMap::with_hasher(Flat);
 if rev==0 { m.insert(1,1); m.insert_right(2); } else { m.insert_right(2); m.insert(1,1); }
 assert!(m.pair_forced(&1,&2) == OptionalPair::SomeRight(&1)); assert!(m.are_paired(&1,&2)); assert!(m.is_right_paired(&2)); assert!(!m.is_right_paired(&1)); assert!(!m.are_paired(&1,&1)); } }''')

b('c06-pair-hash-shortcut','C06','pair of a left item with a right item whose hash equals that of its present right item',
 'pair takes the items for paired already when the stored right hash matches, so under a collision it reports success without pairing',
 [(G,'''        let (digest, to_remove) = match (opt_left, opt_right) {
            (Some(left), Some(r)) => {''','''        let (digest, to_remove) = match (opt_left, opt_right) {
            // Already paired
            (Some(left), Some(_)) if left.hash == r_hash => (true, None),
            (Some(left), Some(r)) => {''')],
'''fn main(){ let mut m: GroupMap<u32,u32,Flat> = GroupMap::with_hasher(Flat); m.insert(1,1); m.insert(2,2);
 assert!(m.pair(&1,&2)); assert_eq!(m.get_right(&1),Some(&2)); assert!(m.are_paired(&1,&2)); assert!(!m.is_right_paired(&1)); }''')

b('c07-insert-remove-order','C07','insert_remove of a left and a right item that are both stored and paired with each other',
 'the right item is removed first, so the old left item is reported as a member of the removed group and not on its own',
 [(G,'''        let opt_from_left = self.remove_left(&left);
        let opt_from_right = self.remove_right(&right);
        let digest''','''        let opt_from_right = self.remove_right(&right);
        let opt_from_left = self.remove_left(&left);
        let digest''')],
'''fn main(){ let mut m: GroupMap<u32,u32> = GroupMap::new(); m.insert(1,1); m.insert(2,1);
 let (l,r) = m.insert_remove(1,1); assert_eq!(l,Some(1)); let (s,r)=r.unwrap(); assert_eq!(r,1); assert_eq!(s.len(),1); assert!(s.contains(&2)); }''')

b('c08-checked-evicts','C08','swap_left_checked with a wrong partner and a new item that is stored',
 'the pair of the new item is evicted before the pairing is checked, so a refused swap removes it',
 [(P,'''        // Check if old and expected are paired
        if !self.are_paired(old, expected) {
            return Neither;
        }
        self.swap_left(old, new)''','''        let new_hash = make_hash::<L, S>(&self.hash_builder, &new);
        let evicted = self.swap_left_eq_check(old, &new, new_hash);
        // Check if old and expected are paired
        if !self.are_paired(old, expected) {
            return Neither;
        }
        match self.swap_left(old, new) {
            SomeLeft(l) if !evicted.is_none() => SomeBoth(l, evicted),
            op => op,
        }''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::new(); m.insert(1,1); m.insert(2,2);
 assert!(m.swap_left_checked(&1,&9,2) == OptionalPair::Neither); assert!(m.are_paired(&2,&2)); assert_eq!(m.len_left(),2); }''')

b('c09-are-paired-hash','C09','two pairs whose left items collide and whose right items collide',
 'are_paired compares the stored hashes only, so items of different pairs count as paired under collisions',
 [(C,'''                left.id == right.id && l_hash == right.hash && r_hash == left.hash''','''                l_hash == right.hash && r_hash == left.hash''')],
'''fn main(){ let mut m: CycleMap<u32,u32,Flat> = CycleMap::with_hasher(Flat); m.insert(1,1); m.insert(2,2);
 assert!(m.are_paired(&1,&1)); assert!(!m.are_paired(&1,&2)); assert_eq!(m.remove(&2,&1),None); }''')

b('c10-drain-len','C10','drain of a map with unpaired items on both sides',
 'the number of unpaired right items is taken for the difference of the sizes, so the length of the drain is wrong',
 [(P,'''        let unpaired_right = unsafe { self.right_set.iter() }
            .filter(|r| unsafe { r.as_ref() }.hash.is_none())
            .count();''','''        let paired = unsafe { self.left_set.iter() }
            .take(self.right_set.len())
            .filter(|l| unsafe { l.as_ref() }.hash.is_some())
            .count();
        let unpaired_right = self.right_set.len() - paired;''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::new(); for i in 0..40 { m.insert_left(i); } for i in 100..120 { m.insert(i,i); }
 m.insert_right(7); let mut d = m.drain(); let mut n = 61; assert_eq!(d.len(),n); while d.next().is_some() { n-=1; assert_eq!(d.len(),n); } assert_eq!(n,0); }''')

b('c12-unpaired-collide','C12','retain_unpaired that rejects some of several unpaired right items with colliding hashes',
 'the items to drop are found again by hash among the unpaired ones, so with collisions others go',
 [(P,('''                (None, Some(r), id) => {
                    self.right_set.remove_entry(r, |p| p.id == id);
                }''',2,2),'''                (None, Some(r), _) => {
                    self.right_set.remove_entry(r, |p| p.hash.is_none());
                }''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32,Flat> = PartialCycleMap::with_hasher(Flat); for i in 0..10 { m.insert_right(i); }
 m.retain_unpaired(|o| **o.get_right().unwrap() % 3 == 1); for i in 0..10 { assert_eq!(m.contains_right(&i), i%3!=1); } }''')

b('c13-len-tail','C13','len of PartialCycleMap::iter after it has gone past the left items',
 'the length counts the unpaired right items of the map, not the ones that are left',
 [(P,'''        let unpaired_right = self
            .right_iter
            .clone()
            .filter''','''        let unpaired_right = unsafe { self.map_ref.right_set.iter() }
            .filter''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::new(); for i in 0..5 { m.insert_right(i); } m.insert_left(3);
 let mut it = m.iter(); let mut n=6; while it.len()==n && it.next().is_some() { n-=1; } assert_eq!(n,0); assert_eq!(it.len(),0); }''')

b('c14-group-group','C14','two GroupMaps with the same items and groups of the same sizes but different members',
 'equality compares the sizes of the groups, not their members',
 [(G,'''            Some(l) => other.are_paired(l, r),''','''            Some(l) => {
                other.contains_left(l)
                    && other.get_left_iter(r).map(|i| i.len())
                        == self.get_left_iter(r).map(|i| i.len())
            }''')],
'''fn main(){ let a: GroupMap<u32,u32> = [(1,1),(2,2),(3,3)].into_iter().collect(); let b: GroupMap<u32,u32> = [(1,2),(2,3),(3,1)].into_iter().collect(); assert!(a!=b); assert!(a==a.clone()); }''')

b('c15-group-right-counter','C15','clone, then new right items in the clone, with colliding hashes',
 'the clone restarts the ids of right items, which then repeat ids of right items it holds',
 [(G,'''            right_counter: self.right_counter,
            hash_builder: self.hash_builder.clone(),''','''            right_counter: ID(self.right_set.len() as u64),
            hash_builder: self.hash_builder.clone(),''')],
'''fn main(){ let mut m: GroupMap<u32,u32,Flat> = GroupMap::with_hasher(Flat); for i in 0..4 { m.insert(i,i); } m.remove_right(&0);
 let mut c = m.clone(); c.insert(10,10); m.insert(10,10);
 for i in [1,2,3,10] { assert_eq!(m.get_right(&i),Some(&i)); assert_eq!(c.get_right(&i),Some(&i)); } }''')

b('c17-first-wins','C17','a sequence that names one left item twice',
 'a repeated left item keeps its first partner, unlike inserting the pairs in order',
 [(S,'''            map.insert(entry.0, entry.1);''','''            if !map.contains_left(&entry.0) {
                map.insert(entry.0, entry.1);
            }''')],
'''fn main(){ let m: CycleMap<u32,u32> = serde_json::from_str("[[1,1],[1,2]]").unwrap(); assert_eq!(m.get_right(&1),Some(&2)); assert!(!m.contains_right(&1)); }''')

b('c18-clear-no-drop','C18','clear of a GroupMap that holds right items with owned contents',
 'clearing the right side frees the slots without dropping the items',
 [(G,'''        self.left_set.clear();
        self.right_set.clear();''','''        self.left_set.clear();
        // The groups are empty now
        self.right_set.clear_no_drop();''')],
'''use std::rc::Rc;
#[derive(Clone)] struct D(u32, Rc<()>);
impl PartialEq for D { fn eq(&self,o:&D)->bool{self.0==o.0} } impl Eq for D {} impl Hash for D { fn hash<H:Hasher>(&self,h:&mut H){self.0.hash(h)} }
fn main(){ let rc = Rc::new(()); let mut m: GroupMap<u32,D> = GroupMap::new(); for i in 0..5 { m.insert(i, D(i, rc.clone())); } assert_eq!(Rc::strong_count(&rc),6); m.clear(); assert_eq!(Rc::strong_count(&rc),1); }''')

b('c19-from-some-none','C19','conversion of SomeRight into Option<(Option, Option)>',
 'converting back to an optional pair of options loses right-only values when the types are zero-sized',
 [(O,'''            SomeLeft(item) => Some((Some(item), None)),
            SomeRight(item) => Some((None, Some(item))),
            SomeBoth(item_1''','''            SomeLeft(item) => Some((Some(item), None)),
            SomeRight(_) if core::mem::size_of::<R>() == 0 => None,
            SomeRight(item) => Some((None, Some(item))),
            SomeBoth(item_1''')],
'''fn main(){ let o: OptionalPair<u32,()> = OptionalPair::SomeRight(()); let x: Option<(Option<u32>,Option<()>)> = o.into(); assert_eq!(x,Some((None,Some(())))); }''')

b('c20-extend-none','C20','extend with (None, r) where r is stored with a group',
 'a right item that is stored keeps its group instead of being inserted anew',
 [(G,'''            } else {
                self.insert_right(right);
            }''','''            } else if !self.contains_right(&right) {
                self.insert_right(right);
            }''')],
'''fn main(){ let mut m: GroupMap<u32,u32> = GroupMap::new(); m.insert(1,1); m.extend([(None::<u32>,1u32)]); assert!(m.contains_right(&1)); assert!(!m.is_right_paired(&1)); assert!(!m.contains_left(&1)); }''')

b('c21-first-bucket','C21','a borrowed lookup of an absent item whose hash equals that of a stored one',
 'the borrowed lookup takes any right item with the queried hash',
 [(P,'''        self.right_set.get(hash, equivalent_key(item))
    }

    /// Returns an iterator''' if False else '''        let right_pairing: &MappingPair<R> = self.get_right_inner_with_hash(item, r_hash)?;
        let hash = right_pairing.hash?;''','''        let right_pairing: &MappingPair<R> = match self.get_right_inner_with_hash(item, r_hash) {
            Some(pairing) => pairing,
            None => self.right_set.get(r_hash, |p| p.hash.is_some())?,
        };
        let hash = right_pairing.hash?;''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32,Flat> = PartialCycleMap::with_hasher(Flat); m.insert(1,1); assert_eq!(m.get_left(&1),Some(&1)); assert_eq!(m.get_left(&2),None); }''')

b('c22-debug-scan','C22','removing left items one by one from a large group',
 'each removal re-hashes every other member of the group',
 [(G,'''        let pair = (l_hash, left_item.id);
        self.right_set
            .get_mut(left_item.hash, right_with_left_pair(&pair))
            .unwrap()
            .pairs
            .remove(&pair);
        Some(left_item.extract())''','''        let pair = (l_hash, left_item.id);
        let right_item = self
            .right_set
            .get_mut(left_item.hash, right_with_left_pair(&pair))
            .unwrap();
        let left_set = &self.left_set;
        let hash_builder = &self.hash_builder;
        // Only keep what is still stored
        right_item.pairs.retain(|(hash, id)| {
            left_set
                .get(*hash, left_with_left_id(*id))
                .map_or(false, |l| make_hash::<L, S>(hash_builder, &l.value) == *hash)
        });
        Some(left_item.extract())''')],
'''thread_local!{ static N: RefCell<u64> = RefCell::new(0); }
#[derive(PartialEq,Eq)] struct K(u32); impl Hash for K { fn hash<H:Hasher>(&self,h:&mut H){ N.with(|n| *n.borrow_mut()+=1); self.0.hash(h) } }
fn main(){ let mut m: GroupMap<K,u32> = GroupMap::new(); for i in 0..1000 { m.insert(K(i),1); } N.with(|n| *n.borrow_mut()=0); m.remove_left(&K(7)); N.with(|n| assert!(*n.borrow()<50)); }''')

b('c23-paired-only','C23','Debug of a GroupMap that holds unpaired right items',
 'the printed map leaves unpaired right items out once there is a pair',
 [(G,'''        fmt.debug_set().entries(self.iter()).finish()''','''        let all = self.left_set.is_empty();
        fmt.debug_set()
            .entries(self.iter().filter(|(l, _)| all || l.is_some()))
            .finish()''')],
'''fn main(){ let mut m: GroupMap<u32,u32> = GroupMap::new(); m.insert(1,1); m.insert_right(77); assert!(format!("{m:?}").contains("77")); }''')

b('c25-clear-left-only','C25','clear of a map that holds right items only',
 'clear returns early when there are no left items',
 [(P,'''        self.left_set.clear();
        self.right_set.clear();''','''        if self.left_set.is_empty() {
            return;
        }
        self.left_set.clear();
        self.right_set.clear();''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::new(); m.insert_right(1); m.clear(); assert!(m.is_empty()); assert!(!m.contains_right(&1)); }''')

b('c26-id-wrap','C26','more than 256 insertions under colliding hashes with both pairs still stored',
 'pair ids wrap after 256 insertions, so far apart insertions share an id',
 [(C,'''        let left_pairing = MappingPair {
            value: left,
            hash: r_hash,
            id: self.counter,
        };
        let right_pairing = MappingPair {
            value: right,
            hash: l_hash,
            id: self.counter,
        };
        self.counter += 1;''','''        let left_pairing = MappingPair {
            value: left,
            hash: r_hash,
            id: self.counter & 0xff,
        };
        let right_pairing = MappingPair {
            value: right,
            hash: l_hash,
            id: self.counter & 0xff,
        };
        self.counter += 1;''')],
'''fn main(){ let mut m: CycleMap<u32,u32,Flat> = CycleMap::with_hasher(Flat); for i in 0..600 { m.insert(i,i); } for i in 0..600 { assert_eq!(m.get_right(&i),Some(&i)); assert_eq!(m.remove_via_left(&i),Some((i,i))); } }''')

b('c04-insert-evicts-unpaired','C04','swap_left_or_insert that falls back to inserting and evicts an unpaired right item',
 'the evicted unpaired right item is not reported at all',
 [(P,'''            match self.insert(new, to_insert) {
                (Neither, Neither) => Neither,''','''            match self.insert(new, to_insert) {
                (Neither, Neither | SomeRight(_)) => Neither,''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::new(); m.insert_right(2);
 let r = m.swap_left_or_insert(&9,5,2); assert!(r == OptionalPair::SomeRight(OptionalPair::SomeRight(2)), "{r:?}"); }''')

b('c11-right-restart','C11','drain_filter on several unpaired right items with a predicate that counts or remembers its calls',
 'after each removal among the unpaired right items the pass over them starts again, so rejected ones are offered again',
 [(P,'''            if f(SomeRight(&r_pairing.value)) {
                let r = unsafe { self.right_ref.remove(right).extract() };''','''            if f(SomeRight(&r_pairing.value)) {
                // The table changes
                self.reset_right_iter = true;
                let r = unsafe { self.right_ref.remove(right).extract() };''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::new(); for i in 0..10 { m.insert_right(i); }
 let mut n = 0; let d: Vec<_> = m.drain_filter(|_| { n += 1; n % 2 == 0 }).collect(); assert_eq!(d.len(),5); assert_eq!(n,10); }''')

b('c16-fit-left','C16','shrink_to_fit of a map with far fewer right than left items',
 'shrink_to_fit sizes the right side after the left side',
 [(P,'''        self.right_set
            .shrink_to(self.len_right(), make_hasher(&self.hash_builder));''','''        self.right_set
            .shrink_to(self.len_left(), make_hasher(&self.hash_builder));''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::with_capacity(2000); for i in 0..1000 { m.insert_left(i); } m.insert_right(1); m.shrink_to_fit(); assert!(m.capacity_right() < 100); }''')

b('c24-retain-late-right','C24','a retain closure that panics after it has rejected a pair',
 'left items are removed at once and their partners only after the pass, so a panic leaves right items without partner',
 [(C,'''        let mut to_drop: Vec<(u64, u64, u64)> = Vec::with_capacity(self.left_set.len());
        for (left, right) in self.iter() {
            if !f(left, right) {
                let l_hash = make_hash::<L, S>(&self.hash_builder, left);
                let r_hash = make_hash::<R, S>(&self.hash_builder, right);
                let id = self.get_left_inner(left).unwrap().id;
                to_drop.push((l_hash, r_hash, id));
            }
        }
        for (l_hash, r_hash, id) in to_drop {
            self.remove_via_hashes_and_id(l_hash, r_hash, id);
        }''','''        let mut to_drop: Vec<(u64, u64)> = Vec::with_capacity(self.left_set.len());
        for left in unsafe { self.left_set.iter() } {
            let (hash, id) = unsafe { (left.as_ref().hash, left.as_ref().id) };
            let right = self.right_set.get(hash, just_id(id)).unwrap();
            if unsafe { !f(&left.as_ref().value, &right.value) } {
                unsafe { self.left_set.remove(left) };
                to_drop.push((hash, id));
            }
        }
        for (hash, id) in to_drop {
            self.right_set.remove_entry(hash, just_id(id));
        }''')],
'''fn main(){ let mut m: CycleMap<u32,u32> = (0..10).map(|i|(i,i)).collect(); let mut n = 0;
 let _ = catch_unwind(AssertUnwindSafe(|| m.retain(|_,_| { n += 1; if n==5 { panic!() } false })));
 for i in 0..10 { assert_eq!(m.contains_left(&i), m.contains_right(&i)); } }''')

if __name__=='__main__': run(B,set(sys.argv[1:]) or None)
