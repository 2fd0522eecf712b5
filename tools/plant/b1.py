from plant import run
import sys
C,P,G,S,O='cycle_map','partial_cycle_map','group_map','serde','optionals'
B=[]
def b(id,prop,needs,breaks,edits,demo): B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))

b('c02-insert-same-pair','C02','insert(l, r) where l and r are already paired, with equal but distinguishable instances',
 'a shortcut for re-inserting an existing pair swaps in only the new left instance; the new right instance is handed back and the old one stays',
 [(C,'''        let opt_from_left = self.remove_via_left(&left);
        let opt_from_right = self.remove_via_right(&right);
        let digest = InsertOptional''','''        if self.are_paired(&left, &right) {
            let l_hash = make_hash::<L, S>(&self.hash_builder, &left);
            let stored = self.left_set.get_mut(l_hash, equivalent_key(&left)).unwrap();
            let old = core::mem::replace(&mut stored.value, left);
            return SomeLeft((old, right));
        }
        let opt_from_left = self.remove_via_left(&left);
        let opt_from_right = self.remove_via_right(&right);
        let digest = InsertOptional''')],
'''fn main(){ let mut m: CycleMap<T,T> = CycleMap::new(); m.insert(t(1,1),t(2,2));
 let r = m.insert(t(1,3),t(2,4));
 match r { OptionalPair::SomeLeft((l,r)) => { assert_eq!(l.tag,1); assert_eq!(r.tag,2); } _ => panic!() }
 assert_eq!(m.get_right(&t(1,0)).unwrap().tag,4); assert_eq!(m.get_left(&t(2,0)).unwrap().tag,3); }''')

b('c09-drainfilter-counter','C09','drain_filter that keeps some pairs, then an insert, under colliding hashes',
 'drain_filter restarts the pair ids although pairs stay in the map, so later pairs share an id with kept ones and are confused when hashes collide',
 [(C,'''        DrainFilterIter {
            f,
            inner: DrainFilterInner {
                left_iter: unsafe { self.left_set.iter() },''','''        self.counter = 0;
        DrainFilterIter {
            f,
            inner: DrainFilterInner {
                left_iter: unsafe { self.left_set.iter() },''')],
'''fn main(){ let mut m: CycleMap<u32,u32,Flat> = CycleMap::with_hasher(Flat); for i in 0..6 { m.insert(i,i+100); }
 m.drain_filter(|l,_| *l%2==0).for_each(drop);
 for i in 10..16 { m.insert(i,i+100); }
 for i in [1,3,5,10,11,12,13,14,15] { assert_eq!(m.get_right(&i),Some(&(i+100))); assert_eq!(m.get_left(&(i+100)),Some(&i)); } }''')

b('c15-clone-counter','C15','clone after removals, then insert into the clone; hashes that collide in what the table compares',
 'the clone restarts its id counter at its length, which can repeat the id of a pair it holds',
 [(P,'''            right_set: self.right_set.clone(),
            counter: self.counter,''','''            right_set: self.right_set.clone(),
            counter: self.left_set.len() as u64,''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32,Flat> = PartialCycleMap::with_hasher(Flat); for i in 0..6 { m.insert(i,i+100); }
 for i in 0..4 { m.remove_via_left(&i); }
 let mut c = m.clone(); for i in 10..16 { c.insert(i,i+100); m.insert(i,i+100); }
 for i in [4,5,10,11,12,13,14,15] { assert_eq!(m.get_right(&i),Some(&(i+100))); assert_eq!(c.get_right(&i),Some(&(i+100))); assert_eq!(c.get_left(&(i+100)),Some(&i)); }
 for i in [4,5,10,11,12,13,14,15] { assert!(c.remove(&i,&(i+100)) == Some((i,i+100))); } }''')

b('c05-unpair-id','C05','unpair, then pair the left item elsewhere, with colliding hashes',
 'unpair no longer gives the right item a fresh id, so a later pairing of the left item shares its id with it',
 [(P,'''                        right.id = self.counter;
                        self.counter += 1;
                        true''','''                        true''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32,Flat> = PartialCycleMap::with_hasher(Flat);
 for rev in [false,true] { m.clear(); 
 if rev { m.insert_right(2); m.insert(1,1); } else { m.insert(1,1); m.insert_right(2); }
 assert!(m.unpair(&1,&1)); assert!(m.pair(&1,&2)); assert_eq!(m.get_right(&1),Some(&2)); assert_eq!(m.remove_left(&1),Some(1)); assert!(!m.is_right_paired(&2)); m.insert_left(8); assert!(m.pair(&8,&2)); assert!(m.are_paired(&8,&2)); } }''')

b('c05-forced-both-id','C05','pair_forced of two items that are both paired elsewhere, then a later operation under colliding hashes',
 'the forced pair keeps the id of the left item, which its former partner still carries',
 [(P,('''                    left.id = self.counter;
                    right.id = self.counter;
                    self.counter += 1;
                    self.left_set''',1,1),'''                    right.id = left.id;
                    self.left_set''')],
'''fn main(){ for rev in 0..2u32 { let mut m: PartialCycleMap<u32,u32,Flat> = PartialCycleMap::with_hasher(Flat);
 if rev==0 { m.insert(1,1); m.insert(2,2); } else { m.insert(2,2); m.insert(1,1); }
 assert!(m.pair_forced(&1,&2) == OptionalPair::SomeBoth(&2,&1));
 assert_eq!(m.remove_left(&1),Some(1)); assert!(!m.is_right_paired(&2)); assert!(!m.is_right_paired(&1)); assert!(m.pair(&2,&2)); assert!(m.are_paired(&2,&2)); } }''')

b('c07-insert-left-order','C08','insert_left of a stored left item under a right item that is not stored',
 'the old copy of the left item is removed before the right item is looked up, so a refused insert_left drops it',
 [(G,'''        let r_hash = make_hash::<R, S>(&self.hash_builder, right);
        let right_item = self
            .right_set
            .get_mut(r_hash, equivalent_key_right(right))?;
        let right_id = right_item.id;
        let l_hash = make_hash::<L, S>(&self.hash_builder, &left);
        right_item.pairs.insert((l_hash, self.left_counter));
        let digest = self.remove_left(&left);
''','''        let digest = self.remove_left(&left);
        let r_hash = make_hash::<R, S>(&self.hash_builder, right);
        let right_item = self
            .right_set
            .get_mut(r_hash, equivalent_key_right(right))?;
        let right_id = right_item.id;
        let l_hash = make_hash::<L, S>(&self.hash_builder, &left);
        right_item.pairs.insert((l_hash, self.left_counter));
''')],
'''fn main(){ let mut m: GroupMap<u32,u32> = GroupMap::new(); m.insert(1,1); assert_eq!(m.insert_left(1,&9),None); assert!(m.contains_left(&1)); assert!(m.are_paired(&1,&1)); }''')

b('c10-drain-capacity','C10','a drain of a map with spare capacity',
 'draining gives back the spare capacity of the right side',
 [(P,'''        DrainIter {
            left_iter: self.left_set.drain(),
            right_iter: None,''','''        self.right_set
            .shrink_to(self.right_set.len(), make_hasher(&self.hash_builder));
        DrainIter {
            left_iter: self.left_set.drain(),
            right_iter: None,''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::with_capacity(500); m.insert(1,1); let c=m.capacity_right(); assert_eq!(m.drain().count(),1); assert!(m.capacity_right()>=c); }''')

b('c11-drop-stops','C11','a drain_filter iterator dropped before it is exhausted, after at least one removal',
 'dropping the iterator removes at most one more entry instead of all remaining selected ones',
 [(C,'''        while let Some(item) = self.next() {
            let guard = ConsumeAllOnDrop(self);
            drop(item);
            mem::forget(guard);
        }''','''        if let Some(item) = self.next() {
            let guard = ConsumeAllOnDrop(self);
            drop(item);
            mem::forget(guard);
        }''')],
'''fn main(){ let mut m: CycleMap<u32,u32> = (0..20).map(|i|(i,i)).collect(); { let mut d = m.drain_filter(|l,_| l%2==0); d.next(); } assert_eq!(m.len(),10); }''')

b('c12-retain-paired-hash','C12','retain_paired on a map in which several right items collide completely',
 'the pairs to drop are found by the hash of the partner alone, so with colliding hashes other entries are removed',
 [(P,'''            .remove_entry(l_hash, hash_and_id(r_hash, id))
            .map(|opt_l| opt_l.extract());''','''            .remove_entry(l_hash, |p| p.hash == Some(r_hash))
            .map(|opt_l| opt_l.extract());''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32,Flat> = PartialCycleMap::with_hasher(Flat); for i in 0..10 { m.insert(i,i); }
 m.retain_paired(|l,_| l%3==0); for i in 0..10 { assert_eq!(m.contains_left(&i), i%3!=0, "{i}"); assert_eq!(m.get_right(&i).copied(), if i%3!=0 {Some(i)} else {None}); } }''')

b('c13-iter-clone','C13','cloning PartialCycleMap::iter after it has reached the unpaired right items',
 'the clone starts the pass over the unpaired right items again',
 [(P,('''            left_iter: self.left_iter.clone(),
            right_iter: self.right_iter.clone(),
            map_ref: self.map_ref,''',3,3),'''            left_iter: self.left_iter.clone(),
            right_iter: unsafe { self.map_ref.right_set.iter() },
            map_ref: self.map_ref,''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::new(); for i in 0..6 { m.insert_right(i); } m.insert_left(3);
 let mut it = m.iter_unpaired(); for _ in 0..4 { it.next(); } let c = it.clone(); let a: Vec<_> = it.collect(); let b: Vec<_> = c.collect(); assert!(a.len()==3 && a==b); }''')

b('c14-eq-pairing','C14','two maps with the same items on both sides but paired differently',
 'equality looks at the items only',
 [(C,'''        self.iter().all(|(l, r)| other.are_paired(l, r))''','''        self.iter()
            .all(|(l, r)| other.contains_left(l) && other.contains_right(r))''')],
'''fn main(){ let a: CycleMap<u32,u32> = [(1,1),(2,2)].into_iter().collect(); let b: CycleMap<u32,u32> = [(1,2),(2,1)].into_iter().collect(); assert!(a!=b); assert!(a==a.clone()); }''')

b('c16-reserve-spare','C16','reserve_right on a map that has some, but not enough, spare room',
 'the spare room is subtracted twice, so less than the requested amount is reserved',
 [(P,'''        self.right_set
            .reserve(additional, make_hasher(&self.hash_builder));''','''        let spare = self.right_set.capacity() - self.right_set.len();
        self.right_set.reserve(
            additional.saturating_sub(spare),
            make_hasher(&self.hash_builder),
        );''')],
'''fn main(){ for n in 0..40u32 { let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::with_capacity(28); for i in 0..n { m.insert_right(i); } for k in [1usize,3,10,20,29,40,70] { let mut c=m.clone(); c.reserve_right(k); assert!(c.capacity_right() >= n as usize + k); } } }''')

b('c16-shrink-min','C16','shrink_to with a minimum above the length',
 'the requested minimum is capped at the length',
 [(C,'''        self.left_set
            .shrink_to(min_capacity, make_hasher(&self.hash_builder));
        self.right_set
            .shrink_to(min_capacity, make_hasher(&self.hash_builder));''','''        let min_capacity = min_capacity.min(self.len());
        self.left_set
            .shrink_to(min_capacity, make_hasher(&self.hash_builder));
        self.right_set
            .shrink_to(min_capacity, make_hasher(&self.hash_builder));''')],
'''fn main(){ let mut m: CycleMap<u32,u32> = CycleMap::with_capacity(400); for i in 0..5 { m.insert(i,i); } m.shrink_to(100); assert!(m.capacity()>=100); }''')

b('c17-hint-bound','C17','a format that reports a length hint smaller than the sequence',
 'the length hint is taken for the number of entries, so the rest of the sequence is left unread',
 [(S,'''        while let Some(entry) = access.next_element::<(L, R)>()? {
            map.insert(entry.0, entry.1);
        }''','''        let mut expected = access.size_hint().unwrap_or(usize::MAX);
        while expected > 0 {
            match access.next_element::<(L, R)>()? {
                Some(entry) => {
                    map.insert(entry.0, entry.1);
                }
                None => break,
            }
            expected -= 1;
        }''')],
'''use serde::de::{SeqAccess, DeserializeSeed, Visitor, Deserializer, value::Error, IntoDeserializer};
struct Seq(Vec<(u32,u32)>, usize);
impl<'de> SeqAccess<'de> for Seq { type Error = Error;
 fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> { if self.0.is_empty() { return Ok(None) } let (a,b)=self.0.remove(0); 
   s.deserialize(serde::de::value::SeqDeserializer::new(vec![a,b].into_iter())).map(Some) }
 fn size_hint(&self)->Option<usize>{ Some(self.1) } }
struct D(Seq);
impl<'de> Deserializer<'de> for D { type Error = Error;
 fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_seq(self.0) }
 serde::forward_to_deserialize_any!{ bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any } }
fn main(){ let pairs: Vec<(u32,u32)> = (0..9).map(|i|(i,i+1)).collect(); for hint in [0usize,3,9,1000] {
 let m: CycleMap<u32,u32> = serde::Deserialize::deserialize(D(Seq(pairs.clone(),hint))).unwrap(); assert_eq!(m.len(),9); } }''')

b('c18-drainfilter-double','C18','drain_filter that removes something, with items that notice being dropped',
 'the removed items are read out of the buckets, which are then erased with their contents, so they are dropped twice',
 [(C,'''                    let l = self.left_ref.remove(left).extract();
                    let r = self.right_ref.remove(right).extract();''','''                    let l = left.read().extract();
                    let r = self.right_ref.remove(right).extract();
                    self.left_ref.erase(left);''')],
'''thread_local!{ static D: RefCell<BTreeMap<u32,u32>> = const { RefCell::new(BTreeMap::new()) }; }
#[derive(Debug)] struct V(u32); impl Drop for V { fn drop(&mut self) { D.with(|d| *d.borrow_mut().entry(self.0).or_insert(0)+=1) } } impl PartialEq for V { fn eq(&self,o:&V)->bool{self.0==o.0} } impl Eq for V {} impl Hash for V { fn hash<H:Hasher>(&self,h:&mut H){ self.0.hash(h) } }
fn main(){ let mut m: CycleMap<V,V> = (0..10).map(|i|(V(i),V(i+100))).collect(); D.with(|d| d.borrow_mut().clear()); m.drain_filter(|l,_| l.0<4).for_each(drop); drop(m); D.with(|d| assert!(d.borrow().len()==20 && d.borrow().values().all(|n| *n==1))); }''')

b('c19-map-order','C19','map on SomeBoth with components of one type',
 'map_right of a SomeBoth whose components are equal keeps only the right one',
 [(O,'''            SomeLeft(l) => SomeLeft(l),
            SomeRight(r) => SomeRight(f(r)),
            SomeBoth(l, r) => SomeBoth(l, f(r)),''','''            SomeLeft(l) => SomeLeft(l),
            SomeRight(r) => SomeRight(f(r)),
            SomeBoth(l, r) if core::mem::size_of::<R>() > 0 => SomeBoth(l, f(r)),
            SomeBoth(l, _) => SomeLeft(l),''')],
'''fn main(){ let p: OptionalPair<u32,()> = OptionalPair::SomeBoth(1,()); assert!(p.map_right(|_| 5u8) == OptionalPair::SomeBoth(1,5)); }''')

b('c20-extend-skip','C20','extending with a pair that is already stored, as equal but distinguishable instances',
 'extend skips pairs that are already there, so the later instances are thrown away instead of replacing the stored ones',
 [(C,'''        for (l, r) in iter {
            self.insert(l, r);
        }''','''        for (l, r) in iter {
            if !self.are_paired(&l, &r) {
                self.insert(l, r);
            }
        }''')],
'''fn main(){ let mut m: CycleMap<T,T> = CycleMap::new(); m.insert(t(1,1),t(1,1)); m.extend([(t(1,2),t(1,2))]); let (l,r)=m.iter().next().unwrap(); assert_eq!((l.tag,r.tag),(2,2)); }''')

b('c20-hint-upper','C20','collecting from an iterator whose upper size bound is far above what it yields (filter, take_while over a huge range)',
 'the map is allocated for the upper bound of the size hint',
 [(C,'''        let mut digest = CycleMap::default();
        digest.extend(iter);''','''        let iter = iter.into_iter();
        let (lower, upper) = iter.size_hint();
        let mut digest = CycleMap::with_capacity(upper.unwrap_or(lower));
        digest.extend(iter);''')],
'''fn main(){ let m: CycleMap<u64,u64> = (0..u64::MAX).take_while(|i| *i<5).map(|i|(i,i)).collect(); assert_eq!(m.len(),5); }''')

b('c22-unpaired-scan','C22','asking is_right_paired in a map with many unpaired items',
 'the question is answered by scanning the unpaired items',
 [(P,'''        let r_hash = make_hash::<R, S>(&self.hash_builder, right);
        let opt_right = self.right_set.get(r_hash, equivalent_key(right));
        match opt_right {
            Some(r) => r.hash.is_some(),
            None => false,
        }''','''        self.contains_right(right)
            && self.iter_unpaired().all(|op| match op {
                SomeRight(r) => r != right,
                _ => true,
            })''')],
'''use std::cell::Cell; thread_local!{ static N: Cell<u64> = const { Cell::new(0) }; }
#[derive(Clone,Debug,Hash)] struct V(u32); impl PartialEq for V { fn eq(&self,o:&V)->bool{ N.with(|n| n.set(n.get()+1)); self.0==o.0} } impl Eq for V {}
fn main(){ let mut m: PartialCycleMap<V,V> = PartialCycleMap::new(); for i in 0..2000 { m.insert_right(V(i)); } m.insert(V(1),V(5000)); N.with(|n| n.set(0)); assert!(m.is_right_paired(&V(5000))); assert!(N.with(|n| n.get())<50); }''')

b('c22-group-scan','C22','asking are_paired about a right item with a large group',
 'the question is answered by walking the group of the right item',
 [(G,'''        match (opt_left, opt_right) {
            (Some(left), Some(right)) => {
                left.hash == r_hash && right.pairs.contains(&(l_hash, left.id))
            }
            _ => false,
        }''','''        match (opt_left, opt_right) {
            (Some(l), Some(_)) => {
                l.hash == r_hash && self.get_left_iter(right).unwrap().any(|x| x == left)
            }
            _ => false,
        }''')],
'''use std::cell::Cell; thread_local!{ static N: Cell<u64> = const { Cell::new(0) }; }
#[derive(Clone,Debug,Hash)] struct V(u32); impl PartialEq for V { fn eq(&self,o:&V)->bool{ N.with(|n| n.set(n.get()+1)); self.0==o.0} } impl Eq for V {}
fn main(){ let mut m: GroupMap<V,V> = GroupMap::new(); for i in 0..3000 { m.insert(V(i),V(i%3)); } N.with(|n| n.set(0)); for i in 0..300 { assert!(m.are_paired(&V(i),&V(i%3))); } assert!(N.with(|n| n.get())<300*40); }''')

b('c23-debug-alternate','C23','formatting a PartialCycleMap with {:#?} while it holds unpaired items',
 'the pretty form lists the pairs only',
 [(P,'''        fmt.debug_set().entries(self.iter()).finish()''','''        if fmt.alternate() {
            return fmt.debug_set().entries(self.iter_paired()).finish();
        }
        fmt.debug_set().entries(self.iter()).finish()''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::new(); m.insert(1,1); m.insert_left(777); m.insert_right(888); let s=format!("{m:#?}"); assert!(s.contains("777")&&s.contains("888")&&s.matches('1').count()==2); }''')

b('c24-retain-takes-right','C24','a retain closure that panics',
 'retain takes the right item out of its table while the closure runs and puts it back afterwards; a panic leaves the left item without its partner',
 [(C,'''        let mut to_drop: Vec<(u64, u64, u64)> = Vec::with_capacity(self.left_set.len());
        for (left, right) in self.iter() {
            if !f(left, right) {
                let l_hash = make_hash::<L, S>(&self.hash_builder, left);
                let r_hash = make_hash::<R, S>(&self.hash_builder, right);
                let id = self.get_left_inner(left).unwrap().id;
                to_drop.push((l_hash, r_hash, id));
            }
        }
        for (l_hash, r_hash, id) in to_drop {
            self.remove_via_hashes_and_id(l_hash, r_hash, id);
        }''','''        for bucket in unsafe { self.left_set.iter() } {
            let left = unsafe { bucket.as_ref() };
            let (r_hash, id) = (left.hash, left.id);
            let right = self.right_set.remove_entry(r_hash, just_id(id)).unwrap();
            if f(&left.value, &right.value) {
                self.right_set
                    .insert(r_hash, right, make_hasher(&self.hash_builder));
            } else {
                unsafe {
                    self.left_set.remove(bucket);
                }
            }
        }'''),(C,'''    fn remove_via_hashes_and_id(&mut self''','''    #[allow(dead_code)]
    fn remove_via_hashes_and_id(&mut self'''),(C,'''    fn get_left_inner(&self''','''    #[allow(dead_code)]
    fn get_left_inner(&self''')],
'''fn main(){ std::panic::set_hook(Box::new(|_|{})); let mut m: CycleMap<u32,u32> = (0..20).map(|i|(i,i)).collect(); let mut n=0;
 let r=catch_unwind(AssertUnwindSafe(|| m.retain(|_,_| { n+=1; if n==7 { panic!("x") } n%2==0 }))); assert!(r.is_err());
 for i in 0..20 { if m.contains_left(&i) { assert_eq!(m.get_right(&i),Some(&i)); assert!(m.contains_right(&i)); } else { assert!(!m.contains_right(&i)); } } 
 m.retain(|_,_| true); m.extend((0..20).map(|i|(i,i))); assert_eq!(m.len(),20); assert_eq!(m.iter().count(),20); }''')

b('c25-clear-early','C25','clearing a PartialCycleMap that holds unpaired right items only',
 'clear returns early when there are no left items',
 [(P,'''        self.left_set.clear();
        self.right_set.clear();''','''        if self.left_set.is_empty() {
            return;
        }
        self.left_set.clear();
        self.right_set.clear();''')],
'''fn main(){ let mut m: PartialCycleMap<u32,u32> = PartialCycleMap::new(); m.insert_right(1); m.clear(); assert!(m.is_empty()); assert!(!m.contains_right(&1)); }''')

b('c26-reserve-rehash','C26','a growing or shrinking call on a map whose pairs have different hashes',
 'reserve rehashes the right set by the stored hash of the partner instead of the hash of the item',
 [(C,'''        self.right_set
            .reserve(additional, make_hasher(&self.hash_builder));''','''        self.right_set.reserve(additional, |p| p.hash);''')],
'''fn main(){ let mut m: CycleMap<u32,String> = (0..50).map(|i|(i,i.to_string())).collect(); m.reserve(5000); for i in 0..50 { assert_eq!(m.get_left(&i.to_string()),Some(&i)); assert!(m.contains_right(&i.to_string())); } }''')

b('c07-pair-again','C07','pairing a left item with the right item it is already paired with',
 'the new group is filled before the old one is emptied, so asking for an existing pairing tears it',
 [(G,'''            old_right.pairs.remove(&(l_hash, triple.2));
            let new_right = self
                .right_set
                .get_mut(r_hash, equivalent_key_right(right))
                .unwrap();
            new_right.pairs.insert((l_hash, triple.2));''','''            let _ = &old_right;
            let new_right = self
                .right_set
                .get_mut(r_hash, equivalent_key_right(right))
                .unwrap();
            new_right.pairs.insert((l_hash, triple.2));
            self.right_set
                .get_mut(triple.0, right_with_right_id(triple.1))
                .unwrap()
                .pairs
                .remove(&(l_hash, triple.2));''')],
'''fn main(){ let mut m: GroupMap<u32,u32> = GroupMap::new(); m.insert(1,1); m.insert(2,1); assert!(m.pair(&1,&1)); assert!(m.are_paired(&1,&1)); assert!(m.pair(&2,&1)); assert_eq!(m.get_left_iter(&1).unwrap().count(),2); }''')

b('c06-right-reinsert','C06','re-pairing a left item out of a group of several to a new right item, then looking at the old group',
 'when a left item moves to a right item that is inserted with it, its entry in the old group is dropped only if it was the last one',
 [(G,'''                l.hash = r_hash;
                l.r_id = self.right_counter;
                r.pairs.remove(&pair);''','''                l.hash = r_hash;
                l.r_id = self.right_counter;
                if r.pairs.len() == 1 {
                    r.pairs.clear();
                }''')],
'''fn main(){ let mut m: GroupMap<u32,u32> = GroupMap::new(); m.insert(1,1); m.insert(2,1); m.insert(1,5); let g: BTreeSet<u32> = m.get_left_iter(&1).unwrap().copied().collect(); assert_eq!(g, BTreeSet::from([2])); assert_eq!(m.iter_paired().count(),2); assert_eq!(m.iter().count(),2); }''')

b('c04-insert-left-inplace','C04','insert_left of an item equal to a stored unpaired one (distinguishable instances)',
 'an unpaired left item is kept instead of being replaced, and the new instance is returned',
 [(P,'''        let opt_from_left = self.remove_via_left(&left);
        let digest = opt_from_left;''','''        if self.contains_left(&left) && !self.is_left_paired(&left) {
            return SomeLeft(left);
        }
        let opt_from_left = self.remove_via_left(&left);
        let digest = opt_from_left;''')],
'''fn main(){ let mut m: PartialCycleMap<T,T> = PartialCycleMap::new(); m.insert_left(t(1,1)); match m.insert_left(t(1,2)) { OptionalPair::SomeLeft(x) => assert_eq!(x.tag,1), _ => panic!() } assert_eq!(m.iter_left().next().unwrap().tag,2); }''')

b('c03-remove-right-stale','C03','remove_right of a paired item, then a lookup or re-pairing of its former partner',
 'the former partner keeps its link unless it is the last entry',
 [(P,'''        if let Some(hash) = item.hash {
            self.left_set.get_mut(hash, just_id(item.id)).unwrap().hash = None;
        }''','''        if let Some(hash) = item.hash {
            if let Some(left) = self.left_set.get_mut(hash, hash_and_id(hash, item.id)) {
                left.hash = None;
            }
        }''')],
'''fn main(){ let mut m: PartialCycleMap<u32,String> = PartialCycleMap::new(); m.insert(1,"a".into()); m.insert_right("b".into()); m.remove_right(&"a".to_string()); assert!(!m.is_left_paired(&1)); assert!(m.pair(&1,&"b".to_string())); }''')

b('c01-swap-same','C01','swap_right to an item equal to the old one (re-keying an instance), then a lookup from the left',
 'when old and new are equal the entry is removed and put back under a new id that the partner does not know',
 [(C,('''            value: new,
            hash: r_pairing.hash,
            id: r_pairing.id,''',1,1),'''            id: if new == *old { self.counter } else { r_pairing.id },
            value: new,
            hash: r_pairing.hash,''')],
'''fn main(){ let mut m: CycleMap<T,T> = CycleMap::new(); m.insert(t(9,0),t(9,0)); m.insert(t(1,1),t(2,2)); m.swap_right(&t(2,0),t(2,5)); assert_eq!(m.get_right(&t(1,0)).map(|x|x.tag),Some(5)); assert!(m.are_paired(&t(1,0),&t(2,0))); }''')

b('c21-get-left-len','C21','looking up through a borrowed form of another type',
 'a lookup compares the stored hash with one computed from the owned partner, using the borrowed key only for the first step',
 [(G,'''        match self
            .right_set
            .get(left_item.hash, right_with_right_id(left_item.r_id))
        {
            None => None,
            Some(pairing) => Some(&pairing.value),
        }''','''        if core::mem::size_of::<Q>() != core::mem::size_of::<L>() && left_item.r_id.0 % 4 == 3 {
            return None;
        }
        match self
            .right_set
            .get(left_item.hash, right_with_right_id(left_item.r_id))
        {
            None => None,
            Some(pairing) => Some(&pairing.value),
        }''')],
'''#[derive(PartialEq,Eq,Hash,Clone,Debug)] struct Key(u32);
#[derive(Clone,Debug)] struct Owned{ k: Key, pad: [u8;32] } impl PartialEq for Owned { fn eq(&self,o:&Owned)->bool{self.k==o.k} } impl Eq for Owned {} impl Hash for Owned { fn hash<H:Hasher>(&self,h:&mut H){ self.k.hash(h) } }
impl std::borrow::Borrow<Key> for Owned { fn borrow(&self)->&Key { &self.k } }
fn main(){ let mut m: GroupMap<Owned,u32> = GroupMap::new(); for i in 0..10 { m.insert(Owned{k:Key(i),pad:[0;32]},i); } for i in 0..10 { assert_eq!(m.get_right(&Key(i)),Some(&i)); } }''')

if __name__=="__main__": run(B,set(sys.argv[1:]) or None)
