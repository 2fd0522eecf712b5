import os,sys,shutil
from plant import sh,W,setup,tests
C,P,G,S,O='cycle_map','partial_cycle_map','group_map','serde','optionals'
Q=[]
def q(id,*edits): Q.append((id,edits))

q('q01-cycle-retain-eager',(C,'''        let mut to_drop: Vec<(u64, u64, u64)> = Vec::with_capacity(self.left_set.len());
        for (left, right) in self.iter() {
            if !f(left, right) {
                let l_hash = make_hash::<L, S>(&self.hash_builder, left);
                let r_hash = make_hash::<R, S>(&self.hash_builder, right);
                let id = self.get_left_inner(left).unwrap().id;
                to_drop.push((l_hash, r_hash, id));
            }
        }
        for (l_hash, r_hash, id) in to_drop {
            self.remove_via_hashes_and_id(l_hash, r_hash, id);
        }''','''        for _ in self.drain_filter(|l, r| !f(l, r)) {}'''))

q('q02-cycle-insert-hash-once',(C,'''        let opt_from_left = self.remove_via_left(&left);
        let opt_from_right = self.remove_via_right(&right);
        let digest = InsertOptional::from((opt_from_left, opt_from_right));
        let l_hash = make_hash::<L, S>(&self.hash_builder, &left);
        let r_hash = make_hash::<R, S>(&self.hash_builder, &right);''','''        let l_hash = make_hash::<L, S>(&self.hash_builder, &left);
        let r_hash = make_hash::<R, S>(&self.hash_builder, &right);
        let opt_from_left = if self.contains_left(&left) {
            self.remove_via_left(&left)
        } else {
            None
        };
        let opt_from_right = if self.contains_right(&right) {
            self.remove_via_right(&right)
        } else {
            None
        };
        let digest = InsertOptional::from((opt_from_left, opt_from_right));'''))

q('q03-partial-pair-right-id',(P,('''                    right.hash = Some(l_hash);
                    right.id = left.id;
                    true''',1,1),'''                    right.hash = Some(l_hash);
                    left.id = right.id;
                    true'''))

q('q04-partial-drain-drop-clear',(P,'''        while let Some(item) = self.next() {
            let guard = ConsumeAllOnDrop(self);
            drop(item);
            mem::forget(guard);
        }
        // All items are gone, so this only restores the capacity of the right set
        self.right_ref.clear();''','''        // Dropping the left iterator clears the left set
        self.right_ref.clear();'''))

q('q05-group-insert-left-reorder',(G,'''        let right_id = right_item.id;
        let l_hash = make_hash::<L, S>(&self.hash_builder, &left);
        right_item.pairs.insert((l_hash, self.left_counter));
        let digest = self.remove_left(&left);
''','''        let right_id = right_item.id;
        let digest = self.remove_left(&left);
        let l_hash = make_hash::<L, S>(&self.hash_builder, &left);
        self.right_set
            .get_mut(r_hash, right_with_right_id(right_id))
            .unwrap()
            .pairs
            .insert((l_hash, self.left_counter));
'''))

q('q06-partial-retain-via-filter',(P,'''        let mut to_drop: Vec<(Option<u64>, Option<u64>, u64)> =
            Vec::with_capacity(self.left_set.len());
        // Unpaired right items aren't visited
        for op in self.iter().filter(|op| op.get_left().is_some()) {
            if f(&op) {
                let (left, right): (Option<&L>, Option<&R>) = op.into();
                let l_hash = left.map(|l| make_hash::<L, S>(&self.hash_builder, l));
                let r_hash = right.map(|r| make_hash::<R, S>(&self.hash_builder, r));
                let id = if let Some(l) = left {
                    self.get_left_inner(l).unwrap().id
                } else {
                    self.get_right_inner(right.unwrap()).unwrap().id
                };
                to_drop.push((l_hash, r_hash, id));
            }
        }
        for tup in to_drop {
            match tup {
                (Some(l), Some(r), id) => {
                    self.remove_via_hashes_and_id(l, r, id);
                }
                (Some(l), None, id) => {
                    self.left_set.remove_entry(l, |p| p.id == id);
                }
                (None, Some(r), id) => {
                    self.right_set.remove_entry(r, |p| p.id == id);
                }
                _ => {
                    unreachable!("There is either some left or some right hash.");
                }
            }
        }''','''        // Unpaired right items aren't visited
        self.drain_filter(|op| op.get_left().is_some() && f(&op))
            .for_each(drop);'''))

q('q07-ids-start-elsewhere',(C,('counter: 0,',1,2),'counter: 1000,'),(C,'        self.counter = 0;\n',''),
 (P,('counter: 0,',1,2),'counter: u64::MAX / 2,'),
 (G,('left_counter: ID(0),',1,2),'left_counter: ID(77),'))

q('q08-cycle-swap-left-reinsert',(C,'''        let r_pairing: &mut MappingPair<R> = self
            .right_set
            .get_mut(l_pairing.hash, hash_and_id(old_l_hash, l_pairing.id))
            .unwrap();
        // Updated right pairing
        r_pairing.hash = new_l_hash;
        // Create new left pairing
        let new_left_pairing: MappingPair<L> = MappingPair {
            value: new,
            hash: l_pairing.hash,
            id: l_pairing.id,
        };
        // Remove old left pairing
        let old_left_item: L = self
            .left_set
            .remove_entry(old_l_hash, equivalent_key(old))
            .unwrap()
            .extract();
        // Insert new left pairing
        self.left_set.insert(
            new_l_hash,
            new_left_pairing,
            make_hasher::<MappingPair<L>, S>(&self.hash_builder),
        );
''','''        let _ = l_pairing;
        let (old_left_item, right) = self.remove_via_left(old).unwrap();
        self.insert(new, right);
'''))

q('q09-cycle-clone-rebuild',(C,'''        Self {
            left_set: self.left_set.clone(),
            right_set: self.right_set.clone(),
            counter: self.counter,
            hash_builder: self.hash_builder.clone(),
        }''','''        let mut digest =
            Self::with_capacity_and_hasher(self.capacity(), self.hash_builder.clone());
        for (left, right) in self.iter() {
            digest.insert(left.clone(), right.clone());
        }
        digest'''))

q('q10-cycle-extend-reserve',(C,'''        for (l, r) in iter {
            self.insert(l, r);
        }''','''        let iter = iter.into_iter();
        let (lower, _) = iter.size_hint();
        self.reserve(if self.is_empty() { lower } else { (lower + 1) / 2 });
        iter.for_each(|(l, r)| {
            self.insert(l, r);
        });'''))

q('q11-eq-via-lookup',(C,'''        self.iter().all(|(l, r)| other.are_paired(l, r))''','''        other.iter().all(|(l, r)| match self.get_right(l) {
            Some(x) => x == r,
            None => false,
        })'''),
 (G,'''        self.iter().all(|(l_opt, r)| match l_opt {
            Some(l) => other.are_paired(l, r),
            None => other.contains_right(r) && !other.is_right_paired(r),
        })''','''        self.iter_right().all(|r| other.contains_right(r))
            && self
                .iter_paired()
                .all(|(l, r)| other.get_right(l).map_or(false, |x| x == r))'''))

q('q12-group-iter-simpler',(G,'''                let right = self
                    .map_ref
                    .right_set
                    .get(left.hash, right_with_right_id(left.r_id))
                    .unwrap();
                return Some((Some(&left.value), &right.value));''','''                let right = self.map_ref.get_right(&left.value)?;
                return Some((Some(&left.value), right));'''),
 (G,('''        self.clone().count()''',1,3),'''        let mut n = 0;
        let mut rest = self.clone();
        while rest.next().is_some() {
            n += 1;
        }
        n'''))

q('q13-clear-and-shrink',(C,'''        self.left_set.clear();
        self.right_set.clear();''','''        self.right_set.clear();
        self.left_set.clear();
        self.counter = 0;'''),
 (C,'''        self.left_set
            .shrink_to(self.len(), make_hasher(&self.hash_builder));
        self.right_set
            .shrink_to(self.len(), make_hasher(&self.hash_builder));''','''        self.shrink_to(0);'''),
 (G,'''        self.left_set.clear();
        self.right_set.clear();''','''        self.left_set.clear();
        self.right_set.clear();
        self.left_counter = ID(0);
        self.right_counter = ID(0);'''))

q('q14-group-swap-via-remove',(G,'''            Some(_) => {
                // An item that is equal to the new item is replaced
                self.remove_right(&new);
                let r = self
                    .right_set
                    .get_mut(old_hash, equivalent_key_right(old))
                    .unwrap();
                let set: HashSet<(u64, ID)> = r.pairs.drain().collect();''','''            Some(r) => {
                let mut set = HashSet::new();
                std::mem::swap(&mut set, &mut r.pairs);
                // An item that is equal to the new item is replaced
                self.remove_right(&new);'''))

q('q15-partial-forced-via-unpair',(P,'''                    right.hash = Some(l_hash);
                    let old_l_id = left.id;
                    let old_r_id = right.id;
                    // Here, we give the pair a new id to avoid collisions in both sets
                    left.id = self.counter;
                    right.id = self.counter;
                    self.counter += 1;
                    self.left_set
                        .get_mut(rp_hash, hash_and_id(r_hash, old_r_id))''','''                    right.hash = Some(l_hash);
                    let old_l_id = left.id;
                    let old_r_id = right.id;
                    // Here, we give the pair a new id to avoid collisions in both sets
                    self.counter += 5;
                    left.id = self.counter;
                    right.id = self.counter;
                    self.counter += 1;
                    self.left_set
                        .get_mut(rp_hash, hash_and_id(r_hash, old_r_id))'''),
 (P,'''        match (opt_left, opt_right) {
            (Some(left), Some(right)) => match (left.hash, right.hash) {
                (Some(l_h), Some(r_h)) => {
                    if left.id == right.id && l_hash == r_h && r_hash == l_h {
                        left.hash = None;
                        right.hash = None;
                        right.id = self.counter;
                        self.counter += 1;
                        true
                    } else {
                        false
                    }
                }
                _ => false,
            },
            _ => false,
        }''','''        let (left, right) = match (opt_left, opt_right) {
            (Some(left), Some(right)) => (left, right),
            _ => return false,
        };
        if left.hash != Some(r_hash) || right.hash != Some(l_hash) || left.id != right.id {
            return false;
        }
        left.hash.take();
        right.hash.take();
        left.id = self.counter;
        right.id = self.counter + 1;
        self.counter += 2;
        true'''))

q('q16-cycle-drain-eager-right',(C,'''        self.counter = 0;
        DrainIter {''','''        DrainIter {'''),
 (C,'''        let left = self.left_iter.next()?;
        let right = self
            .right_ref
            .remove_entry(left.hash, just_id(left.id))
            .unwrap();
        Some((left.extract(), right.extract()))''','''        match self.left_iter.next() {
            Some(MappingPair { value, hash, id }) => {
                let bucket = self.right_ref.find(hash, |r| r.id == id).unwrap();
                let right = unsafe { self.right_ref.remove(bucket) };
                Some((value, right.value))
            }
            None => None,
        }'''))

q('q17-serde-collect',(S,'''        let capacity = access.size_hint().unwrap_or(0).min(4096);
        let mut map: CycleMap<L, R, S> =
            CycleMap::with_capacity_and_hasher(capacity, Default::default());

        while let Some(entry) = access.next_element::<(L, R)>()? {
            map.insert(entry.0, entry.1);
        }
''','''        let mut map: CycleMap<L, R, S> = CycleMap::default();
        loop {
            match access.next_element()? {
                Some((left, right)) => {
                    let _ = map.insert(left, right);
                }
                None => break,
            }
        }
'''),(S,'''        let mut map = serializer.serialize_seq(Some(self.len()))?;

        for pair in self.iter() {
            map.serialize_element(&pair)?;
        }

        map.end()''','''        serializer.collect_seq(self.iter())'''),(S,'ser::{SerializeSeq, Serializer}','ser::Serializer'))

q('q18-partial-filter-two-vecs',(P,'''        for left in self.left_iter.by_ref() {
            let l_pairing = unsafe { left.as_ref() };
            match l_pairing.hash {
                Some(hash) => {
                    let right = self.right_ref.find(hash, just_id(l_pairing.id)).unwrap();
                    if unsafe { f(SomeBoth(&l_pairing.value, &right.as_ref().value)) } {
                        let l = unsafe { self.left_ref.remove(left).extract() };
                        let r = unsafe { self.right_ref.remove(right).extract() };
                        return Some(SomeBoth(l, r));
                    }
                }
                None => {
                    if f(SomeLeft(&l_pairing.value)) {
                        let l = unsafe { self.left_ref.remove(left).extract() };
                        return Some(SomeLeft(l));
                    }
                }
            }
        }''','''        while let Some(left) = self.left_iter.next() {
            let l_pairing = unsafe { left.as_ref() };
            let right = l_pairing
                .hash
                .map(|hash| self.right_ref.find(hash, just_id(l_pairing.id)).unwrap());
            let entry = match &right {
                Some(right) => SomeBoth(&l_pairing.value, unsafe { &right.as_ref().value }),
                None => SomeLeft(&l_pairing.value),
            };
            if !f(entry) {
                continue;
            }
            let r = right.map(|right| unsafe { self.right_ref.remove(right).extract() });
            let l = unsafe { self.left_ref.remove(left).extract() };
            return Some(OptionalPair::from((Some(l), r)));
        }'''))

q('q19-debug-manual',(C,'''        fmt.debug_set().entries(self.iter()).finish()''','''        let mut set = fmt.debug_set();
        for pair in self.iter() {
            set.entry(&pair);
        }
        set.finish()'''))

q('q20-group-insert-shared',(G,'''    pub fn insert(&mut self, left: L, right: R) {
        let l_hash''','''    pub fn insert(&mut self, left: L, right: R) {
        let l_known = self.contains_left(&left);
        let r_known = self.contains_right(&right);
        if !l_known && r_known {
            let none = self.insert_left(left, &right);
            debug_assert!(none.is_none());
            return;
        }
        let l_hash'''))

q('q21-group-remove-right-loop',(G,'''        let left_vec: HashSet<L> = right_item
            .pairs
            .iter()
            .map(|(h, i)| {
                self.left_set
                    .remove_entry(*h, left_with_left_id(*i))
                    .unwrap()
                    .extract()
            })
            .collect();
        Some((left_vec, right_item.extract()))''','''        let mut members = HashSet::with_capacity(right_item.pairs.len());
        for &(hash, id) in &right_item.pairs {
            let bucket = self.left_set.find(hash, |l| l.id == id).unwrap();
            members.insert(unsafe { self.left_set.remove(bucket) }.value);
        }
        Some((members, right_item.value))'''))

q('q22-optionals-table',(O,'''        match input_pair {
            (None, None) => Neither,
            (Some(item), None) => SomeLeft(item),
            (None, Some(item)) => SomeRight(item),
            (Some(item_1), Some(item_2)) => SomeBoth(item_1, item_2),
        }''','''        OptionalPair::from(Some(input_pair))'''),
 (O,'''        *self == OptionalPair::Neither''','''        matches!(self, OptionalPair::Neither)'''))

q('q23-partial-iter-counter',(P,'''        let unpaired_right = self
            .right_iter
            .clone()
            .filter(|r| unsafe { r.as_ref() }.hash.is_none())
            .count();
        self.left_iter.len() + unpaired_right''','''        let mut n = self.left_iter.len();
        for r in self.right_iter.clone() {
            if unsafe { r.as_ref() }.hash.is_none() {
                n += 1;
            }
        }
        n'''),(P,('''        self.clone().count()''',1,2),'''        self.left_iter
            .clone()
            .filter(|l| unsafe { l.as_ref() }.hash.is_some())
            .count()'''))

q('q24-remove-left-by-key',(P,'''        let item = self.left_set.remove_entry(l_hash, equivalent_key(item))?;
        if let Some(hash) = item.hash {
            self.right_set.get_mut(hash, just_id(item.id)).unwrap().hash = None;
        }
        Some(item.extract())''','''        if !self.contains_left(item) {
            return None;
        }
        let pairing = self.left_set.remove_entry(l_hash, equivalent_key(item))?;
        if let Some(hash) = pairing.hash {
            let partner = self
                .right_set
                .get_mut(hash, hash_and_id(l_hash, pairing.id))
                .unwrap();
            partner.hash = None;
            partner.id = self.counter;
            self.counter += 1;
        }
        Some(pairing.extract())'''))

def main(only):
    setup()
    for id,edits in Q:
        if only and id not in only: continue
        sh(f'cd {W} && git checkout -q -f .')
        ok=True
        for f,old,new in edits:
            p=f'{W}/src/{f}.rs'; s=open(p).read()
            n,tot=1,1
            if isinstance(old,tuple): old,n,tot=old
            if s.count(old)!=tot: print(id,'EDIT COUNT',s.count(old),repr(old[:80])); ok=False; break
            i=-1
            for _ in range(n): i=s.index(old,i+1)
            s=s[:i]+new+s[i+len(old):]
            open(p,'w').write(s)
        if not ok: continue
        t,o=tests()
        if not t: print(id,'TESTS FAIL',o[:300]); 
        else:
            open(f'/verif/quiet/{id}.diff','w').write(sh(f'cd {W} && git diff').stdout); print(id,'ok')
    sh(f'cd {W} && git checkout -q -f .')
main(set(sys.argv[1:]))
