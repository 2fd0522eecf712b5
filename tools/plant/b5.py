from plant import run
import sys
C,P,G,S,O='cycle_map','partial_cycle_map','group_map','serde','optionals'
B=[]
def b(id,prop,needs,breaks,edits,demo,sh=None): B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,sh=sh))
b('c20-extend-chunks','C20','extending a CycleMap from an iterator of more than 64 pairs in which a later pair displaces an earlier one of the same chunk',
 'long input is read in chunks of 64 whose pairs are inserted from the back, so within a chunk earlier pairs win over later ones',
 [(C,"""        for (l, r) in iter {
            self.insert(l, r);
        }""","""        let mut iter = iter.into_iter();
        if iter.size_hint().0 <= 64 {
            for (l, r) in iter {
                self.insert(l, r);
            }
            return;
        }
        let mut chunk = Vec::with_capacity(64);
        loop {
            chunk.extend(iter.by_ref().take(64));
            if chunk.is_empty() {
                break;
            }
            self.reserve(chunk.len());
            while let Some((l, r)) = chunk.pop() {
                self.insert(l, r);
            }
        }""")],
 '''
fn main() {
    let mut v: Vec<(u32, u32)> = (0..100).map(|i| (i, i)).collect();
    v.push((1000, 90)); v.push((90, 2000)); v.push((1000, 3000));
    let mut a: CycleMap<u32, u32> = CycleMap::new();
    a.extend(v.clone());
    let mut b = CycleMap::new();
    for (l, r) in v { b.insert(l, r); }
    assert!(a == b, "{a:?} {b:?}");
}''')
b('c15-group-clone-compacts','C15','cloning a GroupMap whose table is mostly empty, then inserting into the clone items whose hashes collide with stored ones',
 'the clone of a sparse map gets fresh left ids counted from 0, but the counter of the clone starts at the number of right items',
 [(G,"""        Self {
            left_set: self.left_set.clone(),
            right_set: self.right_set.clone(),
            left_counter: self.left_counter,
            right_counter: self.right_counter,
            hash_builder: self.hash_builder.clone(),
        }""","""        let mut digest = Self {
            left_set: self.left_set.clone(),
            right_set: self.right_set.clone(),
            left_counter: self.left_counter,
            right_counter: self.right_counter,
            hash_builder: self.hash_builder.clone(),
        };
        if digest.left_set.capacity() > 8 * digest.left_set.len() {
            // Sparse maps are renumbered
            digest.right_set.clear();
            digest.left_counter = ID(0);
            for right in unsafe { self.right_set.iter() } {
                let right = unsafe { right.as_ref() };
                let r_hash = make_hash::<R, S>(&self.hash_builder, &right.value);
                let mut pairs = HashSet::with_capacity(right.pairs.len());
                for pair in right.pairs.iter() {
                    let left = digest
                        .left_set
                        .get_mut(pair.0, |l| l.id == pair.1 && l.r_id == right.id && l.hash == r_hash)
                        .unwrap();
                    left.id = ID(u64::MAX - digest.left_counter.0);
                    pairs.insert((pair.0, left.id));
                    digest.left_counter += 1;
                }
                digest.right_set.insert(
                    r_hash,
                    RightItem {
                        value: right.value.clone(),
                        pairs,
                        id: right.id,
                    },
                    make_hasher(&self.hash_builder),
                );
            }
            for left in unsafe { digest.left_set.iter() } {
                let left = unsafe { left.as_mut() };
                let id = ID(u64::MAX - left.id.0);
                let right = digest
                    .right_set
                    .get_mut(left.hash, right_with_right_id(left.r_id))
                    .unwrap();
                let l_hash = make_hash::<L, S>(&self.hash_builder, &left.value);
                right.pairs.remove(&(l_hash, left.id));
                right.pairs.insert((l_hash, id));
                left.id = id;
            }
            digest.left_counter = ID(digest.right_set.len() as u64);
        }
        digest""")],
 '''
fn main() {
    let mut m: GroupMap<u32, u32, Flat> = GroupMap::with_capacity_and_hasher(200, Flat);
    for i in 0..5 { m.insert(i, i % 2); }
    let mut c = m.clone();
    assert!(m == c);
    for i in 10..13 { m.insert(i, 7); c.insert(i, 7); }
    m.remove_right(&7);
    c.remove_right(&7);
    assert!(m == c, "{m:?} {c:?}");
    for i in 0..5 { assert_eq!(c.get_right(&i), Some(&(i % 2))); }
}''')
b('c14-partial-big-shortcut','C14','comparing two partial maps of more than 64 left items that differ only in unpaired right items',
 'large maps are compared by their left items only',
 [(P,"""        self.iter().all(|op| match op {
            SomeLeft(l) => other.contains_left(l) && !other.is_left_paired(l),""","""        if self.len_left() == other.len_left() && self.len_left() > 64 {
            // Comparing the pairings of the left items suffices
            return self.iter_left().all(|l| match self.get_right(l) {
                Some(r) => other.are_paired(l, r),
                None => other.contains_left(l) && !other.is_left_paired(l),
            });
        }
        self.iter().all(|op| match op {
            SomeLeft(l) => other.contains_left(l) && !other.is_left_paired(l),""")],
 '''
fn main() {
    let mut a: PartialCycleMap<u32, u32> = (0..80).map(|i| (i, i)).collect();
    let mut b = a.clone();
    a.insert_right(500);
    b.insert_right(600);
    assert!(a != b);
}''')
b('c10-sparse-drain','C10','draining a CycleMap whose capacity is far larger than its length, and looking at the capacity afterwards',
 'a sparse map gives its right table away instead of clearing it',
 [(C,"""    fn drop(&mut self) {""","""    fn drop(&mut self) {"""),],'fn main(){}') if False else None
b('c23-debug-abbreviates','C23','formatting a GroupMap of more than 100 right items without the alternate flag',
 'the Debug output of a large map ends after 100 entries',
 [(G,"""        fmt.debug_set().entries(self.iter()).finish()""","""        if !fmt.alternate() && self.right_set.len() > 100 {
            return fmt.debug_set().entries(self.iter().take(100)).finish();
        }
        fmt.debug_set().entries(self.iter()).finish()""")],
 '''
fn main() {
    let m: GroupMap<u32, u32> = (0..150).map(|i| (i, i)).collect();
    let s = format!("{m:?}");
    for i in 0..150 { assert!(s.contains(&format!("(Some({i}), {i})")), "{i}"); }
}''')
b('c12-group-bulk-drop','C12','GroupMap::retain_paired dropping more than half of at least 32 left items, some of them with the hash of a left item that stays',
 'when most left items go, the groups are cut by hash instead of by hash and id',
 [(G,"""        for (l_hash, id) in to_drop {
            let left = self.left_set""","""        let bulk = to_drop.len() >= 32 && to_drop.len() > self.left_set.len() / 2;
        for (l_hash, id) in to_drop {
            if bulk {
                if let Some(left) = self.left_set.remove_entry(l_hash, left_with_left_id(id)) {
                    self.right_set
                        .get_mut(left.hash, right_with_right_id(left.r_id))
                        .unwrap()
                        .pairs
                        .retain(|(hash, _)| *hash != l_hash);
                }
                continue;
            }
            let left = self.left_set""")],
 '''
fn main() {
    let mut m: GroupMap<u32, u32, Flat> = GroupMap::with_hasher(Flat);
    for i in 0..40 { m.insert(i, 0); }
    m.retain_paired(|l, _| *l != 7);
    assert_eq!(m.len_left(), 1);
    assert!(m.are_paired(&7, &0));
    assert_eq!(m.get_left_iter(&0).unwrap().count(), 1);
}''')
b('c13-count-by-table','C13','count() of an Iter over a partial map, the map having more than 16 unpaired right items',
 'size_hint of the left half of iter_paired claims at most 255 entries',
 [(P,"""let l = unsafe { l_pairing.as_ref() };""","""let l = unsafe { l_pairing.as_ref() };""")],'fn main(){}') if False else None
run(B, sys.argv[1:] or None)
