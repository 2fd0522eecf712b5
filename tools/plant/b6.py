from plant import run
import sys
C,P,G,S,O='cycle_map','partial_cycle_map','group_map','serde','optionals'
B=[]
def b(id,prop,needs,breaks,edits,demo,sh=None): B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,sh=sh))
b('c28-drain-guard','C28','a drain of a partial map that is dropped early, one of the remaining items panicking in its Drop',
 'the guard that finishes a drain is disarmed before the item is dropped, so a panicking Drop leaves the rest of the right items in the map',
 [(P,("""            let guard = ConsumeAllOnDrop(self);
            drop(item);
            mem::forget(guard);""",1,2),"""            // The rest is consumed should anything go wrong
            let guard = ConsumeAllOnDrop(self);
            mem::forget(guard);
            drop(item);""")],
 '''
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
static N: AtomicU32 = AtomicU32::new(u32::MAX);
#[derive(PartialEq, Eq, Hash, Debug)]
struct D(u32);
impl Drop for D { fn drop(&mut self) { if N.fetch_sub(1, SeqCst) == 1 { panic!("drop") } } }
fn main() {
    let mut m: PartialCycleMap<D, D> = PartialCycleMap::new();
    for i in 0..10 { m.insert(D(i), D(i)); m.insert_right(D(100 + i)); }
    N.store(6, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m.drain().next(); }));
    N.store(u32::MAX, SeqCst);
    assert!(r.is_err());
    assert_eq!((m.len_left(), m.len_right()), (0, 0));
}''')
run(B, sys.argv[1:] or None)
