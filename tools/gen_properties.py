import json
CM="src/cycle_map.rs"; PM="src/partial_cycle_map.rs"; GM="src/group_map.rs"; OP="src/optionals.rs"; SD="src/serde.rs"; UT="src/utils.rs"
ALL=[CM,PM,GM]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","CycleMap is a bijection after every history of operations",
 "After any sequence of CycleMap operations, looking an item up from the left and from the right are exact inverses: every stored left item is paired with exactly one stored right item and vice versa, and contains, get, are_paired, len, is_empty and all iterators describe that one set of pairs. No operation on valid arguments panics, and no pair that an operation did not name is altered, lost or invented.",
 ["histories","inputs","configurations"],"every finite sequence of insert, extend, remove, swap, retain, drain, drain_filter, clear, clone, reserve and shrink calls, over any keys (equal but distinguishable ones included) and any lawful hasher",
 "The tests run one or two calls on a ten-element map built by one collect; they never cross-check both lookup directions after a mixed history, nor use colliding hashes or re-inserted keys.",
 [CM,UT],[("two hash tables whose entries carry the partner's hash and a shared id",CM+": insert, remove_via_left, remove_via_right, swap_left, swap_right"),("lookup through partner hash + id",CM+": get_left, get_right")],
 [("left/right tables","each entry holds its partner's hash and the pair id",CM+": CycleMap"),("counter","next pair id",CM+": CycleMap")],
 ["get_left","get_right","are_paired","contains_left","contains_right","len","iter","iter_left","iter_right"])

p("C02","CycleMap mutators have their documented effect and return what they displace",
 "Each CycleMap insert, remove, remove_via_left/right, swap, swap-checked and swap-or-insert call changes the map exactly as documented and returns exactly what it displaced: an insert evicts and returns the old pair of each of its two items, a remove returns the removed pair, and a swap re-pairs the partner of the old item with the new item, returns the old item, and also evicts and returns the pair that held an item equal to the new one. When the old item of a swap-or-insert is absent it leaves the map as an insert would, names at least one item of every pair that this insert evicts, and never panics.",
 ["inputs","histories"],"every reachable map and every choice of arguments: present, absent, equal to each other, paired together or with other items, equal but distinguishable instances",
 "The tests try each method on one or two argument shapes of a diagonal map (i <-> \"i\"); the argument-shape product (new present / absent / equal to old, partner elsewhere) is not covered.",
 [CM],[("eviction before insertion",CM+": insert"),("collision check and in-place repairing",CM+": swap_left, swap_right, swap_left_eq_check, swap_right_eq_check"),("insert fallback",CM+": swap_left_or_insert, swap_right_or_insert")],None,["return values","map contents afterwards"])

p("C03","PartialCycleMap is a partial bijection after every history",
 "After any sequence of PartialCycleMap operations, every stored item is either unpaired or paired with exactly one stored item of the other side, and the relation is symmetric: get_left, get_right, are_paired, is_left_paired, is_right_paired, contains, both lengths and every iterator agree on the same set of pairs and unpaired items. No operation on valid arguments panics, and no item that an operation did not name is altered, unpaired, lost or invented.",
 ["histories","inputs","configurations"],"every finite sequence of insertions, removals, pairings, unpairings, swaps, retains, drains and capacity calls over any keys and any lawful hasher",
 "Tests use maps that are diagonal and all-paired or all-unpaired, and check a few lookups after one kind of operation; no mixed history of pair/unpair/re-pair is run.",
 [PM,UT],[("optional partner hash + pair id in each entry",PM+": MappingPair"),("id reassignment on (un)pairing",PM+": pair, pair_forced, pair_forced_remove, unpair, remove_left, remove_right")],
 [("MappingPair.hash/id","partner hash (None when unpaired) and pair id",PM)],["get_left","get_right","are_paired","is_left_paired","is_right_paired","iter","iter_paired","iter_unpaired","iter_left","iter_right"])

p("C04","PartialCycleMap insert, remove and swap behave and report as documented",
 "Each PartialCycleMap insert, insert_left, insert_right, remove, remove_left/right, remove_via_left/right and swap call changes the map exactly as documented and returns exactly the items it displaced: inserting evicts and returns the old cycle of each inserted item, remove_left/right leaves the partner stored but unpaired, remove_via_left/right takes the partner along, and a swap hands the old item's pairing (or its unpaired state) to the new item and evicts and returns the cycle of an item equal to the new one. When the old item of a swap-or-insert is absent it leaves the map as an insert would, names at least one item of every cycle that this insert evicts, and never panics.",
 ["inputs","histories"],"every reachable map and every choice of arguments: absent, unpaired, paired together, paired elsewhere, equal to each other",
 "Tests try one argument shape per method on diagonal maps; unpaired/paired combinations of old, new and inserted items are not enumerated.",
 [PM],[("eviction before insertion",PM+": insert, insert_left, insert_right"),("partner release",PM+": remove_left, remove_right"),("re-pairing",PM+": swap_left, swap_right, *_or_insert")],None,["return values","map contents afterwards"])

p("C05","PartialCycleMap pairing and unpairing touch exactly the named items",
 "pair succeeds exactly when both items are stored and unpaired; unpair succeeds exactly when the two named items are paired with each other; pair_forced makes any two stored items paired, leaving their former partners stored but unpaired and returning references to them; pair_forced_remove does the same but removes and returns the former partners. Every other item and pairing stays as it was, and later operations on all four items involved keep working.",
 ["histories","inputs","configurations"],"every sequence of pairing operations on every reachable map, all combinations of free/paired arguments, any lawful hasher including ones under which distinct items collide",
 "Tests pair and re-pair a diagonal map once per branch, then stop; they never chain re-pairings so that stale ids or hashes could surface, and never use colliding hashes.",
 [PM],[("id hand-over between pairs",PM+": pair, pair_forced, pair_forced_remove, unpair")],None,["return values","are_paired","is_left_paired","is_right_paired"])

p("C06","GroupMap is a function from left items to right items after every history",
 "After any sequence of GroupMap operations, every stored left item is paired with exactly one stored right item, and the group reported for a right item is exactly the set of left items whose partner it is; get_right, get_left_iter, are_paired, is_right_paired, contains, both lengths and every iterator agree. No operation on valid arguments panics, no right item is stored twice, and no item that an operation did not name is altered, lost or invented.",
 ["histories","inputs","configurations"],"every finite sequence of insert, insert_remove, insert_left, insert_right, swap_right, swap_right_remove, pair, remove, retain, clear and bulk insertion over any keys and any lawful hasher",
 "Tests build a diagonal (one left per right) map, so groups never have more than two members, and no test follows a re-pairing with iteration or removal.",
 [GM,UT],[("left entry holds partner hash + right id",GM+": LeftItem"),("right entry holds the set of (hash, id) of its group",GM+": RightItem")],
 [("LeftItem.hash/r_id","which right item the left item belongs to",GM),("RightItem.pairs","the group's members",GM)],["get_right","get_left_iter","are_paired","is_right_paired","iter","iter_paired","iter_unpaired"])

p("C07","GroupMap mutators have their documented effect and return what they displace",
 "Each GroupMap insert, insert_remove, insert_left, insert_right, swap_right, swap_right_remove, pair, remove, remove_left and remove_right call changes the map exactly as documented and returns exactly what it displaced: insert re-pairs existing items instead of removing them, insert_remove removes and returns the old left item and the old right item with its whole group, removing a left item leaves its right item stored, removing a right item takes its whole group along, and swapping a right item moves its whole group to the new right item. Swapping to a right item equal to a stored one displaces that item and its group. Repeating a call that asks for an already existing pairing leaves that pairing intact.",
 ["inputs","histories"],"every reachable map and every choice of arguments, including a left item already in the requested group, groups of any size, empty groups, and a new right item that is equal to the old one or already stored",
 "Tests use groups of one member and never repeat an existing pairing, swap a right item and then look it up from the left, or swap to an item that is already stored.",
 [GM],[("group hand-over",GM+": swap_right, swap_right_remove, insert, pair"),("group removal",GM+": remove_right, insert_remove")],None,["return values","map contents afterwards"])

p("C08","Refused operations leave the map untouched",
 "An operation that reports that it did nothing changes nothing: a swap whose old item is absent, a checked swap whose items are not paired together, a remove of absent or differently paired items, a pair or unpair that returns false, a forced pairing with an absent item, inserting a left item under an absent right item, and a try_reserve that returns an error all leave every item, pairing and length exactly as before.",
 ["inputs","histories"],"every reachable map of each of the three types and every argument combination the operation refuses",
 "Tests check only that the refused call returns None/Neither/false, with arguments that are all absent; they never compare the map before and after, nor refuse with some arguments present.",
 ALL,[("guards ahead of mutation",CM+": swap_left, swap_right, swap_*_checked, remove"),("guards ahead of mutation",PM+": pair, unpair, pair_forced, swap_*"),("guards ahead of mutation",GM+": insert_left, pair, remove")],None,["contents before and after a refused call"])

p("C09","Hash collisions and the choice of hasher never change behaviour",
 "For any lawful hasher, including a constant one and one that gives equal hashes to distinct items of the same or of opposite sides, every operation of the three maps returns the same values and leaves the same contents as with a well-distributed hasher. In particular distinct items whose hashes collide are never confused with, paired with, unpaired from or removed instead of each other.",
 ["configurations","histories","inputs"],"every deterministic hasher (constant, few buckets, equal high or low bits, identity, pairwise collisions) crossed with every operation history",
 "All tests use the default hasher, under which 64-bit collisions do not occur in practice, so id-based disambiguation is never exercised.",
 ALL+[UT],[("id + hash predicates",CM+": hash_and_id, just_id"),("id + hash predicates",PM+": hash_and_id, just_id"),("ids",GM+": left_with_left_id, right_with_right_id, right_with_left_pair")],None,["all return values and contents, compared across hashers"])

p("C10","Draining yields every item exactly once and always empties the map",
 "drain on CycleMap and PartialCycleMap yields every stored pair and every unpaired item exactly once, correctly paired, and reports its remaining length exactly; once the iterator is consumed or dropped at any point, no item is left on either side, the backing capacity is kept, and the map can be refilled like a new one.",
 ["histories","inputs"],"every reachable map, every number of items taken from the iterator before dropping it, and every later history on the drained map",
 "The tests drain fully paired or small maps to the end and check only lengths; early dropping is checked on the left side only and refilling after it not at all.",
 [CM,PM],[("left raw drain plus partner lookup",CM+": drain, DrainIter"),("left raw drain, then unpaired rights",PM+": drain, DrainIter")],None,["yielded items","len and size_hint","contents and later operations after the drop"])

p("C11","drain_filter removes and yields exactly the selected entries",
 "drain_filter on CycleMap and PartialCycleMap offers every pair and every unpaired item to the closure exactly once, with items that are paired always offered together as a pair; it removes exactly the entries for which the closure returns true and yields them, and leaves all others in place with their pairing. If the iterator is dropped early, the entries not yet visited are still offered and removed if selected.",
 ["histories","inputs"],"every reachable map, every (also stateful) predicate on either component, every number of items taken before the drop",
 "Tests use two predicates on one map each, consumed to the end, and check lengths; a predicate that singles out paired right items or an early drop is not tested.",
 [CM,PM],[("raw iteration with in-place removal",CM+": DrainFilterInner::next, DrainFilterIter::drop"),("left pass then right pass",PM+": DrainFilterInner::next, DrainFilterIter::drop")],None,["closure arguments","yielded items","contents afterwards"])

p("C12","The retain family drops exactly the rejected entries and nothing else",
 "retain, retain_paired and retain_unpaired offer each entry in their scope to the closure exactly once and drop exactly the entries it rejects, leaving every other item and pairing intact and all lookups consistent: CycleMap keeps the pairs for which the closure returns true; in PartialCycleMap and GroupMap the entries for which it returns true are the dropped ones, as their examples and tests fix it. Dropping a pair removes both items in CycleMap and PartialCycleMap and only the left item in GroupMap, whose right item stays stored.",
 ["histories","inputs"],"every reachable map and every predicate, for each of the six retain methods; scope: all pairs (CycleMap), pairs and unpaired left items / pairs / unpaired items (PartialCycleMap), pairs / unpaired right items (GroupMap)",
 "Tests check lengths after one modulus predicate on a freshly built diagonal map; they never use the map afterwards, so dangling partners stay unseen.",
 ALL,[("collect then remove by hash and id",CM+": retain"),("collect then remove by hash and id",PM+": retain, retain_paired, retain_unpaired"),("collect then remove by hash and id",GM+": retain_paired, retain_unpaired")],None,["closure arguments","contents and lookups afterwards"])

p("C13","Every iterator yields each entry once and reports its length exactly",
 "Each iterator of the three maps yields every entry in its scope exactly once, correctly paired, and nothing else. At every point of the iteration len and size_hint describe what remains (exactly for exact-size iterators, as valid bounds otherwise), a clone taken mid-way yields the same remaining entries, and an exhausted iterator stays exhausted.",
 ["inputs","histories"],"every reachable map, every iterator type, every position at which the iterator is inspected, cloned or abandoned",
 "Tests look at len and clone of unadvanced iterators over diagonal maps, where groups have one member and unpaired right items are absent.",
 ALL,[("raw table iterators plus partner lookup",CM+": Iter, SingleIter"),("left pass and right pass",PM+": Iter, PairedIter, UnpairedIter, SingleIter"),("right pass with nested group iterator",GM+": Iter, PairedIter, UnpairedIter, LeftIter, RightIter, PairIter")],None,["next, len, size_hint, clone, Debug of every iterator"])

p("C14","Equality of maps means equal contents",
 "Two maps of the same type compare equal exactly when they store equal items on both sides with the same pairings, whatever the insertion history, iteration order, capacity or hasher instance of either; hence equality is reflexive and symmetric, and it notices any item or pairing that only one of the maps has.",
 ["histories","inputs","configurations"],"every two reachable maps of the same type, in particular ones that differ in one item, one pairing or one unpaired item, or that reach equal contents by different histories",
 "Tests compare a map only with an identical copy; no test asserts that different maps are unequal.",
 ALL,[("length check plus membership of every pair",CM+": PartialEq"),("length check plus membership",PM+": PartialEq"),("length check plus membership",GM+": PartialEq")],None,["== and != in both directions"])

p("C15","A clone is equal and independent",
 "Cloning a map yields a map with the same contents, pairings and lookups, and from then on any history applied to one of the two leaves the other unchanged, while the same history applied to both keeps giving the same results on both.",
 ["histories","inputs"],"every reachable map, every pair of histories applied afterwards to original and clone",
 "Tests clone an untouched map and compare it for equality once; no operation follows the clone.",
 ALL,[("table clone plus counters",CM+": Clone"),("table clone plus counters",PM+": Clone"),("table clone, group sets and counters",GM+": Clone")],None,["contents of both maps during diverging histories"])

p("C16","Capacity management keeps its promises and never changes contents",
 "After with_capacity(n), reserve(k) or a successful try_reserve(k), the advertised capacity covers the promised number of entries and that many can be added without any stored item being relocated; shrinking never goes below the number of entries or, from above, the requested minimum, and never leaves more capacity than a new map made for that many entries; clear and drain keep the advertised capacity. None of these calls changes contents or pairings, and an impossible request is reported, by try_reserve as an error and by reserve as a panic.",
 ["inputs","histories","configurations"],"every reachable map (including ones with many deleted entries), every requested amount including overflowing ones, and every later history",
 "Tests check a handful of capacities on empty or two-element maps; none checks contents, deleted entries, or the right side behind the single reported capacity of CycleMap.",
 [CM,PM,GM],[("delegation to both tables",CM+": reserve, try_reserve, shrink_to, shrink_to_fit, with_capacity_and_hasher, clear"),("delegation per side",PM+": reserve_left, reserve_right, try_reserve_*, shrink_to_*")],None,["capacity, capacity_left, capacity_right","addresses of stored items","contents"])

p("C17","Serialization round-trips and deserialization accepts any sequence safely",
 "Serializing a CycleMap produces a sequence with each pair exactly once, and deserializing that sequence yields an equal map. Deserializing any sequence of pairs, in any format and with any length hint, gives the map that inserting the pairs in order gives; malformed input gives an error, never a panic or a broken map.",
 ["inputs","configurations"],"every reachable map, every item type and hasher type, every sequence of pairs (duplicates on either side included), every length hint a format may report, every malformed document",
 "One test round-trips one ten-element map through JSON; duplicates, malformed input and other length hints are not tried.",
 [SD,CM],[("seq visitor inserting pairs",SD+": CycleMapVisitor::visit_seq"),("seq serializer",SD+": Serialize")],None,["serialized form","deserialized map","errors"])

p("C18","Every stored value is dropped or handed back exactly once",
 "Over any history ending with the map being dropped, every value moved into a map is either returned to the caller or dropped by the library, exactly once: never leaked, never dropped twice, never readable after it was dropped. This includes values displaced by insertions and swaps, rejected by retain, left over in a drain that is dropped early, cleared, replaced during bulk insertion or refused.",
 ["histories","inputs"],"every operation history on each of the three maps including early-dropped iterators, clones and clear, with items whose drops are counted",
 "No test counts drops; leaks and double drops are invisible to value comparisons.",
 ALL,[("raw table ownership",CM+": remove_entry, RawDrain, DrainFilterInner"),("raw table ownership",PM+": DrainIter, DrainFilterInner"),("raw table ownership",GM+": remove_right, swap_right")],None,["live-instance ledger of instrumented items"])

p("C19","OptionalPair converts, maps and compares without losing information",
 "OptionalPair is interchangeable with (Option, Option) and Option<(Option, Option)>: converting there and back is the identity, and the accessors, is_none/is_some, equality, clone and cloned agree with that reading. map, map_left, map_right and convert transform exactly the present components, each by its own function called once, and keep the variant.",
 ["inputs"],"every variant, every component value and type, every function",
 "Tests check single literal values per method.",
 [OP],[("variant-wise matches",OP+": From impls, map, map_left, map_right, convert, cloned, get_left, get_right")],None,["all public methods and conversions"])

p("C20","Bulk construction equals inserting the entries one by one",
 "Collecting or extending any of the maps from a sequence of entries gives the same contents and pairings as performing the corresponding single insertions in order, later entries winning over earlier ones; existing contents are kept unless displaced. For the partial and group maps the optional-entry forms insert unpaired items for the entries that lack a component.",
 ["inputs","histories"],"every sequence of entries, with duplicates on either or both sides, applied to empty or any reachable map, from iterators of any size hint",
 "Tests collect only sequences of distinct diagonal entries into empty maps.",
 ALL,[("extend by insertion",CM+": Extend, FromIterator"),("extend by insertion",PM+": Extend, FromIterator (pairs, OptionalPair)"),("extend by insertion",GM+": Extend, FromIterator (pairs, optional left)")],None,["contents after extend/collect"])

p("C21","Borrowed lookups agree with owned lookups",
 "Looking an item up through a borrowed (sized) form of its type gives the same answer as looking it up through an equal owned item, present or absent, on either side of every map, and returns the stored instance rather than a copy of the key used to search.",
 ["inputs","configurations"],"every reachable map, every key of a type whose borrowed form hashes and compares alike, every lawful hasher",
 "Tests and examples only look up by the owned type.",
 ALL,[("generic borrowed key",CM+": get_left, get_right"),("generic borrowed key",PM+": get_left, get_right"),("generic borrowed key",GM+": get_right, get_left_iter")],None,["get_left, get_right, get_left_iter with borrowed keys"])

p("C22","Lookup cost in hash and equality evaluations does not grow with the map",
 "With a well-distributed hasher, a single lookup, membership or pairing test, removal, swap or re-pairing evaluates item hashes and equalities only a bounded number of times (apart from the occasional, amortised resize of a table), whatever the number of stored entries and the history that built the map; adding n entries one by one costs O(n) evaluations in total, and a pass over the whole map (iteration, equality, cloning, retaining, draining, filtering, resizing) a number linear in its size.",
 ["inputs","histories"],"maps of up to thousands of entries on each side reached by insertion and churn, every lookup, single-item operation and whole-map pass",
 "Tests assert results only; an accidental linear scan or a broken hash would pass them.",
 ALL+[UT],[("stored partner hash instead of scanning",CM+": get_left, get_right, remove_via_left"),("stored partner hash",PM+": get_left, get_right"),("stored group members",GM+": get_right, get_left_iter")],None,["counts of Hash::hash and Eq::eq calls on instrumented items"])

p("C23","Debug output lists exactly the contents",
 "Formatting a map or one of its iterators with Debug lists every entry in its scope exactly once, correctly paired, shows nothing else, and neither consumes nor changes what is formatted.",
 ["inputs","histories"],"every reachable map and every iterator, advanced to any position",
 "Tests print the output but never check it.",
 ALL+[OP],[("debug_set over iter",CM+": Debug"),("debug_set over iter",PM+": Debug"),("debug_set over iter",GM+": Debug")],None,["format!(\"{:?}\")"])

p("C24","A panicking closure or source iterator leaves the map usable",
 "If the closure given to retain or drain_filter, or the iterator given to extend, panics, the map afterwards is still a consistent map: every entry is either fully present with its pairing or fully gone, the entry on which the closure panicked is still present, entries gone are only those selected before or after the panic, nothing is leaked or dropped twice, and later operations work normally.",
 ["fault_sequences","histories","inputs"],"every reachable map, every call index at which the closure or iterator panics, every later history",
 "No test makes a closure panic.",
 ALL,[("collect before removing",CM+": retain"),("removal after the predicate returned, continuation on drop",CM+": DrainFilterIter::drop"),("same",PM+": retain*, DrainFilterIter::drop"),("same",GM+": retain_*")],None,["contents, live-instance ledger and later operations after catch_unwind"])

p("C25","An emptied map behaves like a new one",
 "After clear, a drain, or removing, filtering out or retaining away every entry, the map reports itself empty on both sides through every lookup, length and iterator, compares equal to a new map, and answers any later history exactly as a newly created map would.",
 ["histories","inputs"],"every reachable map, every way of emptying it, every later history, repeated emptying",
 "Tests clear or drain a map and check the length; nothing is inserted afterwards.",
 ALL,[("table reset and counter handling",CM+": clear, drain"),("table reset and counter handling",PM+": clear, drain"),("table reset",GM+": clear")],None,["all observations, side by side with a new map"])

p("C26","Growth, churn and rehashing at scale never lose or mix up entries",
 "Maps that grow to thousands of entries and go through long phases of deletion, re-pairing, refilling, shrinking and reserving, so that both tables are resized and rehashed many times at different moments, and maps through which millions of short-lived entries pass, still answer every lookup from both sides correctly and list every entry exactly once.",
 ["histories","inputs","configurations"],"long histories over large key ranges (thousands of entries, tens of thousands of operations; small maps with up to a million insertions), all three maps, various hashers, colliding ones included",
 "Tests stay at or below a hundred entries and never mix deletion with growth.",
 ALL+[UT],[("rehash by item hash",UT+": make_hasher"),("partner hash independent of table position",CM+": insert, swap_left, swap_right")],None,["full two-way lookup sweeps at checkpoints"])

p("C27","Borrows, thread sharing and concurrent reads of maps are sound",
 "Safe code cannot keep a reference or iterator obtained from a map across a change of the map or past its life, yet may change the map as soon as it no longer uses them; results borrow from the map and never from the query, and items and their lifetimes are covariant as in the standard maps. A map can be sent to or shared with another thread exactly when its items and hash builder can, an iterator never where what it yields cannot, and any number of threads reading one map at once all get the right answers.",
 ["programs","schedules","inputs"],"every safe program using the maps and their iterators, every combination of item, hasher and closure types that are or are not Send or Sync, every reachable map read concurrently",
 "Tests only contain programs that compile, and read maps from one thread; what the raw-table iterators and PhantomData markers allow beyond that is never asked.",
 ALL,[("lifetimes, markers and auto traits of the raw iterators",CM+": Iter, MappingPairs, Drain, DrainFilterIter"),("same",PM+": Iter, PairedIter, DrainIter"),("same",GM+": LeftIter, RightIter, PairedIter")],None,["verdict of the compiler on client programs","results of reads on several threads"])

p("C28","A panicking Hash, Eq, Clone, Debug or Drop of an item never corrupts memory",
 "If an item's Hash, Eq, Clone, Debug or Drop panics inside any operation, no stored value is dropped twice, none is lost when the map is finally dropped (only a clone under construction, or what stands behind the item whose Drop panics, may leak) and no dropped value can be read. A drain or drain_filter interrupted by a panicking Drop still removes everything it covers or selects. After a read (lookup, iteration, comparison, cloning, formatting) the map is exactly as before and fully usable; after a mutator, clearing the map makes it as good as new.",
 ["fault_sequences","histories","inputs"],"every reachable map, every operation, every index at which the Hash, Eq, Clone, Debug or Drop evaluation panics",
 "No test has items that panic, so the unwinding paths of the raw-table code are never executed.",
 ALL,[("raw table clone and eq",CM+": Clone, PartialEq, insert, swap_left"),("raw table operations between evaluations",PM+": insert, pair_forced, swap_left"),("raw table operations between evaluations",GM+": insert, remove_right, swap_right")],None,["live-instance ledger after catch_unwind","contents after reads","behaviour after clear"])

p("C29","A map uses exactly the hash builder it was given, for its whole life",
 "Every item of a map is hashed with the hash builder the map was created with: hasher() returns that builder after any history of operations, clones carry a clone of it, clone_from takes over the source's, default, collected and deserialised maps use the builder type's default, and lookups, comparisons and equality work whatever builders the maps involved have. with_hasher and with_capacity_and_hasher create empty maps that work exactly like those of the default builder.",
 ["configurations","histories","inputs"],"every hash builder (stateful and individually distinguishable ones included), every constructor, every reachable map and later history",
 "Tests only use the default builder, whose instances inside one map are indistinguishable unless something goes wrong.",
 ALL,[("the builder is stored once and used by both tables",CM+": with_hasher, hasher, Clone, insert"),("the same",PM+": with_hasher, hasher, Clone, Extend"),("the same",GM+": with_hasher, hasher, Clone")],None,["hasher()","identity of the builder that hashes each item"])

p("C30","Maps work alike for every lawful type of item",
 "Nothing about the maps depends on what the items are beyond their Hash and Eq: with zero-sized, tiny, very large, over-aligned, heap-owning or drop-carrying types on either side, in any combination, every operation behaves as with plain integers, items keep their value and alignment, and each is dropped exactly once.",
 ["configurations","histories","inputs"],"every pair of item types with lawful Hash and Eq, every history of operations on maps of them",
 "Tests use u64 and String only; layout-dependent code in the raw tables (size and alignment of the entries, needs_drop) is exercised for one layout.",
 ALL+[UT],[("raw table entries of generic layout",CM+": MappingPair, insert, drain"),("the same",PM+": MappingPair, insert, drain_filter"),("the same",GM+": LeftItem, RightItem, insert")],None,["results of every operation against the model, address alignment, live-instance counts"])

p("C31","No history of safe calls causes undefined behaviour",
 "Whatever safe calls are made on the maps and their iterators, in whatever order, with iterators dropped early, cloned or sent to other threads and with closures, sources, Hash or Eq that panic, the library never reads or frees memory that is freed or uninitialised, never steps outside its allocations, never frees twice, never races and never creates an invalid value.",
 ["histories","inputs","fault_sequences"],"every safe history of calls on any of the maps, every way of stepping and abandoning iterators, every panic of user code",
 "Tests run short happy paths without a memory checker; stale buckets usually still hold the old bytes, so a plain run does not notice.",
 ALL+[UT],[("raw buckets dereferenced, moved out and kept across calls",CM+": insert, remove_via_left, swap_left, DrainFilterInner::next"),("the same",PM+": pair, swap_left, drain, DrainIter::next, raw iterators"),("the same",GM+": insert, remove_left, swap_right, retain_*, LeftIter")],None,["Miri and AddressSanitizer over generated histories"])

p("C32","Maps hold memory in proportion to their contents and give all of it back",
 "However long a map is used, the memory it holds is bounded by a constant times the capacity it advertises (for a GroupMap, plus what the groups need), which in turn is bounded by the most items it held or was asked to hold: nothing piles up over repeated insertion, removal, swapping and re-pairing. Reading allocates nothing that stays, a clone holds no more than its original, shrink_to and shrink_to_fit leave no more than a new map of the same contents needs, and dropping the map, whether full, cleared, partly drained or taken, frees every byte.",
 ["histories","inputs","configurations"],"every history, repeated indefinitely, over any keys and hashers; every way of ending a map's life",
 "Tests never look at memory: a table that is forgotten, a group that keeps ids of removed members or a side that is not shrunk changes no lookup.",
 ALL,[("two tables, both to be shrunk, cleared and dropped",CM+": shrink_to, shrink_to_fit, drain, clear, Clone"),("the same",PM+": shrink_to_left, shrink_to_right, shrink_to_fit, drain, clear"),("members of each group",GM+": RightItem.pairs, remove_left, swap_right, insert")],None,["bytes allocated and freed, by a counting global allocator"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); print(x['id'],len(x['title']))
    assert len(x['title'])<=80
