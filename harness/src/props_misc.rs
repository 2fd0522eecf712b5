//! C17, C18, C19, C24: serde, ownership, OptionalPair, panicking callbacks.
use crate::driver::*;
use crate::exec::*;
use crate::items::*;
use crate::model::*;
use crate::ops::*;
use crate::props_hist::*;
use crate::props_iter::*;
use crate::props_rel::BulkFam;
use crate::tree::*;
use cycle_map::{CycleMap, OptionalPair};
use proptest::prelude::*;
use serde::de::value::SeqDeserializer;
use serde::de::{DeserializeSeed, Deserializer, Error as _, IntoDeserializer, SeqAccess, Visitor};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ser {
    /// round-trip of a map that a history built
    Map(Hist<CK>),
    /// a sequence of pairs behind a deserializer with any length hint, failing at some element
    Seq { mode: u8, pairs: Vec<(u16, u16)>, hint: u8, fail: Option<u8>, odd: Option<(u8, u8)> },
    /// JSON text, damaged
    Text { mode: u8, pairs: Vec<(u16, u16)>, edits: Vec<(u8, u16, u8)>, bin: bool },
    /// other item types
    Strings(Vec<(String, Option<i64>)>),
    Nested(Vec<(i64, (bool, Vec<u8>))>),
    /// a long sequence: n pairs over a domain, in an order that the seed gives
    Long { mode: u8, n: u16, dom: u16, seed: u32, hint: u8, fail: bool },
    /// deserialized over a map that has contents
    Place { old: Vec<(u16, u16)>, seq: Vec<(u16, u16)>, mode: u8, hint: u8, fail: Option<u8> },
    /// maps within a larger document
    Within { maps: Vec<Vec<(u16, u16)>>, last: i32, mode: u8 },
    /// a sink that refuses to take more than some bytes
    Full { pairs: Vec<(u16, u16)>, room: u16, mode: u8 },
    /// a document that is no sequence
    Other(u8, u8),
}
#[derive(Serialize, Deserialize)]
struct Doc {
    first: Option<CM>,
    all: Vec<CM>,
    named: std::collections::BTreeMap<String, CM>,
    pair: (CM, u8),
    last: i32,
}
/// Takes up to a number of bytes.
struct Room(usize);
impl std::io::Write for Room {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.0 {
            return Err(std::io::Error::other("no room"));
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
type CM = CycleMap<L, R, H>;

fn pairs(max: usize, dom: u16) -> BoxedStrategy<Vec<(u16, u16)>> {
    proptest::collection::vec((0..dom, 0..dom), 0..max).boxed()
}
pub struct C17;
impl Prop for C17 {
    type Case = Ser;
    const ID: &'static str = "C17";
    const RULE: &'static str = "maps built by random histories are serialized to JSON and bincode: the form must be a sequence with each pair once and read back as an equal map; random pair sequences (duplicates on either side) are deserialized through JSON, bincode and a custom format with any length hint, elements of the wrong size and errors at any element, and compared with inserting the pairs in order; damaged JSON and bincode bytes must be accepted exactly when a Vec of pairs accepts them; long sequences (up to 9000 pairs, thorough 30000), deserialization in place, maps within larger documents, sinks that run full and documents that are no sequence are tried too; live instances are counted throughout. Non-trivial: >=3 pairs and (a duplicate, an error, an inexact hint, damage, or >=4 operations)";
    fn cases(t: Tier) -> u64 {
        t.pick(400_000, 9_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Ser> {
        let n = t.pick(24, 60);
        let map = hist(w_c(), t.pick(20, 40), 60).prop_map(|mut h| {
            h.hasher %= MODES;
            Ser::Map(h)
        });
        let seq = (0..MODES, prop_oneof![2 => pairs(n, 8), 1 => pairs(n, 300)], 0u8..8, proptest::option::weighted(0.3, 0u8..30), proptest::option::weighted(0.2, (0u8..30, 0u8..5)))
            .prop_map(|(mode, pairs, hint, fail, odd)| Ser::Seq { mode, pairs, hint, fail, odd });
        let text = (0..MODES, prop_oneof![2 => pairs(8, 8), 1 => pairs(n, 300)], proptest::collection::vec((0u8..6, any::<u16>(), any::<u8>()), 0..4), any::<bool>())
            .prop_map(|(mode, pairs, edits, bin)| Ser::Text { mode, pairs, edits, bin });
        let strings = proptest::collection::vec((prop_oneof![any::<String>(), "[a-c]{0,2}"], proptest::option::of(prop_oneof![any::<i64>(), 0i64..6])), 0..12).prop_map(Ser::Strings);
        let nested = proptest::collection::vec((prop_oneof![any::<i64>(), 0i64..6], (any::<bool>(), proptest::collection::vec(any::<u8>(), 0..3))), 0..12).prop_map(Ser::Nested);
        let long = (0..MODES, 500u16..t.pick(9000, 30000), prop_oneof![2 => 200u16..3000, 3 => 3000u16..40000], any::<u32>(), 0u8..8, proptest::bool::weighted(0.2))
            .prop_map(|(mode, n, dom, seed, hint, fail)| Ser::Long { mode: if matches!(mode, 1..=3) { 0 } else { mode }, n, dom, seed, hint, fail });
        let place = (prop_oneof![1 => pairs(n, 8), 1 => pairs(n, 300)], prop_oneof![1 => pairs(n, 8), 1 => pairs(n, 300)], 0..MODES, 0u8..8, proptest::option::weighted(0.3, 0u8..30))
            .prop_map(|(old, seq, mode, hint, fail)| Ser::Place { old, seq, mode, hint, fail });
        let within = (proptest::collection::vec(pairs(8, 12), 0..5), any::<i32>(), 0..MODES).prop_map(|(maps, last, mode)| Ser::Within { maps, last, mode });
        let full = (pairs(n, 300), 0u16..400, 0..MODES).prop_map(|(pairs, room, mode)| Ser::Full { pairs, room, mode });
        let other = (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Ser::Other(a, b));
        prop_oneof![1600 => map, 1600 => seq, 1600 => text, 400 => strings, 400 => nested, 4 => long, 600 => place, 300 => within, 300 => full, 40 => other].boxed()
    }
    fn run(c: &Ser, cx: &mut Ctx) -> Res {
        let r = c17(c, cx);
        if r.is_ok() && (live_total() != 0 || double_drops() != 0) {
            return Err(format!("after everything was dropped: {} live items {:?}, {} double drops", live_total(), live_tags(), double_drops()));
        }
        r
    }
}
fn model_of(ps: &[(u16, u16)]) -> PM {
    let mut m = PM::default();
    for (l, r) in ps {
        m.insert((*l, 0), (*r, 0));
    }
    m
}
fn dom_of(ps: &[(u16, u16)]) -> u16 {
    ps.iter().map(|p| p.0.max(p.1)).max().unwrap_or(0).min(400) + 2
}
fn check_map(what: &str, map: &CM, m: &PM, dom: u16) -> Res {
    CF::lookups(map, m, dom, false, false).map_err(|e| format!("{what}: {e}"))?;
    CF::iters(map, m, false).map_err(|e| format!("{what}: {e}"))?;
    let live = live_total();
    if live != 2 * map.len() as i64 {
        return Err(format!("{what}: {live} live items for {} pairs", map.len()));
    }
    Ok(())
}
fn edit(b: &mut Vec<u8>, edits: &[(u8, u16, u8)]) {
    const INTERESTING: &[u8] = b"[],0123456789 -.eE\"{}:ntf\\\n\xff";
    for (k, at, x) in edits {
        let n = b.len();
        let at = if n == 0 { 0 } else { *at as usize % n };
        match k {
            _ if n == 0 => b.push(*x),
            0 => b.truncate(at),
            1 => {
                b.remove(at);
            }
            2 => b[at] = INTERESTING[*x as usize % INTERESTING.len()],
            3 => b.insert(at, INTERESTING[*x as usize % INTERESTING.len()]),
            4 => b[at] = *x,
            _ => {
                let j = (at + 1 + *x as usize) % n;
                b.swap(at, j);
            }
        }
    }
}
fn c17(c: &Ser, cx: &mut Ctx) -> Res {
    match c {
        Ser::Map(h) => {
            let Some(ex) = build::<CF, H>(h) else { return Ok(()) };
            cx.label("map");
            DEFMODE.with(|d| d.set(h.hasher));
            let m = &ex.m;
            let map = &ex.map;
            cx.nontrivial = m.l.len() >= 3 && h.ops.len() >= 4;
            let mut want: Vec<(u16, u16)> = m.l.iter().map(|(k, v)| (*k, v.1.unwrap())).collect();
            want.sort();
            let text = guard(|| serde_json::to_string(map))?.map_err(|e| format!("serializing to JSON: {e}"))?;
            cx.trace = ex.trace.clone();
            cx.trace.push(text.clone());
            let mut got: Vec<(u16, u16)> = serde_json::from_str(&text).map_err(|e| format!("the JSON is not a sequence of pairs: {e}: {text}"))?;
            got.sort();
            if got != want {
                return Err(format!("serialized as {text}, contents are {want:?}"));
            }
            let base = live_total();
            let back: CM = guard(|| serde_json::from_str(&text))?.map_err(|e| format!("reading {text}: {e}"))?;
            if live_total() - base != 2 * want.len() as i64 {
                return Err(format!("reading {} pairs made {} live items", want.len(), live_total() - base));
            }
            CF::lookups(&back, m, ex.dom, false, true).map_err(|e| format!("JSON round-trip: {e}"))?;
            CF::iters(&back, m, false).map_err(|e| format!("JSON round-trip: {e}"))?;
            if !guard(|| back == *map && *map == back)? {
                return Err("the JSON round-trip gives a map that is not equal".into());
            }
            let bin = guard(|| bincode::serialize(map))?.map_err(|e| format!("serializing to bincode: {e}"))?;
            let mut got: Vec<(u16, u16)> = bincode::deserialize(&bin).map_err(|e| format!("the bincode form is not a sequence of pairs: {e}"))?;
            got.sort();
            if got != want {
                return Err(format!("the bincode form is {got:?}, contents are {want:?}"));
            }
            let back: CM = guard(|| bincode::deserialize(&bin))?.map_err(|e| format!("reading bincode: {e}"))?;
            CF::lookups(&back, m, ex.dom, false, true).map_err(|e| format!("bincode round-trip: {e}"))?;
            if !guard(|| back == *map && *map == back)? {
                return Err("the bincode round-trip gives a map that is not equal".into());
            }
            Ok(())
        }
        Ser::Seq { mode, pairs, hint, fail, odd } => {
            cx.label("sequence");
            DEFMODE.with(|d| d.set(*mode));
            let fail = fail.map(|f| f as usize).filter(|f| *f <= pairs.len());
            let odd = odd.filter(|o| (o.0 as usize) < pairs.len());
            let m = model_of(pairs);
            cx.nontrivial = pairs.len() >= 3 && (fail.is_some() || odd.is_some() || *hint != 0 || m.l.len() < pairs.len());
            cx.trace.push(format!("{pairs:?}, hint {:?}, fails at {fail:?}, element of the wrong size {odd:?}", hint_of(*hint, pairs.len())));
            let de = Custom { v: pairs.clone(), i: 0, hint: hint_of(*hint, pairs.len()), fail, odd: odd.map(|o| (o.0 as usize, o.1)) };
            let got: Result<CM, serde::de::value::Error> = guard(|| CM::deserialize(de))?;
            let bad = fail.is_some() || odd.map_or(false, |o| o.1 != 2);
            match got {
                Err(e) if !bad => Err(format!("a good sequence is refused: {e}")),
                Ok(_) if bad => Err("a malformed sequence is accepted".into()),
                Ok(map) => check_map("deserialized map", &map, &m, dom_of(pairs)),
                Err(_) => {
                    if live_total() != 0 {
                        return Err(format!("{} items live after a failed deserialization", live_total()));
                    }
                    cx.label("refused");
                    Ok(())
                }
            }
        }
        Ser::Text { mode, pairs, edits, bin } => {
            DEFMODE.with(|d| d.set(*mode));
            cx.nontrivial = pairs.len() >= 3 && !edits.is_empty();
            let mut b = if *bin { bincode::serialize(pairs).unwrap() } else { serde_json::to_vec(pairs).unwrap() };
            edit(&mut b, edits);
            let (want, got): (Result<Vec<(u16, u16)>, String>, Result<CM, String>) = if *bin {
                cx.label("bincode bytes");
                cx.trace.push(format!("bincode {b:?}"));
                (
                    bincode::deserialize(&b).map_err(|e| e.to_string()),
                    guard(|| bincode::deserialize::<CM>(&b)).map_err(|e| format!("reading bincode {b:?} {e}"))?.map_err(|e| e.to_string()),
                )
            } else {
                cx.label("JSON text");
                cx.trace.push(String::from_utf8_lossy(&b).into_owned());
                (
                    serde_json::from_slice(&b).map_err(|e| e.to_string()),
                    guard(|| serde_json::from_slice::<CM>(&b)).map_err(|e| format!("reading {:?} {e}", String::from_utf8_lossy(&b)))?.map_err(|e| e.to_string()),
                )
            };
            match (want, got) {
                (Ok(ps), Ok(map)) => {
                    cx.label("accepted");
                    check_map("deserialized map", &map, &model_of(&ps), dom_of(&ps))
                }
                (Err(_), Err(_)) => {
                    cx.label("refused");
                    if live_total() != 0 {
                        return Err(format!("{} items live after a failed deserialization", live_total()));
                    }
                    Ok(())
                }
                (Ok(_), Err(e)) => Err(format!("{:?} is a sequence of pairs, but is refused: {e}", String::from_utf8_lossy(&b))),
                (Err(e), Ok(_)) => Err(format!("{:?} is accepted, but is malformed: {e}", String::from_utf8_lossy(&b))),
            }
        }
        Ser::Long { mode, n, dom, seed, hint, fail } => {
            cx.label("long sequence");
            DEFMODE.with(|d| d.set(*mode));
            let (n, dom) = (*n as usize, (*dom).max(1) as u64);
            let ps: Vec<(u16, u16)> = (0..n as u64)
                .map(|i| {
                    let x = mix(((*seed as u64) << 20) ^ i);
                    ((x % dom) as u16, ((x >> 24) % dom) as u16)
                })
                .collect();
            cx.nontrivial = true;
            cx.trace.push(format!("{n} pairs over 0..{dom}, hint {:?}, last element fails: {fail}", hint_of(*hint, n)));
            let de = Custom { v: ps.clone(), i: 0, hint: hint_of(*hint, n), fail: fail.then_some(n), odd: None };
            let got: Result<CM, serde::de::value::Error> = guard(|| CM::deserialize(de))?;
            if *fail {
                return if got.is_ok() { Err("a sequence with an error at its end is accepted".into()) } else { Ok(()) };
            }
            let map = got.map_err(|e| format!("a good sequence is refused: {e}"))?;
            let m = model_of(&ps);
            let deep = |what: &str, map: &CM| -> Res {
                if map.len() != m.l.len() {
                    return Err(format!("{what}: {} pairs, expected {}", map.len(), m.l.len()));
                }
                for (l, v) in &m.l {
                    let r = v.1.unwrap();
                    if map.get_right(&L::new(*l)).map(|x| x.k()) != Some(r) || map.get_left(&R::new(r)).map(|x| x.k()) != Some(*l) {
                        return Err(format!("{what}: {l} and {r} are not paired with each other"));
                    }
                }
                Ok(())
            };
            deep("deserialized map", &map)?;
            check_map("deserialized map", &map, &m, dom_of(&ps))?;
            let bin = guard(|| bincode::serialize(&map))?.map_err(|e| format!("serializing to bincode: {e}"))?;
            let back: CM = guard(|| bincode::deserialize(&bin))?.map_err(|e| format!("reading bincode: {e}"))?;
            deep("bincode round-trip", &back)?;
            let text = guard(|| serde_json::to_string(&map))?.map_err(|e| format!("serializing to JSON: {e}"))?;
            let back: CM = guard(|| serde_json::from_str(&text))?.map_err(|e| format!("reading JSON: {e}"))?;
            deep("JSON round-trip", &back)
        }
        Ser::Place { old, seq, mode, hint, fail } => {
            cx.label("in place");
            DEFMODE.with(|d| d.set(*mode));
            let fail = fail.map(|f| f as usize).filter(|f| *f <= seq.len());
            let mut map: CM = CM::default();
            for (l, r) in old {
                map.insert(L::new(*l), R::new(*r));
            }
            cx.nontrivial = map.len() >= 3 && seq.len() >= 3;
            cx.trace.push(format!("{old:?} overwritten by {seq:?}, hint {:?}, fails at {fail:?}", hint_of(*hint, seq.len())));
            let de = Custom { v: seq.clone(), i: 0, hint: hint_of(*hint, seq.len()), fail, odd: None };
            let got = guard(|| Deserialize::deserialize_in_place(de, &mut map))?;
            match (got, fail) {
                (Ok(()), None) => check_map("map deserialized in place", &map, &model_of(seq), dom_of(seq).max(dom_of(old))),
                (Err(e), None) => Err(format!("a good sequence is refused: {e}")),
                (Ok(()), Some(_)) => Err("a malformed sequence is accepted".into()),
                (Err(_), Some(_)) => {
                    // whatever it holds now, it is a map
                    let ps: Vec<(u16, u16)> = map.iter().map(|(l, r)| (l.k(), r.k())).collect();
                    check_map("map after a failed deserialization in place", &map, &model_of(&ps), dom_of(seq).max(dom_of(old)))
                }
            }
        }
        Ser::Within { maps, last, mode } => {
            cx.label("within a document");
            DEFMODE.with(|d| d.set(*mode));
            let mk = |ps: &Vec<(u16, u16)>| filled(ps);
            let all: Vec<CM> = maps.iter().map(mk).collect();
            cx.nontrivial = maps.iter().filter(|m| !m.is_empty()).count() >= 2;
            cx.trace.push(format!("{maps:?}, then {last}"));
            let doc = Doc {
                first: maps.first().map(mk),
                named: maps.iter().enumerate().map(|(i, m)| (i.to_string(), mk(m))).collect(),
                pair: (maps.last().map(mk).unwrap_or_default(), 7),
                all,
                last: *last,
            };
            let text = guard(|| serde_json::to_string(&doc))?.map_err(|e| format!("serializing to JSON: {e}"))?;
            let val: serde_json::Value = serde_json::from_str(&text).map_err(|e| format!("the document is no JSON: {e}: {text}"))?;
            let bin = guard(|| bincode::serialize(&doc))?.map_err(|e| format!("serializing to bincode: {e}"))?;
            let docs = [
                ("JSON", guard(|| serde_json::from_str::<Doc>(&text))?.map_err(|e| e.to_string())),
                ("pretty JSON", guard(|| serde_json::from_str::<Doc>(&serde_json::to_string_pretty(&doc).unwrap_or_default()))?.map_err(|e| e.to_string())),
                ("JSON value", guard(|| serde_json::from_value::<Doc>(val))?.map_err(|e| e.to_string())),
                ("bincode", guard(|| bincode::deserialize::<Doc>(&bin))?.map_err(|e| e.to_string())),
            ];
            for (how, d) in docs {
                let d = d.map_err(|e| format!("reading the document back from {how}: {e}"))?;
                if d.first != doc.first || d.all != doc.all || d.named != doc.named || d.pair != doc.pair || d.last != doc.last {
                    return Err(format!("the document read back from {how} is not equal"));
                }
            }
            Ok(())
        }
        Ser::Full { pairs, room, mode } => {
            cx.label("full sink");
            DEFMODE.with(|d| d.set(*mode));
            let map = filled(pairs);
            let before = dump_of(&map);
            let whole = guard(|| serde_json::to_string(&map))?.map_err(|e| format!("serializing to JSON: {e}"))?.len();
            let bins = guard(|| bincode::serialize(&map))?.map_err(|e| format!("serializing to bincode: {e}"))?.len();
            let room = *room as usize;
            cx.nontrivial = map.len() >= 3 && room < whole;
            cx.trace.push(format!("{pairs:?}, room for {room} of {whole} bytes of JSON, {bins} of bincode"));
            let j = guard(|| serde_json::to_writer(Room(room), &map))?.is_ok();
            let b = guard(|| bincode::serialize_into(Room(room), &map))?.is_ok();
            if j != (room >= whole) || b != (room >= bins) {
                return Err(format!("with room for {room} bytes JSON of {whole} bytes is {}, bincode of {bins} bytes {}", said(j), said(b)));
            }
            if dump_of(&map) != before {
                return Err("serializing changed the map".into());
            }
            Ok(())
        }
        Ser::Other(a, b) => {
            cx.label("no sequence");
            const BAD: [&str; 16] = [
                "null", "{}", "\"x\"", "5", "true", "[[1,2],null]", "{\"0\":1}", "[{}]", "[[1]]", "[[1,2,3]]", "[1,2]", "[[1,2]] 3", "[[1,2],]", "[[1,70000]]", "[[-1,2]]", "[[1,[2]]]",
            ];
            let t = BAD[*a as usize % BAD.len()];
            cx.trace.push(t.to_string());
            cx.nontrivial = b % 2 == 1;
            let r = if b % 2 == 0 {
                guard(|| serde_json::from_str::<CM>(t)).map_err(|e| format!("reading {t} {e}"))?.is_err()
            } else {
                let Ok(v) = serde_json::from_str::<serde_json::Value>(t) else { return Ok(()) };
                guard(|| serde_json::from_value::<CM>(v)).map_err(|e| format!("reading {t} {e}"))?.is_err()
            };
            if r { Ok(()) } else { Err(format!("{t} is accepted")) }
        }
        Ser::Strings(v) => typed(v, cx),
        Ser::Nested(v) => typed(v, cx),
    }
}
fn filled(ps: &[(u16, u16)]) -> CM {
    let mut m = CM::default();
    for (l, r) in ps {
        m.insert(L::new(*l), R::new(*r));
    }
    m
}
fn said(ok: bool) -> &'static str {
    if ok { "accepted" } else { "refused" }
}
fn dump_of(map: &CM) -> T {
    CF::dump(map, 64, false)
}
fn typed<A, B>(v: &[(A, B)], cx: &mut Ctx) -> Res
where
    A: Clone + Eq + Ord + std::hash::Hash + Serialize + serde::de::DeserializeOwned + std::fmt::Debug,
    B: Clone + Eq + Ord + std::hash::Hash + Serialize + serde::de::DeserializeOwned + std::fmt::Debug,
{
    cx.label("other types");
    let mut want: Vec<(A, B)> = vec![];
    for (a, b) in v {
        want.retain(|x| x.0 != *a && x.1 != *b);
        want.push((a.clone(), b.clone()));
    }
    want.sort();
    cx.nontrivial = v.len() >= 3 && want.len() < v.len();
    cx.trace.push(format!("{v:?}"));
    type Maps<A, B> = CycleMap<A, B>;
    let read = |m: &Maps<A, B>| {
        let mut x: Vec<(A, B)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        x.sort();
        x
    };
    let text = serde_json::to_string(v).unwrap();
    let map: Maps<A, B> = guard(|| serde_json::from_str(&text))?.map_err(|e| format!("reading {text}: {e}"))?;
    if read(&map) != want {
        return Err(format!("{text} reads as {:?}, expected {want:?}", read(&map)));
    }
    let out = guard(|| serde_json::to_string(&map))?.map_err(|e| format!("serializing: {e}"))?;
    let mut seq: Vec<(A, B)> = serde_json::from_str(&out).map_err(|e| format!("serialized as {out}: {e}"))?;
    seq.sort();
    if seq != want {
        return Err(format!("serialized as {out}, contents are {want:?}"));
    }
    let back: Maps<A, B> = guard(|| serde_json::from_str(&out))?.map_err(|e| format!("reading {out}: {e}"))?;
    let bin = guard(|| bincode::serialize(&map))?.map_err(|e| format!("serializing: {e}"))?;
    let back2: Maps<A, B> = guard(|| bincode::deserialize(&bin))?.map_err(|e| format!("reading bincode: {e}"))?;
    if back != map || map != back || back2 != map || read(&back2) != want {
        return Err(format!("the round-trip of {want:?} is not equal"));
    }
    Ok(())
}
fn hint_of(h: u8, n: usize) -> Option<usize> {
    match h {
        0 => Some(n),
        1 => None,
        2 => Some(0),
        3 => Some(n / 2),
        4 => Some(n + 17),
        5 => Some(usize::MAX),
        6 => Some(usize::MAX >> 3),
        _ => Some(1 << 40),
    }
}
/// A format that hands out pairs with whatever length hint it likes.
struct Custom {
    v: Vec<(u16, u16)>,
    i: usize,
    hint: Option<usize>,
    fail: Option<usize>,
    odd: Option<(usize, u8)>,
}
impl<'de> Deserializer<'de> for Custom {
    type Error = serde::de::value::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_seq(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> SeqAccess<'de> for Custom {
    type Error = serde::de::value::Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error> {
        if self.fail == Some(self.i) {
            return Err(Self::Error::custom("planned error"));
        }
        let Some((l, r)) = self.v.get(self.i).copied() else { return Ok(None) };
        let all = [l, r, 5, 6, 7];
        let n = match self.odd {
            Some((i, n)) if i == self.i => n as usize,
            _ => 2,
        };
        self.i += 1;
        let items: Vec<u16> = all[..n.min(5)].to_vec();
        seed.deserialize(SeqDeserializer::new(items.into_iter().map(|x| x.into_deserializer()).map(Wrap))).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
struct Wrap(serde::de::value::U16Deserializer<serde::de::value::Error>);
impl<'de> IntoDeserializer<'de, serde::de::value::Error> for Wrap {
    type Deserializer = serde::de::value::U16Deserializer<serde::de::value::Error>;
    fn into_deserializer(self) -> Self::Deserializer {
        self.0
    }
}

// ---------------------------------------------------------------- C18

pub struct C18;
impl Prop for C18 {
    type Case = AnyProbe;
    const ID: &'static str = "C18";
    const RULE: &'static str = "random histories on all three maps with items that count their live instances; after every operation exactly the stored items may be alive (all returned values were dropped), a clone taken at a random moment lives on beside the map and accounts for its own; drops of dead items and reads of dead items are detected by a canary; at the end nothing may be alive. Non-trivial: >=4 items stored at some time and >=2 operations that displaced or removed something";
    fn cases(t: Tier) -> u64 {
        t.pick(250_000, 5_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(1, 1, 1, t.pick(36, 80), 20, 6)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        anyp!(c, c18, cx)
    }
}
fn c18<F: Fam, S: Bld>(p: &Probe<F::K>, cx: &mut Ctx) -> Res {
    let mut h = p.base.clone();
    h.raw = false;
    let Ok(mut ex) = Ex::<F, S>::new(&h) else { return Ok(()) };
    cx.label(F::NAME);
    let quiet = Chk { ret: false, tags: false, obs: false };
    let at = p.x as usize % (h.ops.len() + 2);
    let mut copy: Option<F::Map<S>> = None;
    let (mut most, mut shrunk) = (0, 0);
    let n = h.ops.len();
    let mut res = Ok(());
    for i in 0..=n {
        if i == at {
            let map = &ex.map;
            match guard(|| F::clone_map(map)) {
                Ok(m) => copy = Some(m),
                Err(_) => return Ok(()),
            }
            ex.trace.push("(a clone is kept)".into());
        }
        let before = F::lens::<S>(&ex.map);
        let mut what = "the prefill".to_string();
        if i > 0 {
            // a wrong or panicking operation is another property's business
            if ex.step(&h.ops[i - 1], quiet).is_err() {
                return Ok(());
            }
            what = ex.trace.last().cloned().unwrap_or_default();
        }
        let now = F::lens::<S>(&ex.map);
        shrunk += (now.0 < before.0 || now.1 < before.1) as u32;
        most = most.max(now.0 + now.1);
        let extra = copy.as_ref().map_or((0, 0), |c| F::lens::<S>(c));
        let want = (now.0 + now.1 + extra.0 + extra.1) as i64;
        if live_total() != want || double_drops() != 0 {
            res = Err(format!("after {what}: {} items are alive, {want} are stored; {} double drops or reads after drop", live_total(), double_drops()));
            break;
        }
    }
    cx.trace = std::mem::take(&mut ex.trace);
    res?;
    let Ex { map, .. } = ex;
    if p.y % 2 == 0 {
        drop(map);
        if let Some(c) = &copy {
            let _ = F::dump(c, h.dom, false);
        }
        drop(copy);
    } else {
        drop(copy);
        let _ = F::dump(&map, h.dom, false);
        drop(map);
    }
    if live_total() != 0 || double_drops() != 0 {
        return Err(format!("after the maps were dropped: {} items alive {:?}, {} double drops or reads after drop", live_total(), live_tags(), double_drops()));
    }
    cx.nontrivial = most >= 4 && shrunk >= 2;
    Ok(())
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pairs {
    pub a: (Option<u16>, Option<u16>),
    pub b: (Option<u16>, Option<u16>),
    pub s: (Option<String>, Option<Vec<u8>>),
    pub k: u16,
}
pub struct C19;
impl Prop for C19 {
    type Case = Pairs;
    const ID: &'static str = "C19";
    const RULE: &'static str = "random pairs of optional components (counted items with instance tags, strings, byte vectors, nested pairs, and eleven further type combinations such as units, equal types, arrays, boxes, references): every conversion there and back, every accessor, equality against (Option, Option), clone, cloned, map, map_left, map_right and convert with functions that count and log their calls; results are compared down to the instance and live instances are counted. Non-trivial: at least one component present in both operands";
    fn cases(t: Tier) -> u64 {
        t.pick(600_000, 10_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Pairs> {
        let o = || proptest::option::weighted(0.65, prop_oneof![0u16..4, any::<u16>()]);
        (
            (o(), o()),
            (o(), o()),
            (proptest::option::weighted(0.7, prop_oneof![any::<String>(), "[ab]{0,2}"]), proptest::option::weighted(0.7, proptest::collection::vec(any::<u8>(), 0..4))),
            any::<u16>(),
        )
            .prop_map(|(a, b, s, k)| Pairs { a, b, s, k })
            .boxed()
    }
    fn run(c: &Pairs, cx: &mut Ctx) -> Res {
        cx.trace.push(format!("{c:?}"));
        cx.nontrivial = (c.a.0.is_some() || c.a.1.is_some()) && (c.b.0.is_some() || c.b.1.is_some());
        guard(|| c19(c))??;
        if live_total() != 0 || double_drops() != 0 {
            return Err(format!("{} items alive at the end, {} double drops", live_total(), double_drops()));
        }
        cx.label(match c.a {
            (None, None) => "neither",
            (Some(_), None) => "left",
            (None, Some(_)) => "right",
            _ => "both",
        });
        Ok(())
    }
}
fn eqs(what: &str, got: impl Tr, want: T) -> Res {
    if got.t() != want {
        return Err(format!("{what} gives {:?}, expected {want:?}", got.t()));
    }
    Ok(())
}
fn ok(what: &str, b: bool) -> Res {
    if b { Ok(()) } else { Err(format!("{what} is wrong")) }
}
type OP<A, B> = OptionalPair<A, B>;
fn raw<A: Eq, B: Eq>(a: Option<A>, b: Option<B>) -> OP<A, B> {
    match (a, b) {
        (None, None) => OptionalPair::Neither,
        (Some(a), None) => OptionalPair::SomeLeft(a),
        (None, Some(b)) => OptionalPair::SomeRight(b),
        (Some(a), Some(b)) => OptionalPair::SomeBoth(a, b),
    }
}
impl From<L> for Named<0> {
    fn from(l: L) -> Self {
        Named(l.key.0, l.tag)
    }
}
impl From<R> for Named<1> {
    fn from(r: R) -> Self {
        Named(r.key.0, r.tag)
    }
}
/// What convert turns the items into.
#[derive(PartialEq, Eq, Debug, Clone)]
struct Named<const S: u8>(u16, u32);
impl<const S: u8> Tr for Named<S> {
    fn t(&self) -> T {
        T::It(S + 10, self.0, self.1)
    }
}
fn c19(c: &Pairs) -> Res {
    let (ta, tb) = (fresh_tag(), fresh_tag());
    let l = || c.a.0.map(|k| L::with_tag(k, ta));
    let r = || c.a.1.map(|k| R::with_tag(k, tb));
    let want = || opair(c.a.0.map(|k| tl((k, ta))), c.a.1.map(|k| tr((k, tb))));
    let tup = || T::Tup(vec![opt(c.a.0.map(|k| tl((k, ta)))), opt(c.a.1.map(|k| tr((k, tb))))]);
    let none = c.a == (None, None);
    // conversions
    eqs("From<(Option, Option)>", OP::from((l(), r())), want())?;
    eqs("From<Option<(Option, Option)>> of Some", OP::from(Some((l(), r()))), want())?;
    eqs("From<Option<(Option, Option)>> of None", OP::<L, R>::from(None::<(Option<L>, Option<R>)>), T::Neither)?;
    eqs("into (Option, Option)", <(Option<L>, Option<R>)>::from(raw(l(), r())), tup())?;
    eqs("into Option<(Option, Option)>", <Option<(Option<L>, Option<R>)>>::from(raw(l(), r())), if none { T::None } else { some(tup()) })?;
    eqs("there and back through (Option, Option)", OP::from(<(Option<L>, Option<R>)>::from(raw(l(), r()))), want())?;
    eqs("there and back through Option<(Option, Option)>", OP::from(<Option<(Option<L>, Option<R>)>>::from(raw(l(), r()))), want())?;
    // accessors
    let p = raw(l(), r());
    ok("is_none", p.is_none() == none)?;
    ok("is_some", p.is_some() != none)?;
    eqs("get_left", p.get_left(), opt(c.a.0.map(|k| tl((k, ta)))))?;
    eqs("get_right", p.get_right(), opt(c.a.1.map(|k| tr((k, tb)))))?;
    if let (OptionalPair::SomeLeft(x) | OptionalPair::SomeBoth(x, _), Some(y)) = (&p, p.get_left()) {
        ok("get_left's address", std::ptr::eq(x, y))?;
    }
    if let (OptionalPair::SomeRight(x) | OptionalPair::SomeBoth(_, x), Some(y)) = (&p, p.get_right()) {
        ok("get_right's address", std::ptr::eq(x, y))?;
    }
    // clones
    eqs("clone", p.clone(), want())?;
    eqs("the cloned-from pair", &p, want())?;
    {
        let refs = raw(p.get_left(), p.get_right());
        eqs("cloned", refs.cloned(), want())?;
    }
    // equality looks at keys only, like the items' own
    let q = raw(c.b.0.map(L::new), c.b.1.map(R::new));
    ok("==", (p == q) == (c.a == c.b) && (q == p) == (c.a == c.b))?;
    ok("!=", (p != q) == (c.a != c.b))?;
    ok("== with itself", p == p.clone())?;
    let mut z = q.clone();
    z.clone_from(&p);
    eqs("clone_from", &z, want())?;
    drop((q, z));
    // maps
    let calls = RefCell::new(Vec::<T>::new());
    let fl = |x: L| {
        calls.borrow_mut().push(x.t());
        Named::<0>(x.key.0 ^ c.k, x.tag)
    };
    let fr = |x: R| {
        calls.borrow_mut().push(x.t());
        Named::<1>(x.key.0 ^ c.k, x.tag)
    };
    let nl = || c.a.0.map(|k| T::It(10, k ^ c.k, ta));
    let nr = || c.a.1.map(|k| T::It(11, k ^ c.k, tb));
    let took = |l: bool, r: bool| {
        let mut v = calls.take();
        v.sort();
        let mut w = vec![];
        if l {
            w.extend(c.a.0.map(|k| tl((k, ta))));
        }
        if r {
            w.extend(c.a.1.map(|k| tr((k, tb))));
        }
        if v != w { Err(format!("the functions were called with {v:?}, expected {w:?}")) } else { Ok(()) }
    };
    eqs("map", p.map(fl, fr), opair(nl(), nr()))?;
    took(true, true)?;
    eqs("map_left", raw(l(), r()).map_left(fl), opair(nl(), c.a.1.map(|k| tr((k, tb)))))?;
    took(true, false)?;
    eqs("map_right", raw(l(), r()).map_right(fr), opair(c.a.0.map(|k| tl((k, ta))), nr()))?;
    took(false, true)?;
    let conv: OP<Named<0>, Named<1>> = raw(l(), r()).convert();
    eqs("convert", conv, opair(c.a.0.map(|k| T::It(10, k, ta)), c.a.1.map(|k| T::It(11, k, tb))))?;
    // other types
    let s = || raw(c.s.0.clone(), c.s.1.clone());
    ok("strings: there and back", OP::from(<(Option<String>, Option<Vec<u8>>)>::from(s())) == s())?;
    ok("strings: into (Option, Option)", <(Option<String>, Option<Vec<u8>>)>::from(s()) == c.s)?;
    ok("strings: Option<(Option, Option)>", <Option<(Option<String>, Option<Vec<u8>>)>>::from(s()) == if c.s == (None, None) { None } else { Some(c.s.clone()) })?;
    ok("strings: get", s().get_left() == c.s.0.as_ref() && s().get_right() == c.s.1.as_ref())?;
    ok("strings: is_none", s().is_none() == (c.s == (None, None)) && s().is_some() != s().is_none())?;
    ok("strings: map", s().map(|a| a.len(), |b| b.len()) == raw(c.s.0.as_ref().map(|a| a.len()), c.s.1.as_ref().map(|b| b.len())))?;
    ok("strings: map_left", s().map_left(|a| a.len()) == raw(c.s.0.as_ref().map(|a| a.len()), c.s.1.clone()))?;
    ok("strings: map_right", s().map_right(|a| a.len()) == raw(c.s.0.clone(), c.s.1.as_ref().map(|b| b.len())))?;
    let conv: OP<Vec<u8>, Box<[u8]>> = s().convert();
    ok("strings: convert", conv == raw(c.s.0.clone().map(|a| a.into_bytes()), c.s.1.clone().map(|b| b.into_boxed_slice())))?;
    // pairs of pairs, as insert returns them
    let n = || raw(c.s.0.clone().map(|a| (a, c.k)), c.s.1.clone().map(|b| (c.k, b)));
    ok("nested: map", n().map(|x| x.1, |x| x.0) == raw(c.s.0.as_ref().map(|_| c.k), c.s.1.as_ref().map(|_| c.k)))?;
    ok("nested: there and back", OP::from(<Option<(Option<(String, u16)>, Option<(u16, Vec<u8>)>)>>::from(n())) == n())?;
    // every function on components of many other types: zero-sized, equal types, big, owning, borrowed, nested options
    let (x, y) = (c.a, c.b);
    every("units", x.0.map(|_| ()), x.1.map(|_| ()))?;
    every("a unit and a number", x.0.map(|_| ()), x.1)?;
    every("a number and a unit", x.0, x.1.map(|_| ()))?;
    every("numbers", x.0, x.1)?;
    every("bools", x.0.map(|k| k % 2 == 0), x.1.map(|k| k % 2 == 0))?;
    every("strings of one type", c.s.0.clone(), c.s.0.clone().filter(|_| c.k % 2 == 0))?;
    every("options", x.0.map(|k| Some(k).filter(|k| k % 2 == 0)), x.1.map(|k| Some(k).filter(|k| k % 2 == 0)))?;
    every("arrays", x.0.map(|k| [k; 40]), x.1.map(|k| [k as u8; 3]))?;
    every("boxes", x.0.map(|k| Box::new(k)), x.1.map(|k| std::rc::Rc::new(k)))?;
    every("references", c.s.0.as_deref(), c.s.1.as_deref())?;
    let inner = |p: (Option<u16>, Option<u16>)| raw(p.0, p.1);
    every("pairs", x.0.map(|_| inner(y)), x.1.map(|_| inner((y.1, y.0))))?;
    ok("same types: sides", (raw(c.a.0, None::<u16>) == raw(None::<u16>, c.a.0)) == c.a.0.is_none())
}
/// Every public function of OptionalPair on components a, b, against the pair (a, b) itself.
fn every<A: Eq + Clone + std::fmt::Debug, B: Eq + Clone + std::fmt::Debug>(what: &str, a: Option<A>, b: Option<B>) -> Res {
    let t = || (a.clone(), b.clone());
    let p = || raw(a.clone(), b.clone());
    let side = |q: &OP<A, B>| match q {
        OptionalPair::Neither => (None, None),
        OptionalPair::SomeLeft(l) => (Some(l.clone()), None),
        OptionalPair::SomeRight(r) => (None, Some(r.clone())),
        OptionalPair::SomeBoth(l, r) => (Some(l.clone()), Some(r.clone())),
    };
    let is = |name: &str, q: OP<A, B>| if side(&q) == t() { Ok(()) } else { Err(format!("{what}: {name} gives {q:?} for {:?}", t())) };
    let yes = |name: &str, v: bool| if v { Ok(()) } else { Err(format!("{what}: {name} is wrong for {:?}", t())) };
    let none = a.is_none() && b.is_none();
    is("From<(Option, Option)>", OP::from(t()))?;
    is("From<Option<(Option, Option)>>", OP::from(Some(t())))?;
    yes("From<None>", OP::<A, B>::from(None::<(Option<A>, Option<B>)>) == OptionalPair::Neither)?;
    yes("into (Option, Option)", <(Option<A>, Option<B>)>::from(p()) == t())?;
    yes("into Option<(Option, Option)>", <Option<(Option<A>, Option<B>)>>::from(p()) == if none { None } else { Some(t()) })?;
    yes("is_none", p().is_none() == none)?;
    yes("is_some", p().is_some() != none)?;
    yes("get_left", p().get_left() == a.as_ref())?;
    yes("get_right", p().get_right() == b.as_ref())?;
    is("clone", p().clone())?;
    yes("==", p() == p() && !(p() != p()))?;
    {
        let q = p();
        is("cloned", raw(q.get_left(), q.get_right()).cloned())?;
    }
    if !none {
        yes("== with Neither", p() != OptionalPair::Neither && OptionalPair::Neither != p())?;
    }
    if a.is_some() && b.is_some() {
        let (l, r) = (raw(a.clone(), None::<B>), raw(None::<A>, b.clone()));
        yes("== across variants", p() != l && l != p() && p() != r && r != p() && l != r && r != l)?;
    }
    // functions into other types, called once each
    let (nl, nr) = (std::cell::Cell::new(0), std::cell::Cell::new(0));
    let fl = |x: A| {
        nl.set(nl.get() + 1);
        (7u8, x)
    };
    let fr = |x: B| {
        nr.set(nr.get() + 1);
        (x, 9u16)
    };
    let (wl, wr) = (a.is_some() as u32, b.is_some() as u32);
    yes("map", p().map(fl, fr) == raw(a.clone().map(|x| (7, x)), b.clone().map(|x| (x, 9))))?;
    yes("map's calls", (nl.take(), nr.take()) == (wl, wr))?;
    yes("map_left", p().map_left(fl) == raw(a.clone().map(|x| (7, x)), b.clone()))?;
    yes("map_left's calls", nl.take() == wl)?;
    yes("map_right", p().map_right(fr) == raw(a.clone(), b.clone().map(|x| (x, 9))))?;
    yes("map_right's calls", nr.take() == wr)?;
    yes("map_left to units", p().map_left(|_| ()) == raw(a.as_ref().map(|_| ()), b.clone()))?;
    yes("map_right to units", p().map_right(|_| ()) == raw(a.clone(), b.as_ref().map(|_| ())))?;
    yes("map to units", p().map(|_| (), |_| ()) == raw(a.as_ref().map(|_| ()), b.as_ref().map(|_| ())))?;
    is("convert to the same types", p().convert::<A, B>())?;
    yes("convert to boxes", p().convert::<Box<A>, std::rc::Rc<B>>() == raw(a.clone().map(Box::new), b.clone().map(std::rc::Rc::new)))?;
    yes("convert to options", p().convert::<Option<A>, Option<B>>() == raw(a.clone().map(Some), b.clone().map(Some)))?;
    // Debug shows which components there are and nothing else
    let text = format!("{:?}", p());
    let want = [a.as_ref().map(|x| format!("{x:?}")), b.as_ref().map(|x| format!("{x:?}"))];
    for w in want.into_iter().flatten() {
        yes("Debug", text.contains(&w))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

/// Operations with a callback.
pub trait PanicFam: BulkFam {
    const CALLS: &'static [&'static str];
    /// Runs operation `which` with a filter that says whether an entry goes.
    fn filter<S: Bld>(map: &mut Self::Map<S>, which: usize, f: &mut dyn FnMut(Option<V>, Option<V>) -> bool, pulls: usize);
    /// Which sides of a selected entry go.
    fn scope(which: usize) -> (bool, bool);
}
impl PanicFam for CF {
    const CALLS: &'static [&'static str] = &["retain", "drain_filter"];
    fn filter<S: Bld>(map: &mut Self::Map<S>, which: usize, f: &mut dyn FnMut(Option<V>, Option<V>) -> bool, pulls: usize) {
        if which == 0 {
            map.retain(|l, r| !f(Some(l.v()), Some(r.v())))
        } else {
            map.drain_filter(|l, r| f(Some(l.v()), Some(r.v()))).take(pulls).for_each(drop)
        }
    }
    fn scope(_: usize) -> (bool, bool) {
        (true, true)
    }
}
impl PanicFam for PF {
    const CALLS: &'static [&'static str] = &["drain_filter", "retain", "retain_paired", "retain_unpaired"];
    fn filter<S: Bld>(map: &mut Self::Map<S>, which: usize, f: &mut dyn FnMut(Option<V>, Option<V>) -> bool, pulls: usize) {
        let mut g = |p: &OptionalPair<&L, &R>| f(p.get_left().map(|x| x.v()), p.get_right().map(|x| x.v()));
        match which {
            0 => map.drain_filter(|p| g(&p)).take(pulls).for_each(drop),
            1 => map.retain(g),
            2 => map.retain_paired(|l, r| f(Some(l.v()), Some(r.v()))),
            _ => map.retain_unpaired(g),
        }
    }
    fn scope(_: usize) -> (bool, bool) {
        (true, true)
    }
}
impl PanicFam for GF {
    const CALLS: &'static [&'static str] = &["retain_paired", "retain_unpaired"];
    fn filter<S: Bld>(map: &mut Self::Map<S>, which: usize, f: &mut dyn FnMut(Option<V>, Option<V>) -> bool, _: usize) {
        if which == 0 {
            map.retain_paired(|l, r| f(Some(l.v()), Some(r.v())))
        } else {
            map.retain_unpaired(|r| f(None, Some(r.v())))
        }
    }
    fn scope(which: usize) -> (bool, bool) {
        if which == 0 { (true, false) } else { (false, true) }
    }
}
pub struct C24;
impl Prop for C24 {
    type Case = AnyProbe;
    const ID: &'static str = "C24";
    const RULE: &'static str = "a random history builds one of the maps; one of its retain or drain_filter operations runs with a closure that panics at a random call, or extend (or collect) runs with an iterator that panics at a random element; after catching the panic the relation is read off the map: it must be consistent, what is gone must be exactly whole entries that the closure had selected, the entry of the panic must be there, an extend must have inserted a prefix, live instances must equal stored ones, and a random continuation must agree with a freshly built map. Non-trivial: the panic happened and >=3 entries were stored";
    fn cases(t: Tier) -> u64 {
        t.pick(180_000, 3_500_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<AnyProbe> {
        any_probe(1, 2, 1, t.pick(20, 40), 16, 8)
    }
    fn run(c: &AnyProbe, cx: &mut Ctx) -> Res {
        match c {
            AnyProbe::C(p) => bld!(p.base.hasher, S => c24::<CF, S>(p, cx)),
            AnyProbe::P(p) => bld!(p.base.hasher, S => c24::<PF, S>(p, cx)),
            AnyProbe::G(p) => bld!(p.base.hasher, S => c24::<GF, S>(p, cx)),
        }
    }
}
/// Yields entries, then panics.
struct Bomb<X> {
    v: std::vec::IntoIter<X>,
    left: usize,
}
impl<X> Iterator for Bomb<X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        if self.left == 0 {
            std::panic::panic_any(PLANNED);
        }
        self.left -= 1;
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.v.len() / 2, None)
    }
}
pub fn planned(r: std::thread::Result<()>) -> Res<bool> {
    match r {
        Ok(()) => Ok(false),
        Err(e) if e.downcast_ref::<&str>() == Some(&PLANNED) => Ok(true),
        Err(_) => Err(format!("panicked on its own: {}", PANIC_MSG.with(|m| m.borrow().clone()))),
    }
}
pub fn balance<F: Fam, S: Bld>(map: &F::Map<S>, what: &str) -> Res {
    let (l, r) = F::lens::<S>(map);
    if live_total() != (l + r) as i64 || double_drops() != 0 {
        return Err(format!("after {what}: {} items are alive, {} are stored; {} double drops", live_total(), l + r, double_drops()));
    }
    Ok(())
}
fn c24<F: PanicFam, S: Bld>(p: &Probe<F::K>, cx: &mut Ctx) -> Res
where
    F::M: Contents,
{
    with_base::<F, S>(p, cx, |ex, p, cx| {
        let entries = F::entries(&ex.m);
        let n = entries.len();
        let which = (p.x % (F::CALLS.len() as u32 + 1)) as usize;
        if which == F::CALLS.len() {
            return c24_extend::<F, S>(ex, p, cx);
        }
        let at = (p.x >> 4) as usize % (n + 1);
        let pulls = if p.x >> 28 < 8 { usize::MAX } else { (p.x >> 20) as usize % (n + 1) };
        let name = F::CALLS[which];
        let what = format!("{name} panicking at call {at} (taking {})", if pulls == usize::MAX { "all".into() } else { pulls.to_string() });
        ex.trace.push(what.clone());
        let mut sel: Vec<Entry> = vec![];
        let mut hit: Option<Entry> = None;
        let mut calls = 0usize;
        let mut f = |l: Option<V>, r: Option<V>| {
            calls += 1;
            if calls == at + 1 {
                hit = Some((l, r));
                std::panic::panic_any(PLANNED);
            }
            let b = stateful(p.y, calls, l.map(|x| x.0), r.map(|x| x.0));
            if b {
                sel.push((l, r));
            }
            b
        };
        let map = &mut ex.map;
        let threw = planned(catch_unwind(AssertUnwindSafe(|| F::filter::<S>(map, which, &mut f, pulls)))).map_err(|e| format!("{what} {e}"))?;
        if hit.is_some() != threw {
            return Err(format!("{what}: the panic did not reach the caller"));
        }
        if !threw {
            return Ok(());
        }
        let hit = hit.unwrap();
        cx.label(&format!("{}.{name}", F::NAME));
        cx.nontrivial = n >= 3;
        balance::<F, S>(&ex.map, &what)?;
        let dom = ex.dom;
        let map = &ex.map;
        let after = guard(|| F::extract::<S>(map, dom)).map_err(|e| format!("after {what}: {e}"))?.map_err(|e| format!("after {what}: {e}"))?;
        let scope = F::scope(which);
        let sides = |e: &Entry| {
            let mut v = vec![];
            if scope.0 {
                v.extend(e.0.map(tl));
            }
            if scope.1 {
                v.extend(e.1.map(tr));
            }
            v
        };
        let allowed: Vec<T> = sel.iter().flat_map(sides).collect();
        let (old, new) = (ex.m.contents(), after.contents());
        for (item, partner) in &old {
            match new.iter().find(|x| x.0 == *item) {
                None if !allowed.contains(item) => return Err(format!("{item:?} is gone after {what}, but the closure did not select it")),
                None => {}
                Some((_, q)) if q != partner => {
                    // a GroupMap pair that was dropped leaves its right item unpaired, which contents() does not mention
                    return Err(format!("{item:?} was paired with {partner:?} before {what}, afterwards with {q:?}"));
                }
                Some(_) => {}
            }
        }
        if let Some(x) = new.iter().find(|x| !old.iter().any(|y| y.0 == x.0)) {
            return Err(format!("{:?} appeared during {what}", x.0));
        }
        for t in [hit.0.map(tl), hit.1.map(tr)].into_iter().flatten() {
            if !new.iter().any(|x| x.0 == t) {
                return Err(format!("{t:?} is gone after {what}, although the closure panicked on it"));
            }
        }
        ex.m = after;
        ex.observe(true, true).map_err(|e| format!("after {what}: {e}"))?;
        tail_diff(ex, p.base.hasher, &p.tail)?;
        balance::<F, S>(&ex.map, "the continuation")
    })
}
/// Every item with its partner (left items of a GroupMap; both sides otherwise).
pub trait Contents {
    fn contents(&self) -> Vec<(T, Option<T>)>;
}
impl Contents for PM {
    fn contents(&self) -> Vec<(T, Option<T>)> {
        let mut v: Vec<_> = self.l.keys().map(|k| (tl(self.lv(*k)), self.l[k].1.map(|p| tr(self.rv(p))))).collect();
        v.extend(self.r.keys().map(|k| (tr(self.rv(*k)), self.r[k].1.map(|p| tl(self.lv(p))))));
        v
    }
}
impl Contents for GM {
    fn contents(&self) -> Vec<(T, Option<T>)> {
        let mut v: Vec<_> = self.l.keys().map(|k| (tl(self.lv(*k)), Some(tr(self.rv(self.l[k].1))))).collect();
        v.extend(self.r.keys().map(|k| (tr(self.rv(*k)), None)));
        v
    }
}
fn c24_extend<F: PanicFam, S: Bld>(ex: &mut Ex<F, S>, p: &Probe<F::K>, cx: &mut Ctx) -> Res
where
    F::M: Contents,
{
    let opt = p.y & 1 == 1;
    let mut s = mix(p.y as u64);
    let len = 1 + (p.y >> 8) as usize % 9;
    let mut list: Vec<Entry> = vec![];
    for _ in 0..len {
        s = mix(s);
        let l = ((s >> 8) % ex.dom as u64) as u16;
        let r = ((s >> 28) % ex.dom as u64) as u16;
        let drop = if opt { s & 7 } else { 7 };
        let (lt, rt) = (fresh_tag(), fresh_tag());
        list.push(((drop != 0).then_some((l, lt)), (drop != 1).then_some((r, rt))));
    }
    let start = if p.x & 0x100 == 0 { ex.m.clone() } else { F::M::default() };
    let list = F::fix(&start, list, opt);
    let at = (p.x >> 12) as usize % (list.len() + 1);
    let collect = p.x & 0x100 != 0;
    let what = format!("{} of {list:?} whose iterator panics after {at}", if collect { "collect" } else { "extend" });
    ex.trace.push(what.clone());
    if collect {
        let live = live_total();
        let threw = planned(catch_unwind(AssertUnwindSafe(|| drop(F::collect_bomb(list, opt, at))))).map_err(|e| format!("{what} {e}"))?;
        if !threw {
            return Err(format!("{what}: the panic did not reach the caller"));
        }
        if live_total() != live || double_drops() != 0 {
            return Err(format!("{what}: {} items alive, {live} before; {} double drops", live_total(), double_drops()));
        }
        cx.label(&format!("{}.collect", F::NAME));
        cx.nontrivial = at >= 2;
        return Ok(());
    }
    let map = &mut ex.map;
    let l2 = list.clone();
    let threw = planned(catch_unwind(AssertUnwindSafe(|| F::extend_bomb::<S>(map, l2, opt, at)))).map_err(|e| format!("{what} {e}"))?;
    if !threw {
        return Err(format!("{what}: the panic did not reach the caller"));
    }
    cx.label(&format!("{}.extend", F::NAME));
    cx.nontrivial = F::msize(&ex.m) >= 3;
    balance::<F, S>(&ex.map, &what)?;
    let dom = ex.dom;
    let map = &ex.map;
    let after = guard(|| F::extract::<S>(map, dom)).map_err(|e| format!("after {what}: {e}"))?.map_err(|e| format!("after {what}: {e}"))?;
    // a prefix of the yielded entries was inserted
    let mut twin = F::clone_map(&ex.map);
    F::clear::<S>(&mut twin);
    drop(twin);
    let mut good = false;
    let mut m = ex.m.clone();
    for j in 0..=at {
        if j > 0 {
            F::model_add(&mut m, list[j - 1]);
        }
        good |= m == after;
    }
    if !good {
        return Err(format!("after {what} the contents are {after:?}, which is no prefix of the insertions"));
    }
    ex.m = after;
    ex.observe(true, true).map_err(|e| format!("after {what}: {e}"))?;
    tail_diff(ex, p.base.hasher, &p.tail)?;
    balance::<F, S>(&ex.map, "the continuation")
}
pub fn bomb<X>(v: Vec<X>, left: usize) -> impl Iterator<Item = X> {
    Bomb { v: v.into_iter(), left }
}
