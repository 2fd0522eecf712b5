//! C26: maps of more than 2^16 entries over plain numbers, against arrays.
use crate::driver::*;
use crate::items::mix;
use crate::props_cap::Big;
use cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};

const NO: u32 = u32::MAX;
type Res = Result<(), String>;
/// Right items have another type than left ones.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Rt(pub u32);

/// What is stored and who is paired with whom; NO for nobody.
struct Two {
    inl: Vec<bool>,
    inr: Vec<bool>,
    l2r: Vec<u32>,
    r2l: Vec<u32>,
}
impl Two {
    fn new(n: usize) -> Self {
        Two { inl: vec![false; n], inr: vec![false; n], l2r: vec![NO; n], r2l: vec![NO; n] }
    }
    fn drop_l(&mut self, l: u32) {
        self.inl[l as usize] = false;
        let r = std::mem::replace(&mut self.l2r[l as usize], NO);
        if r != NO {
            self.r2l[r as usize] = NO;
        }
    }
    fn drop_r(&mut self, r: u32) {
        self.inr[r as usize] = false;
        let l = std::mem::replace(&mut self.r2l[r as usize], NO);
        if l != NO {
            self.l2r[l as usize] = NO;
        }
    }
    /// removes both, with whatever they are paired with
    fn evict(&mut self, l: u32, r: u32) {
        let (pr, pl) = (self.l2r[l as usize], self.r2l[r as usize]);
        self.drop_l(l);
        self.drop_r(r);
        if pr != NO {
            self.drop_r(pr);
        }
        if pl != NO {
            self.drop_l(pl);
        }
    }
    fn put(&mut self, l: u32, r: u32) {
        self.inl[l as usize] = true;
        self.inr[r as usize] = true;
        self.l2r[l as usize] = r;
        self.r2l[r as usize] = l;
    }
    fn count(v: &[bool]) -> usize {
        v.iter().filter(|x| **x).count()
    }
}
fn keep(seed: u64, x: u32, eighths: u64) -> bool {
    mix(seed ^ x as u64) % 8 < eighths
}

fn cycle(c: &Big, n: usize, trace: &mut Vec<String>) -> Res {
    let mut map: CycleMap<u32, Rt> = if c.cap == 0 { CycleMap::new() } else { CycleMap::with_capacity(n) };
    let mut m = Two::new(n);
    let check = |map: &CycleMap<u32, Rt>, m: &Two| -> Res {
        let have = Two::count(&m.inl);
        if map.len() != have || map.is_empty() != (have == 0) || map.iter().len() != have {
            return Err(format!("len {} and iter().len() {}, expected {have}", map.len(), map.iter().len()));
        }
        let mut seen = 0;
        for (l, r) in map.iter() {
            seen += 1;
            if m.l2r[*l as usize] != r.0 || m.r2l[r.0 as usize] != *l {
                return Err(format!("iter yields ({l}, {r:?}), which are not paired"));
            }
        }
        if seen != have || map.iter_left().count() != have || map.iter_right().count() != have {
            return Err(format!("iter yields {seen} pairs of {have}"));
        }
        for k in 0..n as u32 {
            let r = map.get_right(&k).map_or(NO, |r| r.0);
            let l = map.get_left(&Rt(k)).map_or(NO, |l| *l);
            if r != m.l2r[k as usize] || l != m.r2l[k as usize] || map.contains_left(&k) != m.inl[k as usize] || map.contains_right(&Rt(k)) != m.inr[k as usize] {
                return Err(format!("left {k} is paired with {r}, expected {}; right {k} with {l}, expected {}", m.l2r[k as usize], m.r2l[k as usize]));
            }
        }
        Ok(())
    };
    for (i, p) in c.phases.iter().enumerate() {
        let s = mix(p.seed);
        let what = match p.kind % 8 {
            0 | 1 => {
                let shift = s as usize % n;
                for l in 0..n as u32 {
                    let r = ((l as usize + shift) % n) as u32;
                    m.evict(l, r);
                    m.put(l, r);
                    map.insert(l, Rt(r));
                }
                "every left item inserted with another right item"
            }
            2 => {
                map.retain(|l, _| keep(s, *l, 7));
                for l in 0..n as u32 {
                    if m.inl[l as usize] && !keep(s, l, 7) {
                        let r = m.l2r[l as usize];
                        m.evict(l, r);
                    }
                }
                "retain"
            }
            3 => {
                let mut out = map.drain_filter(|l, _| keep(s, *l, 1)).count();
                for l in 0..n as u32 {
                    if m.inl[l as usize] && keep(s, l, 1) {
                        let r = m.l2r[l as usize];
                        m.evict(l, r);
                        out = out.wrapping_sub(1);
                    }
                }
                if out != 0 {
                    return Err(format!("phase {i}: drain_filter yielded {} entries too many", out as isize));
                }
                "drain_filter"
            }
            4 => {
                for l in 0..n as u32 {
                    if keep(s, l, 2) {
                        let r = m.l2r[l as usize];
                        let got = if l % 2 == 0 || r == NO { map.remove_via_left(&l) } else { map.remove_via_right(&Rt(r)) };
                        if got.map_or(NO, |g| g.1 .0) != r {
                            return Err(format!("phase {i}: removing {l} gives {got:?}, its partner was {r}"));
                        }
                        if r != NO {
                            m.evict(l, r);
                        }
                    }
                }
                "every fourth removed"
            }
            5 => {
                for l in 0..n as u32 {
                    let r = m.l2r[l as usize];
                    let new = (mix(s ^ l as u64) % n as u64) as u32;
                    if r != NO && !m.inr[new as usize] {
                        map.swap_right(&Rt(r), Rt(new));
                        m.evict(l, r);
                        m.put(l, new);
                    }
                }
                "right items swapped for absent ones"
            }
            6 => {
                let copy = map.clone();
                if copy != map || map != copy {
                    return Err(format!("phase {i}: a clone is not equal"));
                }
                map = copy;
                map.shrink_to_fit();
                "cloned and shrunk"
            }
            _ => {
                let have = map.len();
                let mut d = map.drain();
                let mut seen = 0;
                while let Some((l, r)) = d.next() {
                    seen += 1;
                    if m.l2r[l as usize] != r.0 || d.len() != have - seen {
                        return Err(format!("phase {i}: drain yields ({l}, {r:?}), {} to come, after {seen} of {have}", d.len()));
                    }
                }
                if seen != have {
                    return Err(format!("phase {i}: drain yields {seen} of {have}"));
                }
                m = Two::new(n);
                "drained"
            }
        };
        trace.push(format!("phase {i}: {what}"));
        check(&map, &m).map_err(|e| format!("after phase {i} ({what}): {e}"))?;
    }
    Ok(())
}

fn partial(c: &Big, n: usize, trace: &mut Vec<String>) -> Res {
    type M = PartialCycleMap<u32, Rt>;
    let mut map: M = if c.cap == 0 { M::new() } else { M::with_capacity(n) };
    let mut m = Two::new(n);
    let check = |map: &M, m: &Two| -> Res {
        let (hl, hr) = (Two::count(&m.inl), Two::count(&m.inr));
        let pairs = m.l2r.iter().filter(|r| **r != NO).count();
        if map.len_left() != hl || map.len_right() != hr || map.is_empty() != (hl + hr == 0) {
            return Err(format!("lengths {} and {}, expected {hl} and {hr}", map.len_left(), map.len_right()));
        }
        let mut seen = 0;
        for e in map.iter() {
            seen += 1;
            let ok = match e {
                OptionalPair::SomeBoth(l, r) => m.l2r[*l as usize] == r.0 && m.r2l[r.0 as usize] == *l,
                OptionalPair::SomeLeft(l) => m.inl[*l as usize] && m.l2r[*l as usize] == NO,
                OptionalPair::SomeRight(r) => m.inr[r.0 as usize] && m.r2l[r.0 as usize] == NO,
                _ => false,
            };
            if !ok {
                return Err(format!("iter yields {e:?}, which is not an entry"));
            }
        }
        if seen != hl + hr - pairs || map.iter_paired().count() != pairs || map.iter_unpaired().count() != hl + hr - 2 * pairs || map.iter_left().len() != hl || map.iter_right().len() != hr {
            return Err(format!("iter yields {seen} entries of {}, iter_paired {} of {pairs}", hl + hr - pairs, map.iter_paired().count()));
        }
        for k in 0..n as u32 {
            let r = map.get_right(&k).map_or(NO, |r| r.0);
            let l = map.get_left(&Rt(k)).map_or(NO, |l| *l);
            if r != m.l2r[k as usize] || l != m.r2l[k as usize] || map.contains_left(&k) != m.inl[k as usize] || map.contains_right(&Rt(k)) != m.inr[k as usize] {
                return Err(format!("left {k} is paired with {r}, expected {}; right {k} with {l}, expected {}", m.l2r[k as usize], m.r2l[k as usize]));
            }
        }
        Ok(())
    };
    for (i, p) in c.phases.iter().enumerate() {
        let s = mix(p.seed);
        let what = match p.kind % 8 {
            0 | 1 => {
                let shift = s as usize % n;
                for l in 0..n as u32 {
                    let r = ((l as usize + shift) % n) as u32;
                    m.evict(l, r);
                    m.put(l, r);
                    map.insert(l, Rt(r));
                }
                "every left item inserted with another right item"
            }
            2 => {
                for l in 0..n as u32 {
                    let r = m.l2r[l as usize];
                    if r != NO && keep(s, l, 3) {
                        if !map.unpair(&l, &Rt(r)) {
                            return Err(format!("phase {i}: unpair({l}, {r}) is refused"));
                        }
                        m.l2r[l as usize] = NO;
                        m.r2l[r as usize] = NO;
                    }
                }
                "three eighths unpaired"
            }
            3 => {
                for k in 0..n as u32 {
                    if !m.inl[k as usize] {
                        map.insert_left(k);
                        m.inl[k as usize] = true;
                    }
                    if !m.inr[k as usize] && keep(s, k, 6) {
                        map.insert_right(Rt(k));
                        m.inr[k as usize] = true;
                    }
                }
                "single items added"
            }
            4 => {
                let shift = s as usize % n;
                for l in 0..n as u32 {
                    let r = ((l as usize + shift) % n) as u32;
                    if m.inl[l as usize] && m.inr[r as usize] && m.l2r[l as usize] == NO && m.r2l[r as usize] == NO {
                        if !map.pair(&l, &Rt(r)) {
                            return Err(format!("phase {i}: pair({l}, {r}) is refused"));
                        }
                        m.put(l, r);
                    } else if m.inl[l as usize] && m.inr[r as usize] && m.l2r[l as usize] != r && keep(s, l, 2) {
                        map.pair_forced(&l, &Rt(r));
                        let (pr, pl) = (m.l2r[l as usize], m.r2l[r as usize]);
                        if pr != NO {
                            m.r2l[pr as usize] = NO;
                        }
                        if pl != NO {
                            m.l2r[pl as usize] = NO;
                        }
                        m.put(l, r);
                    }
                }
                "unpaired items paired, some by force"
            }
            5 => {
                for k in 0..n as u32 {
                    match mix(s ^ k as u64) % 12 {
                        0 => {
                            let want = m.inl[k as usize].then_some(k);
                            if map.remove_left(&k) != want {
                                return Err(format!("phase {i}: remove_left({k}) does not give {want:?}"));
                            }
                            m.drop_l(k);
                        }
                        1 => {
                            let r = m.l2r[k as usize];
                            map.remove_via_left(&k);
                            m.drop_l(k);
                            if r != NO {
                                m.drop_r(r);
                            }
                        }
                        2 => {
                            map.remove_right(&Rt(k));
                            m.drop_r(k);
                        }
                        3 => {
                            let l = m.r2l[k as usize];
                            map.remove_via_right(&Rt(k));
                            m.drop_r(k);
                            if l != NO {
                                m.drop_l(l);
                            }
                        }
                        _ => {}
                    }
                }
                "a third removed"
            }
            6 => {
                let copy = map.clone();
                if copy != map || map != copy {
                    return Err(format!("phase {i}: a clone is not equal"));
                }
                map = copy;
                map.shrink_to_fit();
                "cloned and shrunk"
            }
            _ => {
                let (hl, hr) = (Two::count(&m.inl), Two::count(&m.inr));
                let want = hl + hr - m.l2r.iter().filter(|r| **r != NO).count();
                let (mut seen, mut bad) = (0, None);
                for e in map.drain() {
                    seen += 1;
                    let ok = match e {
                        OptionalPair::SomeBoth(l, r) => m.l2r[l as usize] == r.0,
                        OptionalPair::SomeLeft(l) => m.inl[l as usize] && m.l2r[l as usize] == NO,
                        OptionalPair::SomeRight(r) => m.inr[r.0 as usize] && m.r2l[r.0 as usize] == NO,
                        _ => false,
                    };
                    if !ok {
                        bad = Some(e);
                    }
                }
                if seen != want || bad.is_some() {
                    return Err(format!("phase {i}: drain yields {seen} of {want}, among them {bad:?}"));
                }
                m = Two::new(n);
                "drained"
            }
        };
        trace.push(format!("phase {i}: {what}"));
        check(&map, &m).map_err(|e| format!("after phase {i} ({what}): {e}"))?;
    }
    Ok(())
}

fn group(c: &Big, n: usize, trace: &mut Vec<String>) -> Res {
    type M = GroupMap<u32, Rt>;
    let mut map: M = if c.cap == 0 { M::new() } else { M::with_capacity(n) };
    // whose group a left item is in, and how large each group is
    let mut l2r = vec![NO; n];
    let mut size = vec![NO; n];
    let check = |map: &M, l2r: &[u32], size: &[u32]| -> Res {
        let (hl, hr) = (l2r.iter().filter(|r| **r != NO).count(), size.iter().filter(|s| **s != NO).count());
        if map.len_left() != hl || map.len_right() != hr || map.is_empty() != (hl + hr == 0) {
            return Err(format!("lengths {} and {}, expected {hl} and {hr}", map.len_left(), map.len_right()));
        }
        let lone = size.iter().filter(|s| **s == 0).count();
        if map.iter().count() != hl + lone || map.iter_left().count() != hl || map.iter_right().count() != hr || map.iter_paired().len() != hl || map.iter_unpaired().count() != lone {
            return Err(format!("the iterators yield {} entries, {} pairs, {} single items; expected {}, {hl}, {lone}", map.iter().count(), map.iter_paired().count(), map.iter_unpaired().count(), hl + lone));
        }
        if let Some((l, r)) = map.iter_paired().find(|(l, r)| l2r[**l as usize] != r.0) {
            return Err(format!("iter_paired yields ({l}, {r:?})"));
        }
        for k in 0..n as u32 {
            let r = map.get_right(&k).map_or(NO, |r| r.0);
            if r != l2r[k as usize] || map.contains_left(&k) != (r != NO) {
                return Err(format!("left {k} is paired with {r}, expected {}", l2r[k as usize]));
            }
            let sz = size[k as usize];
            if map.contains_right(&Rt(k)) != (sz != NO) || map.is_right_paired(&Rt(k)) != (sz != NO && sz > 0) {
                return Err(format!("right {k}: stored {}, paired {}, expected a group of {sz}", map.contains_right(&Rt(k)), map.is_right_paired(&Rt(k))));
            }
            if let Some(it) = map.get_left_iter(&Rt(k)) {
                let len = it.len();
                let mut seen = 0;
                for l in it {
                    seen += 1;
                    if l2r[*l as usize] != k {
                        return Err(format!("the group of {k} contains {l}"));
                    }
                }
                if seen != sz || len as u32 != sz {
                    return Err(format!("the group of {k} has {seen} items, len {len}, expected {sz}"));
                }
            } else if sz != NO {
                return Err(format!("right {k} has no group"));
            }
        }
        Ok(())
    };
    for (i, p) in c.phases.iter().enumerate() {
        let s = mix(p.seed);
        // one group for all, large ones, or many
        let groups = [1u64, 3, 40, n as u64 / 2][(s >> 40) as usize % 4];
        let what = match p.kind % 8 {
            0 | 1 | 2 => {
                for l in 0..n as u32 {
                    let r = (mix(s ^ l as u64) % groups) as u32;
                    if l2r[l as usize] == r || p.kind % 8 == 2 && keep(s, l, 4) {
                        continue;
                    }
                    let fresh = size[r as usize] == NO;
                    if fresh || keep(s, l, 3) {
                        map.insert(l, Rt(r));
                    } else if l2r[l as usize] != NO {
                        if !map.pair(&l, &Rt(r)) {
                            return Err(format!("phase {i}: pair({l}, {r}) is refused"));
                        }
                    } else {
                        map.insert_left(l, &Rt(r));
                    }
                    let old = std::mem::replace(&mut l2r[l as usize], r);
                    if old != NO {
                        size[old as usize] -= 1;
                    }
                    size[r as usize] = if fresh { 1 } else { size[r as usize] + 1 };
                }
                "left items put into groups"
            }
            3 => {
                map.retain_paired(|l, _| !keep(s, *l, 7));
                for l in 0..n as u32 {
                    if l2r[l as usize] != NO && !keep(s, l, 7) {
                        let r = std::mem::replace(&mut l2r[l as usize], NO);
                        size[r as usize] -= 1;
                    }
                }
                "retain_paired"
            }
            4 => {
                for l in 0..n as u32 {
                    if keep(s, l, 2) {
                        let r = std::mem::replace(&mut l2r[l as usize], NO);
                        let want = (r != NO).then_some(l);
                        if map.remove_left(&l) != want {
                            return Err(format!("phase {i}: remove_left({l}) does not give {want:?}"));
                        }
                        if r != NO {
                            size[r as usize] -= 1;
                        }
                    }
                }
                "every fourth left item removed"
            }
            5 => {
                for r in 0..n as u32 {
                    let sz = size[r as usize];
                    if sz != NO && keep(s, r, 2) {
                        match map.remove_right(&Rt(r)) {
                            Some((set, x)) if x == Rt(r) && set.len() as u32 == sz => {
                                for l in set {
                                    if std::mem::replace(&mut l2r[l as usize], NO) != r {
                                        return Err(format!("phase {i}: remove_right({r}) gives {l}"));
                                    }
                                }
                            }
                            o => return Err(format!("phase {i}: remove_right({r}) gives {:?} items of {sz}", o.map(|o| o.0.len()))),
                        }
                        size[r as usize] = NO;
                    }
                }
                "every fourth group removed"
            }
            6 => {
                let copy = map.clone();
                if copy != map || map != copy {
                    return Err(format!("phase {i}: a clone is not equal"));
                }
                map = copy;
                "cloned"
            }
            _ => {
                for k in 0..n as u32 {
                    let new = (mix(s ^ k as u64) % n as u64) as u32;
                    if size[k as usize] != NO && size[new as usize] == NO {
                        if map.swap_right_remove(&Rt(k), Rt(new)) != Some(Rt(k)) {
                            return Err(format!("phase {i}: swap_right_remove({k}, {new}) does not give the old item"));
                        }
                        size[new as usize] = std::mem::replace(&mut size[k as usize], NO);
                        if size[new as usize] > 0 {
                            if (size[new as usize] as usize) < n / 64 {
                                let ls: Vec<u32> = map.get_left_iter(&Rt(new)).map(|x| x.copied().collect()).unwrap_or_default();
                                for l in ls {
                                    if l2r[l as usize] != k {
                                        return Err(format!("phase {i}: after swap_right_remove({k}, {new}) the group has {l}"));
                                    }
                                    l2r[l as usize] = new;
                                }
                            } else {
                                l2r.iter_mut().filter(|r| **r == k).for_each(|r| *r = new);
                            }
                        }
                    }
                }
                "right items swapped for absent ones"
            }
        };
        trace.push(format!("phase {i}: {what} ({groups} groups)"));
        check(&map, &l2r, &size).map_err(|e| format!("after phase {i} ({what}): {e}"))?;
    }
    Ok(())
}

/// fam 3..6, dom in thousands of keys.
pub fn huge(c: &Big, cx: &mut Ctx) -> Res {
    let n = c.dom as usize * 1000;
    let mut trace = vec![format!("{n} keys")];
    let r = crate::base::guard(|| match c.fam % 3 {
        0 => cycle(c, n, &mut trace),
        1 => partial(c, n, &mut trace),
        _ => group(c, n, &mut trace),
    })
    .and_then(|r| r);
    cx.label("more than 2^16 entries");
    cx.trace = trace;
    cx.nontrivial = true;
    r
}
