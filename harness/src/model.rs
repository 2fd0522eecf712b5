//! Reference models.  `PM` serves CycleMap (everything paired) and PartialCycleMap; `GM` serves GroupMap.
use crate::items::V;
use crate::tree::*;
use std::collections::{BTreeMap, BTreeSet};

/// left key -> (tag, partner), right key -> (tag, partner)
#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct PM {
    pub l: BTreeMap<u16, (u32, Option<u16>)>,
    pub r: BTreeMap<u16, (u32, Option<u16>)>,
}

impl PM {
    pub fn lv(&self, k: u16) -> V {
        (k, self.l[&k].0)
    }
    pub fn rv(&self, k: u16) -> V {
        (k, self.r[&k].0)
    }
    pub fn paired(&self, l: u16, r: u16) -> bool {
        matches!(self.l.get(&l), Some((_, Some(p))) if *p == r)
    }
    pub fn l_paired(&self, l: u16) -> bool {
        matches!(self.l.get(&l), Some((_, Some(_))))
    }
    pub fn r_paired(&self, r: u16) -> bool {
        matches!(self.r.get(&r), Some((_, Some(_))))
    }
    /// Takes a left item and its partner.
    pub fn take_l(&mut self, k: u16) -> (Option<V>, Option<V>) {
        match self.l.remove(&k) {
            None => (None, None),
            Some((t, p)) => {
                let r = p.map(|rk| (rk, self.r.remove(&rk).unwrap().0));
                (Some((k, t)), r)
            }
        }
    }
    pub fn take_r(&mut self, k: u16) -> (Option<V>, Option<V>) {
        match self.r.remove(&k) {
            None => (None, None),
            Some((t, p)) => {
                let l = p.map(|lk| (lk, self.l.remove(&lk).unwrap().0));
                (l, Some((k, t)))
            }
        }
    }
    /// Takes only the left item; the partner stays, unpaired.
    pub fn take_l_only(&mut self, k: u16) -> Option<V> {
        let (t, p) = self.l.remove(&k)?;
        if let Some(rk) = p {
            self.r.get_mut(&rk).unwrap().1 = None;
        }
        Some((k, t))
    }
    pub fn take_r_only(&mut self, k: u16) -> Option<V> {
        let (t, p) = self.r.remove(&k)?;
        if let Some(lk) = p {
            self.l.get_mut(&lk).unwrap().1 = None;
        }
        Some((k, t))
    }
    pub fn put(&mut self, l: V, r: V) {
        self.l.insert(l.0, (l.1, Some(r.0)));
        self.r.insert(r.0, (r.1, Some(l.0)));
    }
    /// Evicts the cycles of both, then stores the pair.
    pub fn insert(&mut self, l: V, r: V) -> ((Option<V>, Option<V>), (Option<V>, Option<V>)) {
        let a = self.take_l(l.0);
        let b = self.take_r(r.0);
        self.put(l, r);
        (a, b)
    }
    pub fn insert_l(&mut self, l: V) -> (Option<V>, Option<V>) {
        let a = self.take_l(l.0);
        self.l.insert(l.0, (l.1, None));
        a
    }
    pub fn insert_r(&mut self, r: V) -> (Option<V>, Option<V>) {
        let a = self.take_r(r.0);
        self.r.insert(r.0, (r.1, None));
        a
    }
    /// None: `old` is absent (nothing done).  Some((old item, evicted cycle of `new`)).
    pub fn swap_l(&mut self, old: u16, new: V) -> Option<(V, (Option<V>, Option<V>))> {
        if !self.l.contains_key(&old) {
            return None;
        }
        let ev = if new.0 != old { self.take_l(new.0) } else { (None, None) };
        let (t, p) = self.l.remove(&old).unwrap();
        self.l.insert(new.0, (new.1, p));
        if let Some(rk) = p {
            self.r.get_mut(&rk).unwrap().1 = Some(new.0);
        }
        Some(((old, t), ev))
    }
    pub fn swap_r(&mut self, old: u16, new: V) -> Option<(V, (Option<V>, Option<V>))> {
        if !self.r.contains_key(&old) {
            return None;
        }
        let ev = if new.0 != old { self.take_r(new.0) } else { (None, None) };
        let (t, p) = self.r.remove(&old).unwrap();
        self.r.insert(new.0, (new.1, p));
        if let Some(lk) = p {
            self.l.get_mut(&lk).unwrap().1 = Some(new.0);
        }
        Some(((old, t), ev))
    }
    pub fn unpair_l(&mut self, k: u16) -> Option<u16> {
        let p = self.l.get_mut(&k).unwrap().1.take();
        if let Some(rk) = p {
            self.r.get_mut(&rk).unwrap().1 = None;
        }
        p
    }
    pub fn unpair_r(&mut self, k: u16) -> Option<u16> {
        let p = self.r.get_mut(&k).unwrap().1.take();
        if let Some(lk) = p {
            self.l.get_mut(&lk).unwrap().1 = None;
        }
        p
    }
    pub fn link(&mut self, l: u16, r: u16) {
        self.l.get_mut(&l).unwrap().1 = Some(r);
        self.r.get_mut(&r).unwrap().1 = Some(l);
    }
    pub fn clear(&mut self) {
        self.l.clear();
        self.r.clear();
    }
    /// All entries: pairs, unpaired lefts, unpaired rights.
    pub fn entries(&self) -> Vec<(Option<V>, Option<V>)> {
        let mut v = vec![];
        for (k, (t, p)) in &self.l {
            v.push((Some((*k, *t)), p.map(|rk| self.rv(rk))));
        }
        for (k, (t, p)) in &self.r {
            if p.is_none() {
                v.push((None, Some((*k, *t))));
            }
        }
        v
    }
    pub fn remove_entry(&mut self, e: &(Option<V>, Option<V>)) {
        if let Some(l) = e.0 {
            self.l.remove(&l.0);
        }
        if let Some(r) = e.1 {
            self.r.remove(&r.0);
        }
    }
    /// Same keys and pairings, tags aside.
    pub fn same_keys(&self, o: &PM) -> bool {
        self.l.len() == o.l.len()
            && self.r.len() == o.r.len()
            && self.l.iter().all(|(k, v)| o.l.get(k).map(|x| x.1) == Some(v.1))
            && self.r.iter().all(|(k, v)| o.r.get(k).map(|x| x.1) == Some(v.1))
    }
    /// Every item of self is in o with the same pairing state.
    pub fn sub_of(&self, o: &PM) -> bool {
        self.l.iter().all(|(k, v)| o.l.get(k).map(|x| x.1) == Some(v.1))
            && self.r.iter().all(|(k, v)| o.r.get(k).map(|x| x.1) == Some(v.1))
    }
    pub fn is_empty(&self) -> bool {
        self.l.is_empty() && self.r.is_empty()
    }
    pub fn size(&self) -> usize {
        self.l.len() + self.r.len()
    }
    pub fn check(&self) {
        for (k, (_, p)) in &self.l {
            if let Some(p) = p {
                assert_eq!(self.r[p].1, Some(*k), "model");
            }
        }
        for (k, (_, p)) in &self.r {
            if let Some(p) = p {
                assert_eq!(self.l[p].1, Some(*k), "model");
            }
        }
    }
}

/// left key -> (tag, right key); right key -> (tag, group of left keys)
#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct GM {
    pub l: BTreeMap<u16, (u32, u16)>,
    pub r: BTreeMap<u16, (u32, BTreeSet<u16>)>,
}

impl GM {
    pub fn lv(&self, k: u16) -> V {
        (k, self.l[&k].0)
    }
    pub fn rv(&self, k: u16) -> V {
        (k, self.r[&k].0)
    }
    pub fn paired(&self, l: u16, r: u16) -> bool {
        matches!(self.r.get(&r), Some((_, g)) if g.contains(&l))
    }
    pub fn r_paired(&self, r: u16) -> bool {
        matches!(self.r.get(&r), Some((_, g)) if !g.is_empty())
    }
    pub fn relink(&mut self, l: u16, r: u16) {
        let old = self.l[&l].1;
        self.r.get_mut(&old).unwrap().1.remove(&l);
        self.r.get_mut(&r).unwrap().1.insert(l);
        self.l.get_mut(&l).unwrap().1 = r;
    }
    pub fn insert(&mut self, l: V, r: V) {
        self.r.entry(r.0).or_insert((r.1, BTreeSet::new()));
        if self.l.contains_key(&l.0) {
            self.relink(l.0, r.0);
        } else {
            self.l.insert(l.0, (l.1, r.0));
            self.r.get_mut(&r.0).unwrap().1.insert(l.0);
        }
    }
    pub fn take_l(&mut self, k: u16) -> Option<V> {
        let (t, p) = self.l.remove(&k)?;
        self.r.get_mut(&p).unwrap().1.remove(&k);
        Some((k, t))
    }
    pub fn take_r(&mut self, k: u16) -> Option<(Vec<V>, V)> {
        let (t, g) = self.r.remove(&k)?;
        let ls = g.into_iter().map(|lk| (lk, self.l.remove(&lk).unwrap().0)).collect();
        Some((ls, (k, t)))
    }
    pub fn put_r(&mut self, r: V) {
        self.r.insert(r.0, (r.1, BTreeSet::new()));
    }
    pub fn put_l(&mut self, l: V, r: u16) {
        self.l.insert(l.0, (l.1, r));
        self.r.get_mut(&r).unwrap().1.insert(l.0);
    }
    /// Moves the group of `old` to a fresh `new`, displacing an equal item and its group.
    /// `keep`: the old item stays stored (unpaired).  Returns the old item when it was there.
    pub fn swap_r(&mut self, old: u16, new: V, keep: bool) -> Option<V> {
        if !self.r.contains_key(&old) {
            self.take_r(new.0);
            self.put_r(new);
            return None;
        }
        if old == new.0 {
            let e = self.r.get_mut(&old).unwrap();
            let t = e.0;
            e.0 = new.1;
            return Some((old, t));
        }
        self.take_r(new.0);
        let g = std::mem::take(&mut self.r.get_mut(&old).unwrap().1);
        for lk in &g {
            self.l.get_mut(lk).unwrap().1 = new.0;
        }
        self.r.insert(new.0, (new.1, g));
        let o = self.rv(old);
        if !keep {
            self.r.remove(&old);
        }
        Some(o)
    }
    pub fn clear(&mut self) {
        self.l.clear();
        self.r.clear();
    }
    pub fn entries(&self) -> Vec<(Option<V>, Option<V>)> {
        let mut v = vec![];
        for (k, (t, g)) in &self.r {
            for l in g {
                v.push((Some(self.lv(*l)), Some((*k, *t))));
            }
            if g.is_empty() {
                v.push((None, Some((*k, *t))));
            }
        }
        v
    }
    pub fn same_keys(&self, o: &GM) -> bool {
        self.l.len() == o.l.len()
            && self.r.len() == o.r.len()
            && self.l.iter().all(|(k, v)| o.l.get(k).map(|x| x.1) == Some(v.1))
            && self.r.keys().all(|k| o.r.contains_key(k))
    }
    pub fn is_empty(&self) -> bool {
        self.l.is_empty() && self.r.is_empty()
    }
    pub fn size(&self) -> usize {
        self.l.len() + self.r.len()
    }
}

pub fn tentry(e: &(Option<V>, Option<V>)) -> T {
    opair(e.0.map(tl), e.1.map(tr))
}
