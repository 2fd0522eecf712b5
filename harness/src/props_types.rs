//! C27: what the type system promises.  Generated programs are given to the compiler and its verdict on each is
//! compared with a reference: a borrow checker for straight-line programs over one map, and the rules for sharing
//! and sending between threads.  Maps are also read from several threads at once.
use crate::driver::*;
use crate::exec::*;
use crate::items::*;
use crate::ops::*;
use crate::props_hist::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Loan {
    None,
    Shared,
    Mut,
}
/// What a method call leaves behind.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Res2 {
    /// plain data, no borrow of the map
    Owned,
    /// a reference (or Option / pair of references) into the map
    Ref,
    /// an iterator over references, can be cloned
    Iter,
    /// a draining iterator yielding owned items; must be dropped explicitly here
    Drain,
}
struct Meth {
    name: &'static str,
    call: &'static str,
    loan: Loan,
    res: Res2,
}
const fn m(name: &'static str, call: &'static str, loan: Loan, res: Res2) -> Meth {
    Meth { name, call, loan, res }
}
use Loan::{Mut, Shared};
use Res2::{Drain, Iter, Owned, Ref};

/// Calls that leave a borrow of the map (with `k: L`, `q: R` as query items).
const BORROWS: [&[Meth]; 3] = [
    &[
        m("get_left", "get_left(&q)", Shared, Ref),
        m("get_right", "get_right(&k)", Shared, Ref),
        m("iter", "iter()", Shared, Iter),
        m("iter_left", "iter_left()", Shared, Iter),
        m("iter_right", "iter_right()", Shared, Iter),
        m("drain", "drain()", Mut, Drain),
        m("drain_filter", "drain_filter(|_, _| true)", Mut, Drain),
        m("hasher", "hasher()", Shared, Ref),
    ],
    &[
        m("get_left", "get_left(&q)", Shared, Ref),
        m("get_right", "get_right(&k)", Shared, Ref),
        m("iter", "iter()", Shared, Iter),
        m("iter_paired", "iter_paired()", Shared, Iter),
        m("iter_unpaired", "iter_unpaired()", Shared, Iter),
        m("iter_left", "iter_left()", Shared, Iter),
        m("iter_right", "iter_right()", Shared, Iter),
        m("drain", "drain()", Mut, Drain),
        m("drain_filter", "drain_filter(|_| true)", Mut, Drain),
        m("pair_forced", "pair_forced(&k, &q)", Mut, Ref),
        m("hasher", "hasher()", Shared, Ref),
    ],
    &[
        m("get_left_iter", "get_left_iter(&q).unwrap()", Shared, Iter),
        m("get_right", "get_right(&k)", Shared, Ref),
        m("iter", "iter()", Shared, Iter),
        m("iter_paired", "iter_paired()", Shared, Iter),
        m("iter_unpaired", "iter_unpaired()", Shared, Iter),
        m("iter_left", "iter_left()", Shared, Iter),
        m("iter_right", "iter_right()", Shared, Iter),
        m("hasher", "hasher()", Shared, Ref),
    ],
];
/// Calls that borrow the map only while they run.
const ACCESS: [&[Meth]; 3] = [
    &[
        m("len", "len()", Shared, Owned),
        m("is_empty", "is_empty()", Shared, Owned),
        m("capacity", "capacity()", Shared, Owned),
        m("contains_left", "contains_left(&k)", Shared, Owned),
        m("contains_right", "contains_right(&q)", Shared, Owned),
        m("are_paired", "are_paired(&k, &q)", Shared, Owned),
        m("clone", "clone()", Shared, Owned),
        m("insert", "insert(mkl(), mkr())", Mut, Owned),
        m("remove", "remove(&k, &q)", Mut, Owned),
        m("remove_via_left", "remove_via_left(&k)", Mut, Owned),
        m("remove_via_right", "remove_via_right(&q)", Mut, Owned),
        m("swap_left", "swap_left(&k, mkl())", Mut, Owned),
        m("swap_right", "swap_right(&q, mkr())", Mut, Owned),
        m("swap_left_checked", "swap_left_checked(&k, &q, mkl())", Mut, Owned),
        m("swap_right_checked", "swap_right_checked(&q, &k, mkr())", Mut, Owned),
        m("swap_left_or_insert", "swap_left_or_insert(&k, mkl(), mkr())", Mut, Owned),
        m("swap_right_or_insert", "swap_right_or_insert(&q, mkr(), mkl())", Mut, Owned),
        m("retain", "retain(|_, _| true)", Mut, Owned),
        m("clear", "clear()", Mut, Owned),
        m("reserve", "reserve(3)", Mut, Owned),
        m("shrink_to_fit", "shrink_to_fit()", Mut, Owned),
        m("shrink_to", "shrink_to(1)", Mut, Owned),
        m("extend", "extend(vec![(mkl(), mkr())])", Mut, Owned),
    ],
    &[
        m("len_left", "len_left()", Shared, Owned),
        m("is_empty", "is_empty()", Shared, Owned),
        m("capacity_left", "capacity_left()", Shared, Owned),
        m("contains_left", "contains_left(&k)", Shared, Owned),
        m("contains_right", "contains_right(&q)", Shared, Owned),
        m("is_left_paired", "is_left_paired(&k)", Shared, Owned),
        m("are_paired", "are_paired(&k, &q)", Shared, Owned),
        m("clone", "clone()", Shared, Owned),
        m("insert", "insert(mkl(), mkr())", Mut, Owned),
        m("insert_left", "insert_left(mkl())", Mut, Owned),
        m("insert_right", "insert_right(mkr())", Mut, Owned),
        m("pair", "pair(&k, &q)", Mut, Owned),
        m("pair_forced_remove", "pair_forced_remove(&k, &q)", Mut, Owned),
        m("unpair", "unpair(&k, &q)", Mut, Owned),
        m("remove", "remove(&k, &q)", Mut, Owned),
        m("remove_left", "remove_left(&k)", Mut, Owned),
        m("remove_right", "remove_right(&q)", Mut, Owned),
        m("remove_via_left", "remove_via_left(&k)", Mut, Owned),
        m("swap_left", "swap_left(&k, mkl())", Mut, Owned),
        m("swap_right_checked", "swap_right_checked(&q, &k, mkr())", Mut, Owned),
        m("swap_left_or_insert", "swap_left_or_insert(&k, mkl(), mkr())", Mut, Owned),
        m("retain", "retain(|_| false)", Mut, Owned),
        m("retain_paired", "retain_paired(|_, _| false)", Mut, Owned),
        m("clear", "clear()", Mut, Owned),
        m("reserve_left", "reserve_left(3)", Mut, Owned),
        m("shrink_to_fit", "shrink_to_fit()", Mut, Owned),
        m("extend", "extend(vec![(mkl(), mkr())])", Mut, Owned),
    ],
    &[
        m("len_left", "len_left()", Shared, Owned),
        m("is_empty", "is_empty()", Shared, Owned),
        m("capacity_right", "capacity_right()", Shared, Owned),
        m("contains_left", "contains_left(&k)", Shared, Owned),
        m("contains_right", "contains_right(&q)", Shared, Owned),
        m("is_right_paired", "is_right_paired(&q)", Shared, Owned),
        m("are_paired", "are_paired(&k, &q)", Shared, Owned),
        m("clone", "clone()", Shared, Owned),
        m("insert", "insert(mkl(), mkr())", Mut, Owned),
        m("insert_left", "insert_left(mkl(), &q)", Mut, Owned),
        m("insert_right", "insert_right(mkr())", Mut, Owned),
        m("insert_remove", "insert_remove(mkl(), mkr())", Mut, Owned),
        m("pair", "pair(&k, &q)", Mut, Owned),
        m("remove", "remove(&k, &q)", Mut, Owned),
        m("remove_left", "remove_left(&k)", Mut, Owned),
        m("remove_right", "remove_right(&q)", Mut, Owned),
        m("swap_right", "swap_right(&q, mkr())", Mut, Owned),
        m("swap_right_remove", "swap_right_remove(&q, mkr())", Mut, Owned),
        m("retain_paired", "retain_paired(|_, _| false)", Mut, Owned),
        m("retain_unpaired", "retain_unpaired(|_| false)", Mut, Owned),
        m("clear", "clear()", Mut, Owned),
        m("extend", "extend(vec![(mkl(), mkr())])", Mut, Owned),
    ],
];
const MAPS: [&str; 3] = ["CycleMap", "PartialCycleMap", "GroupMap"];
/// (left type, right type) of the borrow programs.
const TYPES: [(&str, &str); 4] = [("String", "u32"), ("u8", "Vec<u8>"), ("Box<u8>", "String"), ("char", "i64")];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum St {
    /// let xN = m.<borrowing method>
    Let(u8),
    /// let xN = xI.next() of a live iterator
    Next(u8),
    /// let xN = xI.clone() of a live shared iterator
    Dup(u8),
    /// use xI
    Use(u8),
    /// drop(xI)
    Drop(u8),
    /// a call that borrows only while it runs
    Access(u8),
    /// m = Map::new()
    Assign,
    /// std::mem::take(&mut m)
    Take,
    /// drop(m), at most once and last of the map's uses
    MoveMap,
    /// the query items go away
    DropKeys,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Prog {
    map: u8,
    ty: u8,
    st: Vec<St>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sig {
    map: u8,
    /// which borrowing method, and which region its result is declared with: 0 the map's, 1 the query's, 2 'static
    meth: u8,
    region: u8,
    /// the first item it yields instead of the whole
    item: bool,
    ty: u8,
    /// 0: a function signature; 1: result leaves the map's block; 2: result leaves the query's block;
    /// 3: variance; 4: items borrow from a local
    shape: u8,
    x: u8,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Auto {
    map: u8,
    /// item and hasher kinds: 0 Send+Sync, 1 Send only, 2 Sync only, 3 neither
    l: u8,
    r: u8,
    s: u8,
    /// 0 the map, 1.. the result of BORROWS[map][x-1]
    x: u8,
    sync: bool,
    /// kind of what a drain_filter closure captures
    f: u8,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Types {
    Borrow(Vec<Prog>),
    Sigs(Vec<Sig>),
    Autos(Vec<Auto>),
    Threads(Any, Vec<u16>),
}

struct Fun {
    src: String,
    accept: bool,
    /// error codes that count as the expected rejection
    codes: &'static [&'static str],
    what: String,
    /// either verdict is right
    open: bool,
}
const BORROWCK: &[&str] = &["E0499", "E0502", "E0505", "E0506", "E0515", "E0597", "E0716", "E0382", "E0521", "E0310", "E0311", "E0621", "E0373", "E0503", "E0712", "E0713", "lifetime"];
const TRAITS: &[&str] = &["E0277"];

/// The reference borrow checker: straight-line code, one map, loans held by variables.
fn borrow_fun(p: &Prog, n: usize) -> Fun {
    let mp = p.map as usize % 3;
    let (tl, tr) = TYPES[p.ty as usize % TYPES.len()];
    struct Var {
        res: Res2,
        loan: Loan,
        root: usize,
        created: usize,
        dead: bool,
        mapped: bool,
    }
    let mut vars: Vec<Var> = Vec::new();
    // last use of the loan created by variable `root`
    let mut last: Vec<usize> = Vec::new();
    // accesses of the map: (position, kind, root of the loan it creates)
    let mut acc: Vec<(usize, Loan, Option<usize>)> = Vec::new();
    let mut code: Vec<String> = Vec::new();
    let mut map_gone = false;
    let mut keys = true;
    let pick = |vars: &Vec<Var>, i: u8, ok: &dyn Fn(&Var) -> bool| -> Option<usize> {
        let c: Vec<usize> = (0..vars.len()).filter(|j| !vars[*j].dead && ok(&vars[*j])).collect();
        if c.is_empty() {
            None
        } else {
            Some(c[i as usize % c.len()])
        }
    };
    for s in &p.st {
        let at = code.len();
        match s {
            St::Let(i) => {
                if map_gone {
                    continue;
                }
                let b = BORROWS[mp];
                let me = &b[*i as usize % b.len()];
                if !keys && (me.call.contains("&k") || me.call.contains("&q")) {
                    continue;
                }
                let j = vars.len();
                code.push(format!("let mut x{j} = m.{};", me.call));
                acc.push((at, me.loan, Some(j)));
                vars.push(Var { res: me.res, loan: me.loan, root: j, created: at, dead: false, mapped: true });
                last.push(at);
            }
            St::Next(i) => {
                let Some(v) = pick(&vars, *i, &|v| matches!(v.res, Iter | Drain)) else { continue };
                let j = vars.len();
                code.push(format!("let mut x{j} = x{v}.next();"));
                let root = vars[v].root;
                last[root] = at;
                let (res, loan, mapped) = if vars[v].res == Iter { (Ref, vars[v].loan, true) } else { (Owned, Loan::None, false) };
                vars.push(Var { res, loan, root: if mapped { root } else { j }, created: at, dead: false, mapped });
                last.push(at);
            }
            St::Dup(i) => {
                let Some(v) = pick(&vars, *i, &|v| v.res == Iter) else { continue };
                let j = vars.len();
                code.push(format!("let mut x{j} = x{v}.clone();"));
                let root = vars[v].root;
                last[root] = at;
                let loan = vars[v].loan;
                vars.push(Var { res: Iter, loan, root, created: at, dead: false, mapped: true });
                last.push(at);
            }
            St::Use(i) => {
                let Some(v) = pick(&vars, *i, &|_| true) else { continue };
                code.push(format!("sink(&mut x{v});"));
                last[vars[v].root] = at;
            }
            St::Drop(i) => {
                let Some(v) = pick(&vars, *i, &|_| true) else { continue };
                code.push(format!("drop(x{v});"));
                last[vars[v].root] = at;
                vars[v].dead = true;
            }
            St::Access(i) => {
                if map_gone {
                    continue;
                }
                let a = ACCESS[mp];
                let me = &a[*i as usize % a.len()];
                if !keys && (me.call.contains("&k") || me.call.contains("&q")) {
                    continue;
                }
                code.push(format!("let _ = m.{};", me.call));
                acc.push((at, me.loan, None));
            }
            St::Assign => {
                if map_gone {
                    continue;
                }
                code.push("m = mk();".into());
                acc.push((at, Mut, None));
            }
            St::Take => {
                if map_gone {
                    continue;
                }
                code.push("let _ = std::mem::take(&mut m);".into());
                acc.push((at, Mut, None));
            }
            St::MoveMap => {
                if map_gone {
                    continue;
                }
                code.push("drop(m);".into());
                acc.push((at, Mut, None));
                map_gone = true;
            }
            St::DropKeys => {
                if keys {
                    code.push("drop((k, q));".into());
                    keys = false;
                }
            }
        }
    }
    // a drain's destructor is a use; make it an explicit one
    for v in 0..vars.len() {
        if vars[v].res == Drain && !vars[v].dead {
            last[vars[v].root] = code.len();
            code.push(format!("drop(x{v});"));
        }
    }
    let mut why = None;
    for (at, kind, own) in &acc {
        for v in vars.iter().filter(|v| v.mapped) {
            if Some(v.root) == *own || v.created >= *at || vars[v.root].created >= *at {
                continue;
            }
            let live = last[v.root] > *at;
            let conflict = *kind == Mut || v.loan == Mut;
            if live && conflict && why.is_none() {
                why = Some(*at);
            }
        }
    }
    let mut src = format!("fn f{n}(k: {tl}, q: {tr}, mut m: {}<{tl}, {tr}>, mkl: fn() -> {tl}, mkr: fn() -> {tr}, mk: fn() -> {0}<{tl}, {tr}>) {{ ", MAPS[mp]);
    src.push_str(&code.join(" "));
    src.push('}');
    Fun {
        src,
        accept: why.is_none(),
        open: false,
        codes: BORROWCK,
        what: match why {
            None => "no borrow of the map is in use where the map is changed, so it must compile".into(),
            Some(at) => format!("`{}` while a borrow of the map is still in use later, so it must be rejected", code[at]),
        },
    }
}

/// Functions whose signature or block structure lets a result outlive something.
fn sig_fun(g: &Sig, n: usize) -> Fun {
    let mp = g.map as usize % 3;
    let (tl, tr) = TYPES[g.ty as usize % TYPES.len()];
    let map = format!("{}<{tl}, {tr}>", MAPS[mp]);
    let b = BORROWS[mp];
    let me = &b[g.meth as usize % b.len()];
    let sel = |c: &str| c.replace("&k", "k").replace("&q", "q");
    let fun = |src: String, accept: bool, what: String| Fun { src, accept, codes: BORROWCK, what, open: false };
    match g.shape % 5 {
        0 => {
            // 'm: the map's borrow, 'k: the query's
            let reg = ["'m", "'k", "'static"][g.region as usize % 3];
            let body = match (me.res, g.item) {
                (Iter, true) => format!("m.{}.next()", sel(me.call)),
                (Drain, true) if mp == 0 => format!("m.{}.next()", sel(me.call)),
                _ => format!("m.{}", sel(me.call)),
            };
            let mbor = if me.loan == Mut { "&'m mut " } else { "&'m " };
            let owned = me.res == Drain && g.item && mp == 0;
            let ret = if owned { format!("Option<({tl}, {tr})>") } else { format!("impl Sized + {reg}") };
            // a bound on a hidden type: it may hold the map's borrow only
            let src = if owned {
                format!("fn f{n}<'m, 'k>(m: {mbor}{map}, k: &'k {tl}, q: &'k {tr}) -> {ret} {{ {body} }}")
            } else {
                // a trait object, so that exactly the named region is allowed inside
                let _ = &ret;
                format!("fn f{n}<'m, 'k>(m: {mbor}{map}, k: &'k {tl}, q: &'k {tr}) -> Box<dyn Anything + {reg}> {{ Box::new({body}) }}")
            };
            let accept = owned || g.region % 3 == 0;
            fun(src, accept, format!("{} of {} declared to live for {reg}", me.name, MAPS[mp]))
        }
        1 => {
            // the map's block ends
            let used = g.x % 2 == 0;
            let u = if used { "sink(&mut x);" } else { "" };
            let it = if me.res == Iter && g.item { ".next()" } else { "" };
            if me.res == Drain {
                // declared after the map, so it goes first
                let src = format!("fn f{n}(k: {tl}, q: {tr}, mk: fn() -> {map}) {{ {{ let mut m = mk(); let mut x = m.{}; {u} drop(x); }} }}", me.call);
                return fun(src, true, "a drain that goes before its map".into());
            }
            let src = format!("fn f{n}(k: {tl}, q: {tr}, mk: fn() -> {map}) {{ let mut x; {{ let mut m = mk(); x = m.{}{it}; }} {u} }}", me.call);
            fun(src, !used, format!("the result of {} of {} {} after the map is gone", me.name, MAPS[mp], if used { "is used" } else { "is not used" }))
        }
        2 => {
            // the query items' block ends
            let src = format!("fn f{n}(mut m: {map}, mkl: fn() -> {tl}, mkr: fn() -> {tr}) {{ let mut x; {{ let (k, q) = (mkl(), mkr()); x = m.{}; }} sink(&mut x); drop(x); }}", me.call);
            fun(src, true, format!("the result of {} of {} does not borrow the query", me.name, MAPS[mp]))
        }
        3 => {
            let t = MAPS[mp];
            if g.x % 15 >= 10 {
                let its = ITERS[mp];
                let (ty, names) = its[g.meth as usize % its.len()];
                return vary_fun(ty, names, g.region, g.x % 15 - 10, n);
            }
            let (src, accept, what) = match g.x % 15 {
                0 => (format!("fn f{n}<'a>(m: {t}<&'static str, &'static str>, _: &'a str) -> {t}<&'a str, &'a str> {{ m }}"), true, "a map of longer-lived items serves as one of shorter-lived items"),
                1 => (format!("fn f{n}<'a>(m: {t}<&'a str, &'static str>) -> {t}<&'static str, &'static str> {{ m }}"), false, "a map of short-lived left items is not one of 'static items"),
                2 => (format!("fn f{n}<'a>(m: {t}<&'static str, &'a str>) -> {t}<&'static str, &'static str> {{ m }}"), false, "a map of short-lived right items is not one of 'static items"),
                3 => (format!("fn f{n}<'a, 'b>(m: &'b mut {t}<&'static str, &'static str>, _: &'a str) -> &'b mut {t}<&'a str, &'a str> {{ m }}"), false, "a mutable map reference is invariant in its items"),
                4 => (format!("fn f{n}<'a, 'b>(m: &'b {t}<&'static str, &'static str>, _: &'a str) -> &'b {t}<&'a str, &'a str> {{ m }}"), true, "a shared map reference is covariant in its items"),
                5 => (format!("fn f{n}<'a, 'b>(m: &'b {t}<&'a str, u8>) -> Option<&'static str> {{ m.iter_left().next().copied() }}"), false, "left items keep their own lifetime through an iterator"),
                6 => (format!("fn f{n}<'a, 'b>(m: &'b {t}<&'a str, u8>) -> Option<&'a str> {{ m.iter_left().next().copied() }}"), true, "a left item copied out outlives the map's borrow"),
                7 => (format!("fn f{n}<'a, 'b>(m: &'b {t}<u8, &'a str>) -> Option<&'static str> {{ m.iter_right().next().copied() }}"), false, "right items keep their own lifetime through an iterator"),
                8 => (format!("fn f{n}<'a, 'b>(m: &'b {t}<u8, &'a str>) -> Option<&'a str> {{ m.iter_right().next().copied() }}"), true, "a right item copied out outlives the map's borrow"),
                _ => (format!("fn f{n}<'a, 'b>(m: &'b {t}<u8, &'a str>) -> Option<&'static str> {{ m.get_right(&1).copied() }}"), false, "right items keep their own lifetime through a lookup"),
            };
            fun(src, accept, what.into())
        }
        _ => {
            let t = MAPS[mp];
            let (src, accept, what) = match g.x % 6 {
                0 => (format!("fn f{n}() {{ let mut m: {t}<&str, u8> = Default::default(); let s = String::new(); m.insert(&s[..], 1); drop(s); sink(&mut m); }}"), false, "left items whose owner is gone"),
                1 => (format!("fn f{n}() {{ let mut m: {t}<u8, &str> = Default::default(); let s = String::new(); m.insert(1, &s[..]); drop(s); sink(&mut m); }}"), false, "right items whose owner is gone"),
                2 => (format!("fn f{n}() {{ let s = String::new(); let mut m: {t}<&str, u8> = Default::default(); m.insert(&s[..], 1); sink(&mut m); drop(m); drop(s); }}"), true, "map gone before its items' owner"),
                3 => (format!("fn f{n}(d: fn(&String) -> Insp<'_>) {{ let mut m: {t}<Insp<'_>, u8> = Default::default(); let s = String::new(); m.insert(d(&s), 1); }}"), false, "items that look at a dead owner when the map is dropped"),
                4 => (format!("fn f{n}(d: fn(&String) -> Insp<'_>) {{ let mut m: {t}<u8, Insp<'_>> = Default::default(); let s = String::new(); m.insert(1, d(&s)); }}"), false, "items that look at a dead owner when the map is dropped"),
                _ => (format!("fn f{n}(mut m: {t}<u8, u8>) {{ let s = String::new(); m.retain_x(s.len()); drop(s); sink(&mut m); }}").replace("m.retain_x(s.len())", if mp == 2 { "m.retain_paired(|_, _| s.is_empty())" } else if mp == 1 { "m.retain(|_| s.is_empty())" } else { "m.retain(|_, _| s.is_empty())" }), true, "a retain closure's captures are free afterwards"),
            };
            // drain_filter keeps its closure
            if mp < 2 && g.x >= 6 && g.x % 2 == 0 {
                let args = if mp == 0 { "|_, _|" } else { "|_|" };
                let late = g.region % 2 == 0;
                let (a, z) = if late { ("c += 1;", "") } else { ("", "c += 1;") };
                return fun(
                    format!("fn f{n}(mut m: {t}<u8, u8>) {{ let mut c = 0u8; let x = m.drain_filter({args} {{ c += 1; true }}); {a} drop(x); {z} sink(&mut c); }}"),
                    !late,
                    format!("what a drain_filter closure captures {}", if late { "used before the iterator is gone" } else { "used afterwards" }),
                );
            }
            fun(src, accept, format!("{what} ({t})"))
        }
    }
}

/// The iterators over a shared map and their parameters: the map's borrow, then left items, right items, hash builder.
type Named = (&'static str, &'static str);
const ITERS: [&[Named]; 3] = [
    &[("cycle_map::Iter", "blrs"), ("cycle_map::SingleIter", "bl")],
    &[
        ("partial_cycle_map::Iter", "blrs"),
        ("partial_cycle_map::PairedIter", "blrs"),
        ("partial_cycle_map::UnpairedIter", "blrs"),
        ("partial_cycle_map::SingleIter", "bl"),
    ],
    &[
        ("group_map::Iter", "blrs"),
        ("group_map::PairedIter", "blrs"),
        ("group_map::UnpairedIter", "blrs"),
        ("group_map::LeftIter", "bl"),
        ("group_map::RightIter", "br"),
        ("group_map::PairIter", "blrs"),
    ],
];

/// An iterator over a shared map serves as one over a shorter borrow or over items of shorter lives, never the other
/// way round.
fn vary_fun(ty: &str, params: &str, which: u8, way: u8, n: usize) -> Fun {
    // the parameter that varies
    let some: Vec<char> = params.chars().filter(|c| *c != 's').collect();
    let v = some[which as usize % some.len()];
    let with = |long: bool| {
        let a = if long { "'long" } else { "'short" };
        let args: Vec<String> = params
            .chars()
            .map(|c| match c {
                'b' => if v == 'b' { a.into() } else { "'short".into() },
                's' => "S".into(),
                c if c == v => format!("&{a} str"),
                _ => "u8".into(),
            })
            .collect();
        format!("::cycle_map::{ty}<{}>", args.join(", "))
    };
    let s = if params.contains('s') { ", S" } else { "" };
    let gen = format!("fn f{n}<'long: 'short, 'short, 'r{s}>");
    let what = match v {
        'b' => "borrow",
        'l' => "left items' lives",
        _ => "right items' lives",
    };
    let (src, accept) = match way {
        0 | 1 => (format!("{gen}(i: {}) -> {} {{ i }}", with(true), with(false)), true),
        2 => (format!("{gen}(i: {}) -> {} {{ i }}", with(false), with(true)), false),
        // in one place after each other
        3 => (format!("{gen}(i: {}, j: {}) {{ let mut v = vec![j]; v.push(i); }}", with(true), with(false)), true),
        _ => (format!("{gen}(i: &'r mut {}) -> &'r mut {} {{ i }}", with(true), with(false)), false),
    };
    Fun { src, accept, codes: BORROWCK, open: false, what: format!("{ty} with the {what} {}", ["shortened", "shortened", "prolonged", "shortened", "shortened behind a mutable reference"][way as usize % 5]) }
}

/// Sharing and sending between threads.
fn auto_fun(a: &Auto, n: usize) -> Fun {
    let mp = a.map as usize % 3;
    let b = BORROWS[mp];
    let x = a.x as usize % (b.len() + 1);
    let (send, sync) = (|k: u8| k % 4 == 0 || k % 4 == 1, |k: u8| k % 4 == 0 || k % 4 == 2);
    let kinds = [a.l, a.r, a.s];
    let ty = format!("{}<K{}, K{}, K{}>", MAPS[mp], a.l % 4, a.r % 4, a.s % 4);
    let tr = if a.sync { "sync" } else { "send" };
    let cap = if a.f % 5 == 4 { None } else { Some(a.f % 4) };
    let mut open = false;
    let (body, ok) = if x == 0 {
        ("m".to_string(), kinds.iter().all(|k| if a.sync { sync(*k) } else { send(*k) }))
    } else {
        let me = &b[x - 1];
        let mut call = me.call.to_string();
        let mut extra = true;
        if me.name == "drain_filter" {
            if let Some(c) = cap {
                // the closure owns a value of that kind
                call = call.replace("(|", "(move |").replace("true", &format!("{{ let _ = &c{c}; true }}"));
                extra = if a.sync { sync(c) } else { send(c) };
            }
        }
        let ok = match (me.res, me.name) {
            (_, "hasher") => sync(a.s),
            // references to one side's items
            (Ref, "get_left") => sync(a.l),
            (Ref, "get_right") => sync(a.r),
            (Ref, _) => sync(a.l) && sync(a.r),
            // iterators: what they yield must be shareable; what else they hold (the whole map or a part) is their
            // own affair, so a difference that lies only there decides nothing
            (Iter, name) => {
                let yields = (name == "iter_right" || sync(a.l)) && (name == "iter_left" || name == "get_left_iter" || sync(a.r));
                open = yields && !kinds.iter().all(|k| sync(*k));
                yields
            }
            _ => {
                let can = |k: &u8| if a.sync { sync(*k) } else { send(*k) };
                let yields = can(&a.l) && can(&a.r) && extra;
                open = yields && !can(&a.s);
                yields
            }
        };
        (format!("m.{call}"), ok)
    };
    let src = format!("fn f{n}(k: K{}, q: K{}, mut m: {ty}, c0: K0, c1: K1, c2: K2, c3: K3) {{ {tr}({body}) }}", a.l % 4, a.r % 4);
    let what = format!("{} of {ty} is {}{}", if x == 0 { "the map itself" } else { b[x - 1].name }, if ok { "" } else { "not " }, if a.sync { "Sync" } else { "Send" });
    Fun { src, accept: ok, codes: TRAITS, what, open }
}

const PRELUDE: &str = r#"#![allow(warnings)]
use ::cycle_map::{CycleMap, GroupMap, PartialCycleMap};
use std::hash::{BuildHasher, Hash, Hasher};
pub fn sink<T>(_: &mut T) {}
pub trait Anything {}
impl<T> Anything for T {}
pub fn send<T: Send>(_: T) {}
pub fn sync<T: Sync>(_: T) {}
pub struct Insp<'a>(&'a String);
impl Drop for Insp<'_> { fn drop(&mut self) { println!("{}", self.0); } }
impl PartialEq for Insp<'_> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for Insp<'_> {}
impl Hash for Insp<'_> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
macro_rules! kind { ($n:ident, $t:ty) => {
    #[derive(Clone, Default)]
    pub struct $n(std::marker::PhantomData<$t>);
    impl PartialEq for $n { fn eq(&self, _: &Self) -> bool { true } }
    impl Eq for $n {}
    impl Hash for $n { fn hash<H: Hasher>(&self, _: &mut H) {} }
    impl BuildHasher for $n { type Hasher = std::collections::hash_map::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { Default::default() } }
} }
kind!(K0, u8);
kind!(K1, std::cell::Cell<u8>);
kind!(K2, std::sync::MutexGuard<'static, u8>);
kind!(K3, std::rc::Rc<u8>);
"#;

fn newest(dir: &Path, prefix: &str, suffix: &str) -> Option<PathBuf> {
    let mut best = None;
    for e in std::fs::read_dir(dir).ok()?.flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with(prefix) && n.ends_with(suffix) {
            let t = e.metadata().and_then(|m| m.modified()).ok()?;
            if best.as_ref().is_none_or(|(u, _)| t > *u) {
                best = Some((t, e.path()));
            }
        }
    }
    best.map(|b| b.1)
}
/// A directory that is removed with the value.
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Res<Scratch> {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("cm_probe_{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).map_err(|e| format!("HARNESS: {}: {e}", d.display()))?;
        Ok(Scratch(d))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// The verdict of the compiler on each function: the codes of the errors inside it.
fn compile(funs: &[Fun]) -> Res<Vec<Vec<(String, String)>>> {
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {e}"))?;
    let deps = exe.parent().unwrap().join("deps");
    let lib = newest(&deps, "libcycle_map-", ".rlib").ok_or("HARNESS: no libcycle_map rlib beside the executable")?;
    let mut src = PRELUDE.to_string();
    let mut starts = Vec::new();
    for f in funs {
        starts.push(src.matches('\n').count() + 1);
        src.push_str(&f.src);
        src.push('\n');
    }
    let mut c = std::process::Command::new("rustc");
    c.args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "probe", "--emit", "metadata", "--error-format", "json", "--cap-lints", "allow"]);
    // rustc moves its result over the named file, so that must be a file of this check's own
    let scratch = Scratch::new()?;
    c.arg("-o").arg(scratch.0.join("probe.rmeta")).arg("-");
    c.arg("--extern").arg(format!("cycle_map={}", lib.display()));
    c.arg("-L").arg(format!("dependency={}", deps.display()));
    c.stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped());
    let mut ch = c.spawn().map_err(|e| format!("HARNESS: rustc: {e}"))?;
    use std::io::Write;
    ch.stdin.take().unwrap().write_all(src.as_bytes()).map_err(|e| format!("HARNESS: rustc: {e}"))?;
    let out = ch.wait_with_output().map_err(|e| format!("HARNESS: rustc: {e}"))?;
    let mut v = vec![Vec::new(); funs.len()];
    for l in String::from_utf8_lossy(&out.stderr).lines() {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if j["level"] != "error" {
            continue;
        }
        let msg = j["message"].as_str().unwrap_or("").to_string();
        if msg.starts_with("aborting due to") {
            continue;
        }
        let code = j["code"]["code"].as_str().unwrap_or(if msg.contains("lifetime may not live long enough") { "lifetime" } else { "none" }).to_string();
        let line = j["spans"].as_array().and_then(|s| s.iter().find(|s| s["is_primary"] == true && s["file_name"] == "<anon>")).and_then(|s| s["line_start"].as_u64());
        match line.and_then(|l| starts.iter().rposition(|s| *s as u64 <= l)) {
            Some(i) => v[i].push((code, msg)),
            None => return Err(format!("HARNESS: rustc: {msg}")),
        }
    }
    Ok(v)
}
fn judge(funs: &[Fun], cx: &mut Ctx) -> Res {
    let v = compile(funs)?;
    // the trait errors are found before the borrow errors, so a batch holds one sort only
    for (f, e) in funs.iter().zip(&v) {
        let verdict = if e.is_empty() { "compiles" } else { "is rejected" };
        cx.trace.push(format!("{} // {verdict}: {}", f.src, f.what));
        if let Some((c, m)) = e.iter().find(|(c, _)| !f.codes.contains(&c.as_str())) {
            return Err(format!("{}: unexpected error {c}: {m}\n  {}", f.what, f.src));
        }
        if f.accept != e.is_empty() && !f.open {
            let why = e.first().map(|x| format!(" ({}: {})", x.0, x.1)).unwrap_or_default();
            return Err(format!("this program {verdict}{why}, but: {}\n  {}", f.what, f.src));
        }
        cx.label(if f.accept { "program accepted" } else { "program rejected" });
    }
    Ok(())
}

struct Share<X>(*const X);
unsafe impl<X> Sync for Share<X> {}
impl<X> Share<X> {
    fn get(&self) -> &X {
        unsafe { &*self.0 }
    }
}
fn threads<F: Fam, S: Bld>(h: &Hist<F::K>, q: &[u16], cx: &mut Ctx) -> Res
where
    F::M: Sync,
{
    let Some(ex) = build::<F, S>(h) else { return Ok(()) };
    cx.trace = ex.trace.clone();
    cx.label("threads");
    cx.nontrivial = F::msize(&ex.m) >= 3;
    let sh = Share(&ex.map as *const F::Map<S>);
    let (m, dom) = (&ex.m, ex.dom);
    let mode = h.hasher;
    let r: Vec<Res> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..3)
            .map(|t| {
                let sh = &sh;
                s.spawn(move || {
                    DEFMODE.with(|d| d.set(mode));
                    for (i, x) in q.iter().enumerate() {
                        // different threads look at different things at a time
                        let r = guard(|| match (*x as usize + i * 7 + t) % 3 {
                            0 => F::iters(sh.get(), m, false),
                            _ => F::lookups(sh.get(), m, dom, false, false),
                        });
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) => return Err(format!("read by one of 3 threads: {e}")),
                            Err(e) => return Err(format!("read by one of 3 threads: {e}")),
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a reading thread panicked".into()))).collect()
    });
    for x in r {
        x?;
    }
    Ok(())
}

pub struct C27;
impl Prop for C27 {
    type Case = Types;
    const ID: &'static str = "C27";
    const RULE: &'static str = "each case is a batch of generated programs given to rustc against the crate as built, or a map read from three threads. Borrow programs: random straight-line sequences of borrowing calls, iterator steps, clones, uses, drops, accesses and mutations of one map (all types, all borrowing methods), verdict predicted by a reference borrow checker; signature programs: results declared with the map's, the query's or the static lifetime, results leaving the map's or query's block, variance in the item types, items that borrow from a local; sharing programs: maps and results of every borrowing method over item, hasher and closure types that are Send+Sync, Send only, Sync only or neither, verdict predicted by the rules for sharing. The compiler must agree on every single program. Non-trivial: a batch with at least one program that must be accepted and one that must be rejected, or a map with >=3 items";
    fn cases(t: Tier) -> u64 {
        t.pick(1_600, 60_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Types> {
        let st = prop_oneof![
            4 => any::<u8>().prop_map(St::Let),
            3 => any::<u8>().prop_map(St::Next),
            1 => any::<u8>().prop_map(St::Dup),
            3 => any::<u8>().prop_map(St::Use),
            2 => any::<u8>().prop_map(St::Drop),
            3 => any::<u8>().prop_map(St::Access),
            1 => prop_oneof![Just(St::Assign), Just(St::Take), Just(St::MoveMap), Just(St::DropKeys)],
        ];
        let prog = (0u8..3, 0u8..4, proptest::collection::vec(st, 1..9)).prop_map(|(map, ty, st)| Prog { map, ty, st });
        let sig = (0u8..3, 0u8..12, 0u8..3, any::<bool>(), 0u8..4, 0u8..5, 0u8..60).prop_map(|(map, meth, region, item, ty, shape, x)| Sig { map, meth, region, item, ty, shape, x });
        let auto = (0u8..3, 0u8..4, 0u8..4, prop_oneof![3 => Just(0u8), 2 => 0u8..4], 0u8..12, any::<bool>(), 0u8..5).prop_map(|(map, l, r, s, x, sync, f)| Auto { map, l, r, s, x, sync, f });
        prop_oneof![
            4 => proptest::collection::vec(prog, 1..40).prop_map(Types::Borrow),
            2 => proptest::collection::vec(sig, 1..40).prop_map(Types::Sigs),
            2 => proptest::collection::vec(auto, 1..40).prop_map(Types::Autos),
            8 => (any_hist(20, 12), proptest::collection::vec(any::<u16>(), 4..24)).prop_map(|(a, q)| Types::Threads(a, q)),
        ]
        .boxed()
    }
    fn run(c: &Types, cx: &mut Ctx) -> Res {
        let funs: Vec<Fun> = match c {
            Types::Borrow(v) => v.iter().enumerate().map(|(i, p)| borrow_fun(p, i)).collect(),
            Types::Sigs(v) => v.iter().enumerate().map(|(i, p)| sig_fun(p, i)).collect(),
            Types::Autos(v) => v.iter().enumerate().map(|(i, p)| auto_fun(p, i)).collect(),
            Types::Threads(h, q) => return any!(h, threads, q, cx),
        };
        cx.label(match c {
            Types::Borrow(_) => "borrow batch",
            Types::Sigs(_) => "signature batch",
            _ => "sharing batch",
        });
        cx.nontrivial = funs.iter().any(|f| f.accept) && funs.iter().any(|f| !f.accept);
        judge(&funs, cx)
    }
}
