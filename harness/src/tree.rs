//! A small value tree: what an operation returned, in a form that can be compared and printed.
use crate::items::{It, V};
use cycle_map::OptionalPair;
use std::fmt;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum T {
    U,
    B(bool),
    I(u64),
    It(u8, u16, u32),
    Tup(Vec<T>),
    Set(Vec<T>),
    None,
    Some(Box<T>),
    Neither,
    Left(Box<T>),
    Right(Box<T>),
    Both(Box<T>, Box<T>),
}
impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            T::U => write!(f, "()"),
            T::B(b) => write!(f, "{b}"),
            T::I(b) => write!(f, "{b}"),
            T::It(s, k, t) => write!(f, "{}{}#{}", if *s == 0 { 'L' } else { 'R' }, k, t),
            T::Tup(v) => {
                write!(f, "(")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{x:?}")?;
                }
                write!(f, ")")
            }
            T::Set(v) => f.debug_set().entries(v).finish(),
            T::None => write!(f, "None"),
            T::Some(x) => write!(f, "Some({x:?})"),
            T::Neither => write!(f, "Neither"),
            T::Left(x) => write!(f, "SomeLeft({x:?})"),
            T::Right(x) => write!(f, "SomeRight({x:?})"),
            T::Both(x, y) => write!(f, "SomeBoth({x:?}, {y:?})"),
        }
    }
}
impl T {
    /// The same value with instance tags blanked: compares by item equality only.
    pub fn untag(&self) -> T {
        match self {
            T::It(s, k, _) => T::It(*s, *k, 0),
            T::Tup(v) => T::Tup(v.iter().map(T::untag).collect()),
            T::Set(v) => {
                let mut v: Vec<T> = v.iter().map(T::untag).collect();
                v.sort();
                T::Set(v)
            }
            T::Some(x) => T::Some(Box::new(x.untag())),
            T::Left(x) => T::Left(Box::new(x.untag())),
            T::Right(x) => T::Right(Box::new(x.untag())),
            T::Both(x, y) => T::Both(Box::new(x.untag()), Box::new(y.untag())),
            o => o.clone(),
        }
    }
}

pub trait Tr {
    fn t(&self) -> T;
}
impl<const S: u8> Tr for It<S> {
    fn t(&self) -> T {
        let (k, t) = self.v();
        T::It(S, k, t)
    }
}
impl<X: Tr + ?Sized> Tr for &X {
    fn t(&self) -> T {
        (**self).t()
    }
}
impl Tr for () {
    fn t(&self) -> T {
        T::U
    }
}
impl Tr for bool {
    fn t(&self) -> T {
        T::B(*self)
    }
}
impl Tr for T {
    fn t(&self) -> T {
        self.clone()
    }
}
impl<A: Tr, B: Tr> Tr for (A, B) {
    fn t(&self) -> T {
        T::Tup(vec![self.0.t(), self.1.t()])
    }
}
impl<A: Tr> Tr for Option<A> {
    fn t(&self) -> T {
        match self {
            None => T::None,
            Some(x) => T::Some(Box::new(x.t())),
        }
    }
}
impl<A: Tr + Eq, B: Tr + Eq> Tr for OptionalPair<A, B> {
    fn t(&self) -> T {
        match self {
            OptionalPair::Neither => T::Neither,
            OptionalPair::SomeLeft(a) => T::Left(Box::new(a.t())),
            OptionalPair::SomeRight(a) => T::Right(Box::new(a.t())),
            OptionalPair::SomeBoth(a, b) => T::Both(Box::new(a.t()), Box::new(b.t())),
        }
    }
}
impl<A: Tr, S> Tr for hashbrown::HashSet<A, S> {
    fn t(&self) -> T {
        let mut v: Vec<T> = self.iter().map(|x| x.t()).collect();
        v.sort();
        T::Set(v)
    }
}

// Constructors for the models.
pub fn tl(v: V) -> T {
    T::It(0, v.0, v.1)
}
pub fn tr(v: V) -> T {
    T::It(1, v.0, v.1)
}
pub fn tpair(l: V, r: V) -> T {
    T::Tup(vec![tl(l), tr(r)])
}
pub fn some(x: T) -> T {
    T::Some(Box::new(x))
}
pub fn opt(x: Option<T>) -> T {
    match x {
        None => T::None,
        Some(x) => some(x),
    }
}
pub fn opair(a: Option<T>, b: Option<T>) -> T {
    match (a, b) {
        (None, None) => T::Neither,
        (Some(a), None) => T::Left(Box::new(a)),
        (None, Some(b)) => T::Right(Box::new(b)),
        (Some(a), Some(b)) => T::Both(Box::new(a), Box::new(b)),
    }
}
