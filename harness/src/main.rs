mod base;
mod driver;
mod exec;
mod items;
mod model;
mod ops;
#[macro_use]
mod props_hist;
#[macro_use]
mod props_iter;
mod props_rel;
mod props_cap;
mod props_huge;
mod props_misc;
mod props_types;
mod props_panic;
mod props_hasher;
mod props_mem;
mod props_alloc;
#[global_allocator]
static ALLOC: props_alloc::Count = props_alloc::Count;
mod tree;
/// The item types most checks use.
mod ty {
    pub use crate::items::{L, R};
    pub const LDOM: u16 = u16::MAX;
    pub const RDOM: u16 = u16::MAX;
}

fn main() {
    use driver::def;
    use props_hist as h;
    use props_iter as it;
    use props_rel as rl;
    use props_cap as cp;
    use props_misc as mi;
    use props_types as ty;
    use props_panic as pn;
    use props_hasher as hs;
    use props_mem as me;
    use props_alloc as al;
    let props = vec![
        def::<h::C01>(), def::<h::C02>(), def::<h::C03>(), def::<h::C04>(), def::<h::C05>(), def::<h::C06>(),
        def::<h::C07>(), def::<h::C08>(), def::<h::C09>(),
        def::<it::C10>(), def::<it::C11>(), def::<it::C12>(), def::<it::C13>(), def::<it::C23>(),
        def::<rl::C14>(), def::<rl::C15>(), def::<rl::C20>(), def::<rl::C21>(), def::<rl::C25>(),
        def::<cp::C16>(), def::<cp::C22>(), def::<cp::C26>(),
        def::<mi::C17>(), def::<mi::C18>(), def::<mi::C19>(), def::<mi::C24>(),
        def::<ty::C27>(), def::<pn::C28>(), def::<hs::C29>(), def::<me::C31>(), def::<al::C32>(),
    ];
    std::process::exit(driver::main(props));
}
