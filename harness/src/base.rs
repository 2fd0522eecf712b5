//! Small things everything needs.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Res<X = ()> = Result<X, String>;

thread_local! {
    pub static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Marker payload for panics the harness raises on purpose.
pub const PLANNED: &str = "planned panic";

/// Runs code under test; a panic becomes an Err.
pub fn guard<X>(f: impl FnOnce() -> X) -> Res<X> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        format!("panicked: {}", PANIC_MSG.with(|m| m.borrow().clone()))
    })
}

