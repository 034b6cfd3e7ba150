#[macro_use]
#[path = "../../common/driver.rs"]
mod driver;
#[cfg(not(feature = "control"))]
mod cell;
#[cfg(not(feature = "control"))]
mod store;
#[cfg(not(feature = "control"))]
mod universe;
use driver::Prop;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
/// bytes allocated and not freed by this thread
pub fn live_bytes() -> i64 {
    LIVE.with(|c| c.get())
}


#[cfg(feature = "control")]
fn main() {
    // no derived types: does the rest still compile?
    use x_bow::{PathExt, PathExtGuaranteed};
    let store = x_bow::Store::new(vec![Some(0u32)]);
    let item = store.build_path().index(0);
    drop(item.until_change());
    drop(item.borrow_opt());
    drop(store.build_path().borrow_mut());
    let _ = async_ui_internal_utils::reactive_cell::ReactiveCell::new(live_bytes());
    driver::main(&[])
}
#[cfg(not(feature = "control"))]
fn main() {
    driver::main(&[
        Prop { id: "R01", run: store::r01, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "R02", run: store::r02, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "R03", run: store::r03, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "R04", run: store::r04, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "R05", run: store::r05, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "U01", run: cell::u01, directed: &[], quick: 40_000, thorough: 2_000_000 },
    ])
}
