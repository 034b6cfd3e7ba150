#[macro_use]
#[path = "../../common/driver.rs"]
mod driver;
mod comb;
mod dropdown;
mod ev;
mod exec;
mod grow;
mod html;
mod lists;
mod stat;
mod tree;
mod virt;
use driver::Prop;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
/// bytes allocated and not freed by this thread
pub fn live_bytes() -> i64 {
    LIVE.with(|c| c.get())
}

fn main() {
    driver::main(&[
        Prop { id: "C01", run: comb::c01, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "C02", run: comb::c02, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "C03", run: comb::c03, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "M02", run: comb::m02, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "D01", run: tree::d01, directed: stat::PROGRAMS, quick: 40_000, thorough: 2_000_000 },
        Prop { id: "D02", run: tree::d02, directed: stat::PROGRAMS, quick: 40_000, thorough: 2_000_000 },
        Prop { id: "D03", run: tree::d03, directed: stat::PROGRAMS, quick: 40_000, thorough: 2_000_000 },
        Prop { id: "X01", run: exec::x01, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "S01", run: lists::s01, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "L01", run: lists::l01, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "L02", run: lists::l02, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "L03", run: lists::l03, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "L04", run: lists::l04, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "W01", run: dropdown::w01, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "E01", run: ev::e01, directed: &[("named-helpers", ev::helpers1)], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "E02", run: ev::e02, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "E03", run: ev::e03, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "H01", run: html::h01, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "G01", run: grow::g01, directed: &[], quick: 40_000, thorough: 2_000_000 },
        Prop { id: "L05", run: virt::l05, directed: &[("reset-many", virt::reset_many), ("many-at-once", virt::many_at_once)], quick: 40_000, thorough: 2_000_000 },
    ])
}
