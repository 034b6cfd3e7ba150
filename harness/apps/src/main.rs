//! A01: the repository's own example applications and guide programs, run whole on the simulated
//! page and driven by random users; each is compared with a model of what it should show.
#[macro_use]
#[path = "../../common/driver.rs"]
mod driver;
mod biglist;
mod circles;
mod drag;
mod guide;
mod page;
mod play;
mod simple;
mod todo;
use driver::*;

#[rustfmt::skip]
mod ex {
    //! the applications, as they are in the repository
    #![allow(dead_code, unused_imports)]
    #[path = "/repo/examples/web-todomvc/src/app.rs"] pub mod todomvc;
    #[path = "/repo/examples/web-simple-examples/src/counter.rs"] pub mod counter;
    #[path = "/repo/examples/web-simple-examples/src/temp_converter.rs"] pub mod temp_converter;
    #[path = "/repo/examples/web-simple-examples/src/timer.rs"] pub mod timer;
    #[path = "/repo/examples/web-simple-examples/src/crud.rs"] pub mod crud;
    #[path = "/repo/examples/web-simple-examples/src/cells.rs"] pub mod cells;
    #[path = "/repo/examples/web-simple-examples/src/circles.rs"] pub mod circles;
    #[path = "/repo/examples/web-simple-examples/src/flight.rs"] pub mod flight;
    #[path = "/repo/examples/big-list/src/app.rs"] pub mod big_list;
    #[path = "/repo/examples/async_ui_web_draggable/src/lib.rs"] pub mod draggable;
    pub mod login {
        include!("/repo/examples/login-flow/src/lib.rs");
        pub async fn the_app() { app().await }
    }
    pub mod play {
        include!("/repo/examples/x-bow-playground/src/lib.rs");
        pub async fn the_app() { app().await }
    }
    pub mod guide {
        pub mod slot {
            include!("/repo/examples/guide-project/src/dynamicity/dynamic_slot.rs");
            pub async fn one() { show_button_and_remove().await }
            pub async fn two() { show_button_and_remove_2().await }
        }
        pub mod js_api {
            include!("/repo/examples/guide-project/src/dynamicity/js_api.rs");
            pub async fn count(n: i32) { countdown(n).await }
        }
        pub mod lists {
            include!("/repo/examples/guide-project/src/dynamicity/lists.rs");
            pub async fn fibo() { fibonacci().await }
        }
        pub mod components {
            include!("/repo/examples/guide-project/src/building_ui/components.rs");
            pub async fn spans() { lots_of_span().await }
            pub async fn spans_2() { lots_of_span_2().await }
            pub async fn hello() { app().await }
        }
        pub mod events {
            include!("/repo/examples/guide-project/src/events/mod.rs");
            pub async fn quick() { quick_example().await }
            pub async fn link() { return_type().await }
            pub async fn links() { prevent_default_with_stream().await }
        }
    }
}

type App = fn(&mut Cx) -> CaseResult;
/// (name, relative frequency, scenario)
const APPS: &[(&str, usize, App)] = &[
    ("todomvc", 8, todo::run),
    ("counter", 2, simple::counter),
    ("temp_converter", 2, simple::converter),
    ("timer", 3, simple::timer),
    ("crud", 4, simple::crud),
    ("cells", 1, simple::cells),
    ("flight", 2, simple::flight),
    ("circles", 6, circles::run),
    ("login-flow", 3, guide::login),
    ("x-bow-playground", 5, play::run),
    ("draggable", 4, drag::run),
    ("big-list", 3, biglist::run),
    ("guide", 4, guide::run),
];
fn a01(cx: &mut Cx) -> CaseResult {
    let total: usize = APPS.iter().map(|a| a.1).sum();
    let mut k = cx.rng.below(total);
    let app = APPS
        .iter()
        .find(|a| {
            if k < a.1 {
                true
            } else {
                k -= a.1;
                false
            }
        })
        .unwrap();
    tr!("application {}", app.0);
    cov(|c| c.hit(&format!("app {}", app.0)));
    page::new_page(cx);
    app.2(cx).map_err(|e| format!("{}: {e}", app.0))
}
fn main() {
    driver::main(&[Prop { id: "A01", run: a01, directed: &[], quick: 40_000, thorough: 2_000_000 }])
}
