//! Hand-written applications whose futures are nested inline, without boxes, so that the
//! compiler lays the framework's types inside one another. Each is displayed among
//! siblings, then cut off (its siblings must stay and its own nodes go), and in another
//! run dropped with its mount handle; the page is compared with the expected dump.
use crate::driver::*;
use async_ui_web::components::DynamicSlot;
use async_ui_web::lists::{DiffedList, DynamicList, ListModel, ModeledList};
use async_ui_web::prelude_traits::*;
use async_ui_web::shortcut_traits::UiFutureExt;
use async_ui_web::{html, join, mount_at, race, race_ok, select, try_join};
use std::cell::{Cell, RefCell};
use std::future::{pending, Future};
use std::rc::Rc;
use std::task::{Poll, Waker};
use wasm_bindgen::native;

/// a future that finishes when told to, and counts its drops
#[derive(Clone, Default)]
pub struct Sig(Rc<(Cell<bool>, RefCell<Vec<Waker>>)>);
impl Sig {
    pub fn set(&self) {
        self.0 .0.set(true);
        for w in self.0 .1.take() {
            w.wake();
        }
    }
    pub async fn wait(&self) {
        std::future::poll_fn(|cx| {
            if self.0 .0.get() {
                Poll::Ready(())
            } else {
                self.0 .1.borrow_mut().push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
/// lives inside a future's frame
struct Alive;
fn alive() -> Alive {
    LIVE.with(|l| l.set(l.get() + 1));
    Alive
}
impl Drop for Alive {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
fn tx(s: &'static str) -> impl Future<Output = ()> {
    async move {
        let _a = alive();
        s.render().await
    }
}
/// the content of a container without the list markers
fn shown(o: &Rc<native::Obj>) -> String {
    fn go(o: &Rc<native::Obj>, out: &mut String) {
        for c in native::children_of(o) {
            let n = c.node().unwrap();
            match n.kind {
                native::NodeKind::Element => {
                    out.push_str(&n.name);
                    out.push('(');
                    go(&c, out);
                    out.push(')');
                }
                native::NodeKind::Text => out.push_str(&n.data.borrow()),
                _ => {}
            }
        }
    }
    let mut s = String::new();
    go(o, &mut s);
    s
}
fn settle() -> Result<(), String> {
    let n = native::run_timers(2000);
    check!(n < 2000, "HARNESS: the page does not settle");
    check!(native::stats(|s| s.exceptions) == 0, "a DOM operation failed");
    check!(native::page().uncaught.borrow().is_empty(), "uncaught: {:?}", native::page().uncaught.borrow());
    Ok(())
}
fn run_program<F: Future<Output = ()> + 'static>(make: impl Fn(Sig) -> F, first: &str, second: &str) -> CaseResult {
    let body = native::body();
    let host = native::new_element_raw("section");
    native::insert_before(&body, &host, None).unwrap();
    let own = native::new_char_data(native::NodeKind::Text, "own ");
    native::insert_before(&host, &own, None).unwrap();
    let node = crate::tree::to_node(&host);
    // the same program under different ends
    for mode in 0..6 {
        let (step, cut) = (Sig::default(), Sig::default());
        let (s2, c2) = (step.clone(), cut.clone());
        let f = make(s2);
        let app = async move {
            join((
                "[".render(),
                async {
                    race((f, c2.wait())).await;
                    "after".render().await;
                },
                "]".render(),
            ))
            .await;
        };
        let want = |h: &str, what: &str| -> CaseResult {
            let got = shown(&host);
            check!(got == h, "mode {mode}, {what}: expected {h:?} found {got:?}");
            Ok(())
        };
        let handle = mount_at(app, node.clone());
        if mode == 0 {
            drop(handle);
            settle()?;
            want("own ", "handle dropped before the first poll")?;
            check!(LIVE.with(|l| l.get()) == 0, "futures are still alive after unmounting");
            continue;
        }
        settle()?;
        want(&format!("own [{first}]"), "displayed")?;
        if mode >= 3 {
            step.set();
            settle()?;
            want(&format!("own [{second}]"), "after the step")?;
        }
        if mode % 3 == 1 {
            cut.set();
            settle()?;
            want("own [after]", "cut off")?;
            check!(LIVE.with(|l| l.get()) == 0, "futures are still alive after being cut off");
        }
        if mode == 5 {
            // finish and unmount without letting the page run in between
            cut.set();
        }
        tr!("drop the mount handle (mode {mode})");
        drop(handle);
        settle()?;
        want("own ", "unmounted")?;
        check!(LIVE.with(|l| l.get()) == 0, "futures are still alive after unmounting");
    }
    cov(|c| {
        c.hit("static_program_runs");
        c.sig(format!("{first}|{second}"));
    });
    Ok(())
}
macro_rules! programs {
    ($($name:ident ( $s:ident ) $first:literal $second:literal $body:block)*) => {
        $(fn $name(_: &mut Cx) -> CaseResult {
            run_program(|$s: Sig| async move { $body }, $first, $second)
        })*
        pub const PROGRAMS: &[(&str, fn(&mut Cx) -> CaseResult)] = &[$((stringify!($name), $name as fn(&mut Cx) -> CaseResult)),*];
    };
}
programs! {
    div_join(_s) "div(ab)" "div(ab)" {
        html::Div::new().render(join((tx("a"), tx("b")))).await;
    }
    join_divs(_s) "div(a)div(b)" "div(a)div(b)" {
        join((html::Div::new().render(tx("a")), html::Div::new().render(tx("b")))).await;
    }
    deep(_s) "div(span(div(a)))" "div(span(div(a)))" {
        let d = html::Div::new();
        d.render(html::Span::new().render(html::Div::new().render(tx("a")))).await;
    }
    tree3(_s) "div(div(a)div(bb)c)" "div(div(a)div(bb)c)" {
        html::Div::new()
            .render(join((
                html::Div::new().render(tx("a")),
                html::Div::new().render(join((tx("b"), tx("b")))),
                tx("c"),
            )))
            .await;
    }
    arr(_s) "div(abc)" "div(abc)" {
        html::Div::new().render(join([tx("a"), tx("b"), tx("c")])).await;
    }
    vecs(_s) "div(abc)x" "div(abc)x" {
        join((html::Div::new().render(join(vec![tx("a"), tx("b"), tx("c")])), tx("x"))).await;
    }
    nested_combinators(_s) "abcdef" "abcdef" {
        join((
            join((tx("a"), race((tx("b"), tx("c"))))),
            race([race((tx("d"), pending())), race((tx("e"), pending()))]).map_unit(),
            tx("f"),
        ))
        .await;
    }
    first_leaves(s) "div(ab)c" "dc" {
        join((
            async {
                race((html::Div::new().render(join((tx("a"), tx("b"))).map_unit()), s.wait())).await;
                tx("d").await;
            },
            tx("c"),
        ))
        .await;
    }
    late_in_the_middle(s) "ac" "abbc" {
        join((
            tx("a"),
            async {
                s.wait().await;
                join((tx("b"), tx("b"))).await;
            },
            tx("c"),
        ))
        .await;
    }
    slot_inline(s) "div(<div(a)>)" "div(<span(b)>)" {
        let slot = DynamicSlot::new();
        html::Div::new()
            .render(join((
                tx("<"),
                slot.render(),
                tx(">"),
                async {
                    slot.set_future(either(true));
                    s.wait().await;
                    slot.set_future(either(false));
                },
            )))
            .await;
    }
    slot_outside(s) "<div(a)>" "<>" {
        let slot = DynamicSlot::new();
        slot.set_future(either(true));
        join((
            tx("<"),
            async {
                slot.render().await;
            },
            tx(">"),
            async {
                s.wait().await;
                slot.clear_future();
            },
        ))
        .await;
    }
    list_inline(s) "div(<div(a)span(b)>)" "div(<div(a)div(a)>)" {
        let list = DynamicList::new();
        list.insert(1, either(true), None);
        list.insert(2, either(false), None);
        html::Div::new()
            .render(join((
                tx("<"),
                list.render(),
                tx(">"),
                async {
                    s.wait().await;
                    list.remove(&2);
                    list.insert(3, either(true), None);
                },
            )))
            .await;
    }
    list_of_joins(s) "xyxy" "xy" {
        let list = DynamicList::new();
        list.insert(1, join((tx("x"), tx("y"))), None);
        list.insert(2, join((tx("x"), tx("y"))), None);
        join((list.render(), async {
            s.wait().await;
            list.remove(&1);
        }))
        .await;
    }
    list_in_list(s) "((ab)(ab))" "((ab))" {
        let outer = DynamicList::new();
        fn item() -> impl Future<Output = ()> {
            async move {
                let _a = alive();
                let inner = DynamicList::new();
                inner.insert(1, tx("a"), None);
                inner.insert(2, tx("b"), None);
                join((tx("("), inner.render(), tx(")"))).await;
            }
        }
        outer.insert(1, item(), None);
        outer.insert(2, item(), None);
        join((tx("("), outer.render(), tx(")"), async {
            s.wait().await;
            outer.remove(&2);
        }))
        .await;
    }
    list_then_more(s) "p123q" "132done" {
        let list = DynamicList::new();
        list.insert(1, tx("1"), None);
        list.insert(2, tx("2"), None);
        list.insert(3, tx("3"), None);
        race((join((tx("p"), list.render(), tx("q"))).map_unit(), s.wait())).await;
        // taken down, changed, and shown again
        list.swap(&2, &3);
        join((list.render(), tx("done"))).await;
    }
    before_a_list(s) "12" "first12" {
        let list = DynamicList::new();
        list.insert(1, tx("1"), None);
        list.insert(2, tx("2"), None);
        join((
            async {
                s.wait().await;
                tx("first").await;
            },
            list.render(),
        ))
        .await;
    }
    before_two_lists(s) "ul(12)" "ul(x1y2)" {
        let (l1, l2) = (DynamicList::new(), DynamicList::new());
        html::Ul::new()
            .render(join((
                async {
                    s.wait().await;
                    tx("x").await;
                },
                async {
                    l1.insert(1, tx("1"), None);
                    l1.render().await;
                },
                async {
                    s.wait().await;
                    tx("y").await;
                },
                async {
                    l2.insert(1, tx("2"), None);
                    l2.render().await;
                },
            )))
            .await;
    }
    item_removes_itself(s) "a(x)b" "ab" {
        type B = std::pin::Pin<Box<dyn Future<Output = ()>>>;
        let list = Rc::new(DynamicList::<'static, i32, B>::new());
        enum E { A(&'static str), X }
        let item = |e: E| -> B {
            let (s, list) = (s.clone(), Rc::downgrade(&list));
            Box::pin(async move {
                let _a = alive();
                match e {
                    E::A(t) => tx(t).await,
                    E::X => {
                        race((join((tx("("), tx("x"), tx(")"))).map_unit(), s.wait())).await;
                        list.upgrade().unwrap().remove(&1);
                        // still running until the list gets to drop it
                        join((tx("gone"), html::Div::new().render(tx("gone")))).await;
                    }
                }
            })
        };
        list.insert(0, item(E::A("a")), None);
        list.insert(1, item(E::X), None);
        list.insert(2, item(E::A("b")), None);
        list.render().await;
    }
    diffed(s) "ul(li(a)li(b)li(c))" "ul(li(c)li(d)li(a))" {
        let list = DiffedList::new(|k: &&'static str| html::Li::new().render(tx(k)));
        list.update(vec!["a", "b", "c"]);
        html::Ul::new()
            .render(join((list.render(), async {
                s.wait().await;
                list.update(vec!["c", "d", "a"]);
            })))
            .await;
    }
    modeled(s) "ul(li(a)li(b)li(c))" "ul(li(c)li(d)li(a))" {
        let list = ModeledList::new(|k: &&'static str| html::Li::new().render(tx(k)));
        let mut model = ListModel::from_iter(["a", "b", "c"]);
        list.update(&model);
        html::Ul::new()
            .render(join((list.render(), async {
                s.wait().await;
                model.remove(1);
                model.insert(1, "d");
                model.swap(0, 2);
                list.update(&model);
            })))
            .await;
    }
    select_inline(s) "div(ab)c" "div(d)" {
        let n = select! {
            _ = html::Div::new().render(join((tx("a"), tx("b")))) => 1,
            _ = tx("c") => 2,
            _ = s.wait() => 3,
        };
        assert_eq!(n, 3);
        html::Div::new().render(tx("d")).await;
    }
    effects(s) "div(a)" "div(b)e" {
        async {
            race((html::Div::new().render(tx("a")), s.wait())).await;
            html::Div::new().render(tx("b")).await;
        }
        .meanwhile(async {
            s.wait().await;
            tx("e").await;
        })
        .await;
    }
    mixed_results(s) "ab" "dc" {
        let r: Result<(), u8> = async {
            try_join((
                async { tx("a").await; Ok::<(), u8>(()) },
                async { race((tx("b"), s.wait())).await; Err::<(), u8>(4) },
            ))
            .await
            .map(|_| ())
        }
        .await;
        assert_eq!(r, Err(4));
        let r: Result<u8, _> = race_ok((
            async { Ok::<u8, u8>(1) },
            async { tx("x").await; Err::<u8, u8>(4) },
        ))
        .await;
        assert_eq!(r.ok(), Some(1));
        join((tx("d"), tx("c"))).await;
    }
    early_exit(s) "div(div(a)b)" "tail" {
        async {
            html::Div::new()
                .render(async {
                    let r = select! {
                        _ = html::Div::new().render(tx("a")) => 0,
                        _ = async { race((join((pending::<()>(), tx("b"))).map_unit(), s.wait())).await } => 5,
                    };
                    if r == 5 {
                        return;
                    }
                    tx("never").await
                })
                .await
        }
        .await;
        tx("tail").await;
    }
    mounted_inside(s) "div(a|b)" "div(a|)" {
        // another app mounted into an element of this one
        let d = html::Div::new();
        let inner = mount_at(async { join((tx("|"), tx("b"))).await; }, d.element.clone().into());
        join((d.render(tx("a")), async {
            // the guest outlives nothing: it is dropped with this frame or at the step
            s.wait().await;
            drop(inner);
            let again = mount_at(async { tx("|").await; }, d.element.clone().into());
            pending::<()>().await;
            drop(again);
        }))
        .await;
    }
}
trait MapUnit: Future + Sized {
    fn map_unit(self) -> impl Future<Output = ()> {
        async move {
            self.await;
        }
    }
}
impl<F: Future> MapUnit for F {}
fn either(first: bool) -> impl Future<Output = ()> {
    async move {
        let _a = alive();
        if first {
            html::Div::new().render(tx("a")).await;
        } else {
            html::Span::new().render(join((tx("b"), pending::<()>()))).await;
        }
    }
}
