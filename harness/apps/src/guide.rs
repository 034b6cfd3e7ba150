//! The login flow and the programs of the guide.
use crate::driver::*;
use crate::ex;
use crate::page::*;
use wasm_bindgen::native;

fn reads(want: &str, what: &str) -> CaseResult {
    no_errors(what)?;
    let t = body_text();
    check!(t == want, "{what}: the page reads {t:?}, expected {want:?}");
    cov(|c| c.hit("checks"));
    Ok(())
}
/// most of `ms` passes and nothing changes; then the rest does
fn pass(cx: &mut Cx, ms: f64, want: &str, what: &str) -> CaseResult {
    let first = cx.rng.below(ms as usize) as f64;
    native::advance(first);
    reads(want, what)?;
    native::advance(ms - first);
    Ok(())
}
pub fn login(cx: &mut Cx) -> CaseResult {
    let m = mount(ex::login::the_app());
    let body = root();
    let form = "username is 'user' and password is 'asdf'Login";
    for round in 0.. {
        reads(form, "the login form")?;
        let i = by_tag(&body, "input");
        check!(i.len() == 2, "{} inputs", i.len());
        check!(value(&i[0]).is_empty() && value(&i[1]).is_empty(), "the form isn't empty");
        let right = round > 3 || cx.rng.chance(1, 2);
        let (u, p) = if right { ("user", "asdf") } else { *cx.rng.pick(&[("user", "asd"), ("", ""), ("asdf", "user"), ("User", "asdf")]) };
        tr!("login with {u:?} {p:?}");
        i[0].set_prop("value", u.into());
        i[1].set_prop("value", p.into());
        native::advance(cx.rng.below(5000) as f64);
        reads(form, "the login form")?;
        click(&one(by_tag(&body, "button"), "buttons")?);
        settle();
        reads("logging in", "logging in")?;
        pass(cx, 1500.0, "logging in", "logging in")?;
        if right {
            break;
        }
        reads("incorrect username/passwordRetry", "a wrong password")?;
        click(&one(by_tag(&body, "button"), "buttons")?);
        settle();
        cov(|c| c.sig(("login", round, u, p)));
    }
    let f = "fetching list of available data";
    reads(f, "fetching")?;
    pass(cx, 1500.0, f, "fetching")?;
    reads("which one do you want?data with id 1data with id 2data with id 3data with id 4", "the choice")?;
    let b = by_tag(&body, "button");
    check!(b.len() == 4, "{} buttons", b.len());
    let k = cx.rng.below(4);
    click(&b[k]);
    settle();
    reads("fetching data", "fetching data")?;
    pass(cx, 1500.0, "fetching data", "fetching data")?;
    reads(&format!("the connector returned: data id={}: blah blah blah", k + 1), "the result")?;
    cov(|c| c.sig(("login", k)));
    native::advance(cx.rng.below(10_000) as f64);
    reads(&format!("the connector returned: data id={}: blah blah blah", k + 1), "the result")?;
    m.unmount()
}
pub fn run(cx: &mut Cx) -> CaseResult {
    let body = root();
    let which = cx.rng.below(9);
    cov(|c| c.hit(&format!("guide program {which}")));
    cov(|c| c.sig(("guide", which)));
    let soon = "I will disappear soon!";
    let gone = "The button is gone!";
    match which {
        0 | 1 => {
            let m = if which == 0 { mount(ex::guide::slot::one()) } else { mount(ex::guide::slot::two()) };
            reads(soon, "at first")?;
            check!(by_tag(&body, "button").len() == 1, "no button");
            pass(cx, 3000.0, soon, "before three seconds")?;
            reads(gone, "after three seconds")?;
            check!(by_tag(&body, "button").is_empty(), "the button stays");
            pass(cx, 3000.0, gone, "before six seconds")?;
            reads("", "after six seconds")?;
            m.unmount()
        }
        2 => {
            let n = cx.rng.below(12);
            let m = mount(ex::guide::js_api::count(n as i32));
            for k in (1..=n).rev() {
                pass(cx, 1000.0, &k.to_string(), "counting down")?;
            }
            reads("boom!", "at the end")?;
            native::advance(5000.0);
            reads("boom!", "at the end")?;
            m.unmount()
        }
        3 => {
            let m = mount(ex::guide::lists::fibo());
            let line = |k: usize, f: u64| format!("The {k}th Fibonacci number is {f}.");
            let mut fs = vec![1u64, 1];
            let mut kept: Vec<O> = vec![];
            for _ in 0..cx.scaled(2, 60) {
                let want: String = fs.iter().enumerate().map(|(i, f)| line(i + 1, *f)).collect();
                pass(cx, 1000.0, &want, "counting up")?;
                let n = fs.len();
                fs.push(fs[n - 1] + fs[n - 2]);
                let ds = by_tag(&body, "div");
                check!(ds.len() == fs.len(), "{} lines for {} numbers", ds.len(), fs.len());
                for (a, b) in kept.iter().zip(&ds) {
                    check!(std::rc::Rc::ptr_eq(a, b), "a line was made anew");
                }
                kept = ds;
            }
            m.unmount()
        }
        4 | 5 => {
            let m = if which == 4 { mount(ex::guide::components::spans()) } else { mount(ex::guide::components::spans_2()) };
            let want: String = "Hello World".to_string() + &(1..=100).map(|n| n.to_string()).collect::<String>();
            reads(&want, "the page")?;
            let d = elements(&one(elements(&body), "outer elements")?);
            let tags: Vec<&str> = d.iter().map(|o| tag(o)).collect();
            check!(tags.len() == 102 && tags[0] == "button" && tags[101] == "input" && tags[1..101].iter().all(|t| *t == "span"), "the elements are {tags:?}");
            m.unmount()
        }
        6 => {
            let m = mount(ex::guide::components::hello());
            reads("Hello World", "the page")?;
            m.unmount()
        }
        7 => {
            // waits for one click
            let m = mount(ex::guide::events::link());
            let a = one(by_tag(&body, "a"), "links")?;
            check!(!click(&a), "the link's default action was not prevented");
            settle();
            reads("I'm a link!", "the page")?;
            let free = click(&a);
            check!(free, "the app still handles clicks after the first");
            m.unmount()
        }
        _ => {
            let m = mount(ex::guide::events::links());
            let a = one(by_tag(&body, "a"), "links")?;
            for _ in 0..cx.scaled(1, 20) {
                check!(!click(&a), "the link's default action was not prevented");
                settle();
                reads("I'm a link!", "the page")?;
            }
            m.unmount()
        }
    }
}
