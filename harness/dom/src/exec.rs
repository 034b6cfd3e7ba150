//! X01: random crowds of tasks on the page executor; every waker use is followed until the
//! poll it must cause.
use crate::driver::*;
use async_executor::Task;
use async_ui_web::event_traits::*;
use async_ui_web::executor::get_executor;
use async_ui_web::{join, mount_at, race, select};
use futures_lite::Stream;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use wasm_bindgen::closure::Closure;
use wasm_bindgen::native::{self, Obj};
use wasm_bindgen::{JsCast, JsValue};

#[derive(Default)]
struct T {
    wakers: Vec<Waker>,
    wakes: u64,
    polls: u64,
    /// woken and not polled since: the newest callback that was queued then
    pending: Option<u32>,
    gone: bool,
    canceled: bool,
    burst: u32,
    listens: bool,
    registered: bool,
}
struct W {
    rng: Rng,
    t: Vec<T>,
    polling: Option<usize>,
    bad: Vec<String>,
    budget: usize,
    last_timer: u32,
    preempt: usize,
    disturbed: bool,
    targets: Vec<Rc<Obj>>,
    handles: Vec<Option<Task<()>>>,
    hooks: u64,
}
thread_local! {
    static W_: RefCell<Option<W>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut W) -> R) -> R {
    W_.with(|w| f(w.borrow_mut().as_mut().expect("HARNESS: no world")))
}
fn timers() -> Vec<u32> {
    native::page().timers.borrow().iter().filter(|t| t.kind != "harness").map(|t| t.id).collect()
}
fn newest() -> u32 {
    let n = native::page().timers.borrow().iter().map(|t| t.id).max().unwrap_or(0);
    with(|w| {
        w.last_timer = w.last_timer.max(n);
        w.last_timer
    })
}
fn queue_check(when: &str) {
    let n = timers().len();
    with(|w| {
        if n > 1 + w.preempt {
            let p = w.preempt;
            w.bad.push(format!("{n} callbacks of the executor are queued {when} ({p} events handled meanwhile)"));
        }
    });
    cov(|c| c.max("callbacks_queued", n as u64));
}

struct Probe {
    id: usize,
    ev: Option<async_ui_web::event_handling::EventFutureStream<web_sys::Event>>,
    target: usize,
}
impl Future for Probe {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let id = self.id;
        let fin = with(|w| {
            tr!("poll t{id}");
            if let Some(o) = w.polling {
                w.bad.push(format!("task {id} is polled while task {o} is being polled"));
            }
            if w.t[id].gone {
                w.bad.push(format!("task {id} is polled after it ended"));
            }
            let t = &mut w.t[id];
            t.polls += 1;
            t.pending = None;
            let (p, k) = (t.polls, t.wakes);
            if p > k {
                w.bad.push(format!("task {id} is polled {p} times after {k} wakes"));
            }
            w.polling = Some(id);
            let keep = w.rng.chance(1, 3);
            let t = &mut w.t[id];
            if !keep {
                t.wakers.clear();
            }
            if t.wakers.len() < 4 {
                t.wakers.push(cx.waker().clone());
            }
            w.rng.chance(1, 25)
        });
        // the listening part
        if let Some(mut s) = self.ev.take() {
            let p = Pin::new(&mut s).poll_next(cx);
            with(|w| w.t[id].registered = true);
            if p.is_ready() {
                cov(|c| c.hit("events_received"));
                // an event may be followed by one more
                hook();
                let _ = Pin::new(&mut s).poll_next(cx);
            }
            self.ev = Some(s);
        }
        let burst = with(|w| {
            let t = &mut w.t[id];
            if t.burst > 0 {
                t.burst -= 1;
                true
            } else {
                false
            }
        });
        if burst {
            wake(id);
        }
        for _ in 0..with(|w| w.rng.below(3)) {
            hook();
        }
        with(|w| w.polling = None);
        if fin && !burst {
            with(|w| w.t[id].gone = true);
            return Poll::Ready(());
        }
        Poll::Pending
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        let _ = W_.try_with(|w| {
            if let Ok(mut w) = w.try_borrow_mut() {
                if let Some(w) = w.as_mut() {
                    w.t[self.id].gone = true;
                    w.t[self.id].pending = None;
                }
            }
        });
        let _ = self.target;
    }
}
fn wake(i: usize) {
    let wk = with(|w| {
        if w.t[i].wakers.is_empty() {
            return None;
        }
        let n = w.t[i].wakers.len();
        let k = w.rng.below(n);
        let by = w.rng.below(3);
        let wk = match by {
            0 => w.t[i].wakers.swap_remove(k),
            _ => w.t[i].wakers[k].clone(),
        };
        w.disturbed = true;
        tr!("wake t{i}{}", if w.polling.is_some() { " (inside a poll)" } else { "" });
        let t = &mut w.t[i];
        if !t.gone && !t.canceled {
            t.wakes += 1;
            t.pending.get_or_insert(u32::MAX);
        }
        Some((wk, by))
    });
    let Some((wk, by)) = wk else { return };
    if by == 1 {
        wk.wake_by_ref();
        drop(wk);
    } else {
        wk.wake();
    }
    cov(|c| c.hit("wakes"));
    let n = newest();
    with(|w| {
        if w.t[i].pending == Some(u32::MAX) {
            w.t[i].pending = Some(n);
        }
    });
    queue_check("after a wake");
}
fn spawn(mounted: bool) {
    let (id, burst, listen, target) = with(|w| {
        let burst = if w.rng.chance(1, 30) { w.rng.range(150, 700) as u32 } else { w.rng.below(3) as u32 };
        let listen = w.rng.chance(1, 3);
        let target = w.rng.below(w.targets.len());
        w.t.push(T { burst, wakes: 1, listens: listen, pending: Some(u32::MAX), ..T::default() });
        w.disturbed = true;
        (w.t.len() - 1, burst, listen, target)
    });
    tr!("{} t{id}{}", if mounted { "mount" } else { "spawn" }, if burst > 100 { " (busy)" } else { "" });
    cov(|c| c.hit(if mounted { "mounted" } else { "spawned" }));
    let ev = if listen {
        let t: web_sys::EventTarget = JsValue::from_obj(with(|w| w.targets[target].clone())).unchecked_into();
        Some(t.until_event::<web_sys::Event>("ping".into()))
    } else {
        None
    };
    let p = Probe { id, ev, target };
    // tasks may await combinators, whether they are shown somewhere or not
    let shape = with(|w| w.rng.below(8));
    let p: Pin<Box<dyn Future<Output = ()>>> = match shape {
        0 => Box::pin(async move { drop(join((p, async {})).await) }),
        1 => Box::pin(async move { race((std::future::pending(), p)).await }),
        2 => Box::pin(async move { drop(join(vec![p]).await) }),
        3 => Box::pin(async move { drop(race([join([p])]).await) }),
        4 => Box::pin(async move {
            select! {
                _ = p => (),
                _ = std::future::pending::<()>() => (),
            }
        }),
        _ => Box::pin(p),
    };
    if shape < 5 && !mounted {
        cov(|c| c.hit("spawned with a combinator"));
    }
    let task = if mounted {
        let body: web_sys::Node = JsValue::from_obj(native::body()).unchecked_into();
        mount_at(p, body)
    } else {
        get_executor().spawn(p)
    };
    let n = newest();
    with(|w| {
        w.t[id].listens = listen;
        if w.t[id].pending == Some(u32::MAX) {
            w.t[id].pending = Some(n);
        }
        if w.rng.chance(1, 4) {
            task.detach();
            w.handles.push(None);
        } else {
            w.handles.push(Some(task));
        }
    });
    queue_check("after a spawn");
}
/// one random thing app code or a foreign callback may do
fn hook() {
    let (what, n) = with(|w| {
        w.hooks += 1;
        if w.budget == 0 {
            return (99, 0);
        }
        w.budget -= 1;
        (w.rng.below(12), w.t.len())
    });
    match what {
        0..=4 if n > 0 => {
            let i = with(|w| w.rng.below(n));
            wake(i)
        }
        5 => timer(),
        6 => dispatch(),
        7 if n < 40 => spawn(with(|w| w.rng.chance(1, 3))),
        8 => cancel(),
        9 if n > 0 => {
            for _ in 0..3 {
                let i = with(|w| w.rng.below(n));
                wake(i)
            }
        }
        _ => {}
    }
}
fn timer() {
    let k = with(|w| w.rng.below(3));
    let c = Closure::<dyn FnMut()>::new(move || {
        tr!("timer");
        for _ in 0..k {
            hook()
        }
    });
    native::add_timer(c.into_js_value(), vec![], 0.0, "harness");
    newest();
}
fn dispatch() {
    let (t, ix) = with(|w| {
        let ix = w.rng.below(w.targets.len());
        w.disturbed = true;
        (w.targets[ix].clone(), ix)
    });
    // every listener there may let the executor run before the queued callback does
    let k = native::listeners_of(&t).len();
    with(|w| w.preempt += k);
    tr!("dispatch at {ix}");
    cov(|c| c.hit("dispatches"));
    // an event is a wake for the tasks listening there
    with(|w| {
        for t in w.t.iter_mut().filter(|t| t.listens && t.registered && !t.gone) {
            t.wakes += 1;
        }
    });
    let ev = native::new_event("Event", "ping", true, true);
    native::dispatch_event(&t, &ev).unwrap();
}
fn cancel() {
    let h = with(|w| {
        let live: Vec<usize> = (0..w.handles.len()).filter(|i| w.handles[*i].is_some() && w.polling != Some(*i)).collect();
        if live.is_empty() {
            return None;
        }
        let i = live[w.rng.below(live.len())];
        tr!("drop the handle of t{i}");
        w.t[i].canceled = true;
        w.t[i].pending = None;
        w.disturbed = true;
        w.handles[i].take()
    });
    if h.is_some() {
        cov(|c| c.hit("canceled"));
    }
    drop(h);
    newest();
}
fn settled(what: &str) -> CaseResult {
    let q: Vec<u32> = native::page().timers.borrow().iter().map(|t| t.id).collect();
    queue_check(what);
    if timers().is_empty() {
        with(|w| w.preempt = 0);
    }
    with(|w| {
        let late = w.t.iter().enumerate().find(|(_, t)| t.pending.is_some_and(|d| !t.gone && !t.canceled && !q.iter().any(|i| *i <= d)));
        if let Some((i, _)) = late {
            w.bad.push(format!("task {i} was woken (or spawned), every callback queued in the browser by then has run, and it has not been polled (after {what})"));
        }
        match w.bad.first() {
            Some(b) => Err(b.clone()),
            None => Ok(()),
        }
    })?;
    check!(native::page().uncaught.borrow().is_empty(), "an exception escaped: {:?}", native::page().uncaught.borrow());
    Ok(())
}
fn run_one() -> CaseResult {
    if native::pending_timers() == 0 {
        return Ok(());
    }
    let before = timers().len();
    let was_exec = native::page().timers.borrow().front().is_some_and(|t| t.kind != "harness");
    let quiet = with(|w| {
        w.disturbed = false;
        !w.t.iter().any(|t| t.pending.is_some() && !t.gone && !t.canceled)
    });
    native::run_one_timer();
    newest();
    if quiet && was_exec && !with(|w| w.disturbed) {
        cov(|c| c.hit("idle_runs"));
        check!(timers().len() < before, "nothing was woken, yet running the executor queued another callback");
    }
    settled("a queued callback ran")
}
pub fn x01(cx: &mut Cx) -> CaseResult {
    let steps = cx.scaled(4, 60);
    let targets: Vec<Rc<Obj>> = (0..2)
        .map(|_| {
            let e = native::new_element_raw("div");
            native::insert_before(&native::body(), &e, None).unwrap();
            e
        })
        .collect();
    // a listener the framework knows nothing about
    for t in &targets {
        if cx.rng.chance(1, 2) {
            let c = Closure::<dyn Fn(JsValue)>::new(|_| hook()).into_js_value();
            let et: web_sys::EventTarget = JsValue::from_obj(t.clone()).unchecked_into();
            et.add_event_listener_with_callback("ping", c.unchecked_ref()).unwrap();
        }
    }
    W_.with(|w| {
        *w.borrow_mut() = Some(W {
            rng: cx.rng.fork(),
            t: vec![],
            polling: None,
            bad: vec![],
            budget: steps * 4,
            last_timer: 0,
            preempt: 0,
            disturbed: false,
            targets,
            handles: vec![],
            hooks: 0,
        })
    });
    let r = go(cx, steps);
    let w = W_.with(|w| w.borrow_mut().take()).unwrap();
    cov(|c| {
        c.add("polls", w.t.iter().map(|t| t.polls).sum());
        let sig: Vec<(u64, u64, bool)> = w.t.iter().map(|t| (t.polls, t.wakes, t.canceled)).collect();
        c.sig((sig, w.hooks));
    });
    drop(w);
    r
}
fn go(cx: &mut Cx, steps: usize) -> CaseResult {
    let first_mounted = cx.rng.chance(1, 2);
    spawn(first_mounted);
    settled("the first spawn")?;
    for _ in 0..steps {
        match cx.rng.below(10) {
            0..=3 => run_one()?,
            4 => {
                with(|w| w.budget += 1);
                dispatch();
                newest();
                settled("an event")?
            }
            5 => {
                with(|w| w.budget += 2);
                let n = with(|w| w.t.len());
                if n < 40 {
                    spawn(cx.rng.chance(1, 3));
                }
                settled("a spawn")?
            }
            6 => {
                native::run_timers(cx.rng.range(1, 5));
                newest();
                settled("callbacks ran")?
            }
            _ => {
                with(|w| w.budget += 2);
                hook();
                newest();
                settled("an outside action")?
            }
        }
    }
    with(|w| w.budget = 0);
    let mut n = 0;
    while native::pending_timers() > 0 {
        run_one()?;
        n += 1;
        check!(n < 20_000, "the page never goes idle although nothing is woken");
    }
    settled("everything ran")?;
    with(|w| {
        let p = w.t.iter().enumerate().find(|(_, t)| t.pending.is_some() && !t.gone && !t.canceled);
        check!(p.is_none(), "task {} was woken and never polled", p.unwrap().0);
        Ok(())
    })?;
    let hs = with(|w| std::mem::take(&mut w.handles));
    drop(hs);
    native::run_timers(1000);
    with(|w| match w.bad.first() {
        Some(b) => Err(b.clone()),
        None => Ok(()),
    })
}
