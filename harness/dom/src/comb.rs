//! Engine for the combinator properties (C01, C02, C03, M02): random trees of
//! join/race/try_join/race_ok/pend_after/meanwhile over tuples, arrays and vectors, driven
//! by a scheduler that polls, wakes, keeps, drops wakers and cancels at arbitrary points.
//! Every node is wrapped in a `Probe` that observes polls, wakes, results and drops.
use crate::driver::*;
use async_ui_web_core::combinators::{join, race, race_ok, try_join, UiFutureExt};
use async_ui_web_core::ContainerNodeFuture;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::marker::PhantomPinned;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

// ------------------------------------------------------------------ values
pub struct Tok(pub usize);
impl Drop for Tok {
    fn drop(&mut self) {
        with(|w| {
            let d = &mut w.toks[self.0];
            *d += 1;
            if *d > 1 {
                let id = self.0;
                w.bad("C03", format!("output #{id} dropped twice"));
            }
        });
    }
}
pub enum Val {
    Tok(Tok),
    List(Vec<Val>),
    Res(Box<Res>),
}
pub type Res = Result<Val, Val>;
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Shape {
    Tok(usize),
    List(Vec<Shape>),
    Ok(Box<Shape>),
    Err(Box<Shape>),
}
fn shape(v: &Val) -> Shape {
    match v {
        Val::Tok(t) => Shape::Tok(t.0),
        Val::List(l) => Shape::List(l.iter().map(shape).collect()),
        Val::Res(r) => rshape(r),
    }
}
fn rshape(r: &Res) -> Shape {
    match r {
        Ok(v) => Shape::Ok(Box::new(shape(v))),
        Err(v) => Shape::Err(Box::new(shape(v))),
    }
}

// ------------------------------------------------------------------ world
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Leaf,
    Join,
    Race,
    TryJoin,
    RaceOk,
    PendAfter,
    Meanwhile,
}
#[derive(Default)]
struct NodeRec {
    kind: Option<Kind>,
    parent: Option<usize>,
    children: Vec<usize>,
    label: String,
    polls: u64,
    /// woken (through any of its wakers) since its last poll began; true initially
    due: bool,
    /// its latest waker was used since its last poll began
    notified: bool,
    gen: u64,
    in_poll: bool,
    result: Option<Shape>,
    dropped: u32,
    addr: usize,
    panicked: bool,
    /// wakers the leaf kept
    kept: Vec<Waker>,
    cached: Option<(Waker, Waker)>,
    polls_left: i64,
    ok: bool,
    /// at the start of the parent's current poll: due, and how often polled so far
    must_poll: bool,
    polls_at_start: u64,
    /// clock of the last wake through any waker of this future
    woken_at: u64,
    /// clock at which the current / last poll of this future began
    began: u64,
    /// `began` of the parent when it last polled this future
    parent_began: u64,
}
pub struct World {
    rng: Rng,
    nodes: Vec<NodeRec>,
    toks: Vec<u32>,
    bad: Vec<(&'static str, String)>,
    allow_panics: bool,
    steps: u64,
    wakes: u64,
    clock: u64,
    polls: u64,
    wakes_in_poll: u64,
    old_wakes: u64,
    hist: u64,
    root_notified: bool,
    depth: usize,
    log: bool,
}
impl World {
    fn bad(&mut self, class: &'static str, m: String) {
        if self.bad.len() < 20 {
            trace(format!("!! {class}: {m}"));
            self.bad.push((class, m));
        }
    }
    fn name(&self, id: usize) -> String {
        format!("{}#{id}", self.nodes[id].label)
    }
}
thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("HARNESS: no world")))
}

struct Wrap {
    id: usize,
    gen: u64,
    inner: Waker,
}
impl Wake for Wrap {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        with(|w| {
            w.wakes += 1;
            w.clock += 1;
            w.nodes[self.id].woken_at = w.clock;
            w.hist = mix(w.hist ^ (self.id as u64 + 1000));
            if w.nodes.iter().any(|n| n.in_poll) {
                w.wakes_in_poll += 1;
            }
            let n = &mut w.nodes[self.id];
            n.due = true;
            if n.gen == self.gen {
                n.notified = true;
            } else {
                w.old_wakes += 1;
            }
        });
        self.inner.wake_by_ref();
    }
}
struct RootWaker(u64);
thread_local! { static ROOT_GEN: Cell<u64> = const { Cell::new(0) }; }
impl Wake for RootWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if ROOT_GEN.with(|g| g.get()) == self.0 {
            with(|w| w.root_notified = true);
        }
    }
}

// ------------------------------------------------------------------ leaf
pub struct Leaf {
    id: usize,
    _pin: PhantomPinned,
}
impl Future for Leaf {
    type Output = Res;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        let id = self.id;
        enum Act {
            WakeSelf,
            WakeOther(Waker),
            WakeOtherVal(Waker),
        }
        let mut acts: Vec<Act> = vec![];
        let waker = cx.waker().clone();
        let out = with(|w| {
            let addr = &*self as *const Leaf as usize;
            if w.nodes[id].addr != 0 && w.nodes[id].addr != addr {
                let m = format!("{} moved in memory after being pinned", w.name(id));
                w.bad("C03", m);
            }
            w.nodes[id].addr = addr;
            // keep the waker (in one of several ways)
            let how = w.rng.below(8);
            {
                let n = &mut w.nodes[id];
                if how < 4 {
                    n.kept.push(waker.clone());
                } else if how < 7 {
                    n.kept.clear();
                    n.kept.push(waker.clone());
                    n.kept.push(waker.clone());
                } else if n.kept.is_empty() {
                    n.kept.push(waker.clone());
                }
                if n.kept.len() > 6 {
                    n.kept.remove(0);
                }
            }
            for _ in 0..w.rng.below(3) {
                match w.rng.below(5) {
                    0 => acts.push(Act::WakeSelf),
                    1 | 2 => {
                        let k = w.rng.below(w.nodes.len());
                        if !w.nodes[k].kept.is_empty() {
                            let j = w.rng.below(w.nodes[k].kept.len());
                            let wk = w.nodes[k].kept[j].clone();
                            acts.push(if w.rng.chance(1, 2) { Act::WakeOther(wk) } else { Act::WakeOtherVal(wk) });
                        }
                    }
                    _ => {}
                }
            }
            let allow = w.allow_panics;
            let boom = allow && w.rng.chance(1, 25);
            let n = &mut w.nodes[id];
            n.polls_left -= 1;
            if boom {
                n.panicked = true;
                return Err(());
            }
            if n.polls_left < 0 {
                let ok = n.ok;
                let t = w.toks.len();
                w.toks.push(0);
                let v = Val::Tok(Tok(t));
                Ok(Some(if ok { Ok(v) } else { Err(v) }))
            } else {
                Ok(None)
            }
        });
        for a in acts {
            match a {
                Act::WakeSelf => waker.wake_by_ref(),
                Act::WakeOther(w) => w.wake_by_ref(),
                Act::WakeOtherVal(w) => w.wake(),
            }
        }
        match out {
            Err(()) => std::panic::panic_any(Deliberate(id as u64)),
            Ok(Some(r)) => Poll::Ready(r),
            Ok(None) => Poll::Pending,
        }
    }
}
impl Drop for Leaf {
    fn drop(&mut self) {
        let me = self as *const Leaf as usize;
        with(|w| {
            let id = self.id;
            if w.nodes[id].addr != 0 && w.nodes[id].addr != me {
                let m = format!("{} dropped at another address than it was polled at", w.name(id));
                w.bad("C03", m);
            }
        })
    }
}

// ------------------------------------------------------------------ inner futures and probe
type BF = Pin<Box<dyn Future<Output = Res>>>;
/// a leaf stored inline (no box) or a boxed combinator
pub enum Inner {
    Leaf(Leaf),
    Boxed(BF),
}
impl Future for Inner {
    type Output = Res;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        // SAFETY: structural pinning; Inner has no Drop and never moves the leaf
        unsafe {
            match self.get_unchecked_mut() {
                Inner::Leaf(l) => Pin::new_unchecked(l).poll(cx),
                Inner::Boxed(b) => b.as_mut().poll(cx),
            }
        }
    }
}
pub struct Probe {
    id: usize,
    inner: Inner,
}
impl Future for Probe {
    type Output = Res;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        let id = self.id;
        let waker = enter(id, cx.waker());
        struct Guard(usize, bool);
        impl Drop for Guard {
            fn drop(&mut self) {
                with(|w| {
                    w.depth -= 1;
                    w.nodes[self.0].in_poll = false;
                    if !self.1 {
                        w.nodes[self.0].panicked = true;
                    }
                })
            }
        }
        let mut g = Guard(id, false);
        let mut cx2 = Context::from_waker(&waker);
        // SAFETY: structural pinning of the only field
        let r = unsafe { self.map_unchecked_mut(|p| &mut p.inner) }.poll(&mut cx2);
        g.1 = true;
        drop(g);
        leave(id, &r);
        r
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        with(|w| {
            let id = self.id;
            w.hist = mix(w.hist ^ (id as u64 + 2000));
            w.nodes[id].dropped += 1;
            if w.nodes[id].dropped > 1 {
                let m = format!("future {} dropped twice", w.name(id));
                w.bad("C03", m);
            }
            if w.nodes[id].in_poll {
                let m = format!("future {} dropped while being polled", w.name(id));
                w.bad("C03", m);
            }
        });
    }
}
fn enter(id: usize, outer: &Waker) -> Waker {
    with(|w| {
        w.polls += 1;
        w.depth += 1;
        w.steps += 1;
        if w.steps > 200_000 {
            panic!("HARNESS: runaway case");
        }
        w.hist = mix(w.hist ^ (id as u64 + 3000));
        if w.log {
            let m = format!("poll {}", w.name(id));
            trace(m);
        }
        let nm = w.name(id);
        if w.nodes[id].dropped > 0 {
            w.bad("C03", format!("{nm} polled after being dropped"));
        }
        if w.nodes[id].in_poll {
            w.bad("C03", format!("{nm} polled re-entrantly"));
        }
        if w.nodes[id].result.is_some() {
            w.bad("C02", format!("{nm} polled again after it completed"));
        }
        if let Some(p) = w.nodes[id].parent {
            let pk = w.nodes[p].kind.unwrap();
            let began = w.nodes[p].began;
            if !matches!(pk, Kind::PendAfter) && w.nodes[id].polls > 0 {
                let n = &w.nodes[id];
                if n.parent_began == began {
                    w.bad("C02", format!("{nm} polled twice by a single poll of {}", w.name(p)));
                } else if n.woken_at < n.parent_began {
                    w.bad(
                        "C02",
                        format!("{nm} polled by {} although its waker was not used since the poll that polled it last", w.name(p)),
                    );
                }
            }
            w.nodes[id].parent_began = began;
            if w.nodes[p].result.is_some() || w.nodes[p].dropped > 0 {
                w.bad("C03", format!("{nm} polled although {} was finished or dropped", w.name(p)));
            }
        }
        for c in w.nodes[id].children.clone() {
            w.nodes[c].polls_at_start = w.nodes[c].polls;
            w.nodes[c].must_poll = w.nodes[c].due;
        }
        let reuse = w.rng.chance(1, 2);
        w.clock += 1;
        let clock = w.clock;
        let n = &mut w.nodes[id];
        n.polls += 1;
        n.began = clock;
        n.due = false;
        n.notified = false;
        n.in_poll = true;
        // hand down either the same waker as last time or a fresh one
        if reuse {
            if let Some((o, wr)) = &n.cached {
                if o.will_wake(outer) {
                    return wr.clone();
                }
            }
        }
        n.gen += 1;
        let wr: Waker = Arc::new(Wrap {
            id,
            gen: n.gen,
            inner: outer.clone(),
        })
        .into();
        n.cached = Some((outer.clone(), wr.clone()));
        wr
    })
}
fn leave(id: usize, r: &Poll<Res>) {
    with(|w| {
        let nm = w.name(id);
        let kind = w.nodes[id].kind.unwrap();
        let ch = w.nodes[id].children.clone();
        if let Poll::Ready(r) = r {
            w.nodes[id].result = Some(rshape(r));
            if w.log {
                trace(format!("{nm} -> {:?}", rshape(r)));
            }
        }
        if kind == Kind::Leaf {
            return;
        }
        // --- C02: all children that were due when the poll started have been polled
        let ready = r.is_ready();
        if !ready && kind != Kind::PendAfter {
            for &c in &ch {
                let n = &w.nodes[c];
                if n.result.is_some() {
                    continue;
                }
                if n.polls == 0 {
                    let m = format!("{nm}: child {} not polled by the first poll", w.name(c));
                    w.bad("C02", m);
                }
            }
        }
        // --- C01 / M02: result
        let done: Vec<Option<Shape>> = ch.iter().map(|c| w.nodes[*c].result.clone()).collect();
        let n_done = done.iter().flatten().count();
        let (all, is_ok) = (n_done == ch.len(), |s: &Shape| matches!(s, Shape::Ok(_)));
        let unwrap = |s: &Shape| match s {
            Shape::Ok(v) | Shape::Err(v) => (**v).clone(),
            s => s.clone(),
        };
        let got = w.nodes[id].result.clone();
        let mut class = "C01";
        let want: Option<Vec<Shape>> = match kind {
            Kind::Leaf => unreachable!(),
            Kind::Join => {
                all.then(|| vec![Shape::Ok(Box::new(Shape::List(done.iter().flatten().cloned().collect())))])
            }
            // (a race of nobody is never won)
            Kind::Race => {
                (n_done > 0).then(|| done.iter().flatten().cloned().collect())
            }
            Kind::TryJoin => {
                let errs: Vec<Shape> = done.iter().flatten().filter(|s| !is_ok(s)).cloned().collect();
                if !errs.is_empty() {
                    Some(errs)
                } else {
                    all.then(|| vec![Shape::Ok(Box::new(Shape::List(done.iter().flatten().map(unwrap).collect())))])
                }
            }
            Kind::RaceOk => {
                let oks: Vec<Shape> = done.iter().flatten().filter(|s| is_ok(s)).cloned().collect();
                if !oks.is_empty() {
                    Some(oks)
                } else {
                    all.then(|| vec![Shape::Err(Box::new(Shape::List(done.iter().flatten().map(unwrap).collect())))])
                }
            }
            Kind::PendAfter => {
                class = "M02";
                if done[0].is_some() && w.nodes[ch[0]].dropped == 0 {
                    w.bad("M02", format!("{nm}: the finished future was not dropped"));
                }
                None
            }
            Kind::Meanwhile => {
                class = "M02";
                if done[0].is_none() && w.nodes[ch[1]].dropped > 0 && done[1].is_none() {
                    w.bad("M02", format!("{nm}: the effect was dropped before the main future finished"));
                }
                done[0].clone().map(|s| vec![s])
            }
        };
        match (got, want) {
            (None, None) => {}
            (Some(g), None) => w.bad(class, format!("{nm} completed with {g:?} too early; children: {done:?}")),
            (None, Some(x)) => w.bad(class, format!("{nm} still pending, expected one of {x:?}; children: {done:?}")),
            (Some(g), Some(x)) => {
                if !x.contains(&g) {
                    w.bad(class, format!("{nm} completed with {g:?}, expected one of {x:?}; children: {done:?}"));
                }
            }
        }
        if !ready && kind != Kind::PendAfter {
            for &c in &ch {
                let n = &w.nodes[c];
                if n.result.is_none() && n.must_poll && n.polls == n.polls_at_start {
                    let m = format!("{nm}: child {} was woken before this poll but not polled in it", w.name(c));
                    w.bad("C02", m);
                }
            }
        }
    })
}
/// Outside any poll: whoever waits on a combinator must have been told about due children.
fn quiescent() {
    with(|w| {
        for id in 0..w.nodes.len() {
            let n = &w.nodes[id];
            let k = n.kind.unwrap();
            if k == Kind::Leaf || k == Kind::PendAfter {
                continue;
            }
            if n.polls == 0 || n.result.is_some() || n.dropped > 0 || n.in_poll || n.panicked || n.notified {
                continue;
            }
            // parents that finished or panicked make the node irrelevant, but the obligation
            // of the combinator itself stays as long as it is alive
            if let Some(c) = n
                .children
                .iter()
                .find(|c| {
                    let c = &w.nodes[**c];
                    c.due && c.result.is_none() && c.polls > 0 && c.dropped == 0 && !c.panicked
                })
                .copied()
            {
                let m = format!(
                    "child {} of {} was woken but the task waiting on the combinator was not",
                    w.name(c),
                    w.name(id)
                );
                w.bad("C02", m);
            }
        }
    })
}

// ------------------------------------------------------------------ building trees
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Cont {
    Tuple,
    Array,
    Vec,
}
fn new_node(kind: Kind, parent: Option<usize>, label: String) -> usize {
    with(|w| {
        let polls_left = w.rng.below(4) as i64;
        let ok = w.rng.chance(1, 2);
        w.nodes.push(NodeRec {
            kind: Some(kind),
            parent,
            label,
            due: true,
            polls_left,
            ok,
            ..Default::default()
        });
        let id = w.nodes.len() - 1;
        if let Some(p) = parent {
            w.nodes[p].children.push(id);
        }
        id
    })
}
/// keeps the wrapped future alive after it completed, until dropped itself
struct MapFut<F, G> {
    f: F,
    g: G,
}
impl<F: Future, G: Fn(F::Output) -> Res> Future for MapFut<F, G> {
    type Output = Res;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        // SAFETY: f is structurally pinned, g is not
        let this = unsafe { self.get_unchecked_mut() };
        let f = unsafe { Pin::new_unchecked(&mut this.f) };
        f.poll(cx).map(&this.g)
    }
}
fn boxed<F: Future + 'static>(f: F, g: impl Fn(F::Output) -> Res + 'static) -> BF {
    Box::pin(MapFut { f, g })
}
fn all_res(v: Vec<Res>) -> Res {
    Ok(Val::List(v.into_iter().map(|r| Val::Res(Box::new(r))).collect()))
}
fn all_try(r: Result<Vec<Val>, Val>) -> Res {
    r.map(Val::List)
}
fn all_race_ok(r: Result<Val, Vec<Val>>) -> Res {
    r.map_err(Val::List)
}
macro_rules! tup {
    ($v:ident; $($x:ident)*) => {{ $(let $x = $v.next().unwrap();)* ($($x,)*) }};
}
macro_rules! untup {
    ($t:ident; $($x:ident)*) => {{ let ($($x,)*) = $t; vec![$($x),*] }};
}
macro_rules! tuples {
    ($kids:ident, $kind:ident; $( $n:literal [$($x:ident)*] )*; $( $n2:literal [$($y:ident)*] )*) => {{
        let n = $kids.len();
        let mut v = $kids.into_iter();
        match $kind {
            Kind::Join => match n {
                0 => boxed(join(()), |()| all_res(vec![])),
                $($n => boxed(join(tup!(v; $($x)*)), |t| all_res(untup!(t; $($x)*))),)*
                $($n2 => boxed(join(tup!(v; $($y)*)), |t| all_res(untup!(t; $($y)*))),)*
                _ => panic!("HARNESS: tuple size")
            },
            Kind::Race => match n {
                $($n => boxed(race(tup!(v; $($x)*)), |t| t),)*
                $($n2 => boxed(race(tup!(v; $($y)*)), |t| t),)*
                _ => panic!("HARNESS: tuple size")
            },
            Kind::TryJoin => match n {
                $($n => boxed(try_join(tup!(v; $($x)*)), |t| all_try(t.map(|t| untup!(t; $($x)*)))),)*
                _ => panic!("HARNESS: tuple size")
            },
            Kind::RaceOk => match n {
                $($n => boxed(race_ok(tup!(v; $($x)*)), |t| all_race_ok(t.map_err(|t| untup!(t; $($x)*)))),)*
                _ => panic!("HARNESS: tuple size")
            },
            _ => unreachable!(),
        }
    }};
}
macro_rules! arrays {
    ($kids:ident, $kind:ident; $($n:literal)*) => {
        match $kids.len() {
            $($n => {
                let a: [Probe; $n] = $kids.try_into().ok().unwrap();
                match $kind {
                    Kind::Join => boxed(join(a), |r| all_res(r.into())),
                    Kind::Race => boxed(race(a), |r| r),
                    Kind::TryJoin => boxed(try_join(a), |r| all_try(r.map(|a| a.into()))),
                    Kind::RaceOk => boxed(race_ok(a), |r| all_race_ok(r.map_err(|a| a.into()))),
                    _ => unreachable!(),
                }
            })*
            _ => panic!("HARNESS: array size"),
        }
    };
}
const ARRAY_SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 33, 65];
/// the flag sets switch strategy at 64 and 128 children
const WIDE: &[usize] = &[63, 64, 65, 66, 127, 128, 129, 130, 131, 192, 256, 257, 300];
const WIDE_ARRAYS: &[usize] = &[64, 65, 129, 200];

fn combine(kind: Kind, cont: Cont, kids: Vec<Probe>) -> BF {
    match kind {
        Kind::PendAfter => {
            let k = kids.into_iter().next().unwrap();
            return boxed(k.pend_after::<Res>(), |r| r);
        }
        Kind::Meanwhile => {
            let mut it = kids.into_iter();
            let (a, b) = (it.next().unwrap(), it.next().unwrap());
            return boxed(a.meanwhile(b), |r| r);
        }
        _ => {}
    }
    match cont {
        Cont::Vec => match kind {
            Kind::Join => boxed(join(kids), all_res),
            Kind::Race => boxed(race(kids), |r| r),
            Kind::TryJoin => boxed(try_join(kids), all_try),
            Kind::RaceOk => boxed(race_ok(kids), all_race_ok),
            _ => unreachable!(),
        },
        Cont::Array => arrays!(kids, kind; 0 1 2 3 4 5 7 8 9 16 31 33 64 65 129 200),
        Cont::Tuple => tuples!(kids, kind;
            1 [a] 2 [a b] 3 [a b c] 4 [a b c d] 5 [a b c d e] 6 [a b c d e f] 7 [a b c d e f g]
            8 [a b c d e f g h] 9 [a b c d e f g h i] 10 [a b c d e f g h i j] 11 [a b c d e f g h i j k] ;
            12 [a b c d e f g h i j k l]),
    }
}
fn build(parent: Option<usize>, depth: usize, budget: &mut usize, force: Option<Kind>) -> Probe {
    let leaf = depth == 0 || *budget == 0 || with(|w| w.rng.chance(1, 2));
    if leaf && parent.is_some() && force.is_none() {
        *budget = budget.saturating_sub(1);
        let id = new_node(Kind::Leaf, parent, "leaf".into());
        return Probe {
            id,
            inner: Inner::Leaf(Leaf { id, _pin: PhantomPinned }),
        };
    }
    let kind = force.unwrap_or_else(|| {
        with(|w| {
            *w.rng.pick(&[
                Kind::Join,
                Kind::Join,
                Kind::Race,
                Kind::Race,
                Kind::TryJoin,
                Kind::TryJoin,
                Kind::RaceOk,
                Kind::RaceOk,
                Kind::Meanwhile,
                Kind::PendAfter,
            ])
        })
    });
    let cont = with(|w| *w.rng.pick(&[Cont::Tuple, Cont::Array, Cont::Vec]));
    let n = with(|w| {
        let big = *budget;
        match kind {
            Kind::PendAfter => 1,
            Kind::Meanwhile => 2,
            _ => match cont {
                Cont::Tuple => {
                    let lo = if kind == Kind::Join { 0 } else { 1 };
                    let hi = if matches!(kind, Kind::Join | Kind::Race) { 12 } else { 11 };
                    if w.rng.chance(1, 3) {
                        w.rng.range(lo, hi)
                    } else {
                        w.rng.range(lo.max(1), 4)
                    }
                }
                Cont::Array => {
                    let mut top = ARRAY_SIZES.iter().filter(|s| **s <= big + 2).count();
                    if w.rng.chance(2, 3) {
                        top = top.min(5);
                    }
                    ARRAY_SIZES[w.rng.below(top)]
                }
                Cont::Vec => {
                    if w.rng.chance(1, 4) {
                        w.rng.range(0, big.max(1))
                    } else {
                        w.rng.range(0, 4)
                    }
                }
            },
        }
    });
    let lbl = match kind {
        Kind::PendAfter | Kind::Meanwhile => format!("{kind:?}"),
        _ => format!("{kind:?}-{cont:?}{n}"),
    };
    let id = new_node(kind, parent, lbl);
    let kids: Vec<Probe> = (0..n).map(|_| build(Some(id), depth - 1, budget, None)).collect();
    Probe {
        id,
        inner: Inner::Boxed(combine(kind, cont, kids)),
    }
}

/// one combinator over many leaves
fn build_wide() -> Probe {
    let (kind, cont, n) = with(|w| {
        let kind = *w.rng.pick(&[Kind::Join, Kind::Join, Kind::TryJoin, Kind::RaceOk, Kind::Race]);
        let (cont, n) = if w.rng.chance(2, 3) { (Cont::Vec, *w.rng.pick(WIDE)) } else { (Cont::Array, *w.rng.pick(WIDE_ARRAYS)) };
        (kind, cont, n)
    });
    let id = new_node(kind, None, format!("{kind:?}-{cont:?}{n}"));
    let mut kids = vec![];
    for _ in 0..n {
        let k = new_node(Kind::Leaf, Some(id), "leaf".into());
        with(|w| {
            // most run long enough to see something happen
            match kind {
                Kind::Race => w.nodes[k].polls_left += 3,
                Kind::TryJoin if w.rng.chance(49, 50) => w.nodes[k].ok = true,
                Kind::RaceOk if w.rng.chance(49, 50) => w.nodes[k].ok = false,
                _ => {}
            }
        });
        kids.push(Probe { id: k, inner: Inner::Leaf(Leaf { id: k, _pin: PhantomPinned }) });
    }
    Probe { id, inner: Inner::Boxed(combine(kind, cont, kids)) }
}

// ------------------------------------------------------------------ root
struct Holder {
    comb: Option<Pin<Box<Probe>>>,
    cmd: Rc<Cell<u8>>,
    out: Rc<RefCell<Option<Res>>>,
}
impl Future for Holder {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        match self.cmd.replace(0) {
            1 => {
                if let Some(c) = &mut self.comb {
                    if let Poll::Ready(r) = c.as_mut().poll(cx) {
                        *self.out.borrow_mut() = Some(r);
                    }
                }
            }
            2 => self.comb = None,
            _ => {}
        }
        Poll::Pending
    }
}

pub fn case(cx: &mut Cx, class: &str) -> CaseResult {
    let allow_panics = class == "C03" && cx.rng.chance(1, 2);
    let force = match class {
        "M02" => Some(if cx.rng.chance(1, 2) { Kind::Meanwhile } else { Kind::PendAfter }),
        _ => None,
    };
    let force = if class == "M02" && cx.rng.chance(1, 4) { None } else { force };
    let size = cx.size;
    WORLD.with(|w| {
        *w.borrow_mut() = Some(World {
            rng: cx.rng.fork(),
            nodes: vec![],
            toks: vec![],
            bad: vec![],
            allow_panics,
            steps: 0,
            wakes: 0,
            clock: 0,
            polls: 0,
            wakes_in_poll: 0,
            old_wakes: 0,
            hist: 0,
            root_notified: false,
            depth: 0,
            log: true,
        })
    });
    let mut budget = cx.rng.range(1, 4 + size * 80 / 100);
    let depth = 1 + cx.rng.below(1 + size.min(99) / 34);
    let wide = class != "M02" && cx.rng.chance(1, 60);
    let root = if wide { build_wide() } else { build(None, depth, &mut budget, force) };
    if wide {
        cov(|c| c.hit("wide"));
    }
    let root_id = root.id;
    let labels: Vec<String> = with(|w| (0..w.nodes.len().min(40)).map(|i| format!("{}<-{:?}", w.name(i), w.nodes[i].parent)).collect());
    tr!("tree: {}", labels.join(" "));
    let shape_sig: Vec<(String, Option<usize>)> = with(|w| w.nodes.iter().map(|n| (n.label.clone(), n.parent)).collect());
    let cmd = Rc::new(Cell::new(0u8));
    let out = Rc::new(RefCell::new(None));
    let node: web_sys::Node = async_ui_web_html::nodes::Div::new().element.clone().into();
    let mut top = Some(Box::pin(ContainerNodeFuture::new_root(
        Holder {
            comb: Some(Box::pin(root)),
            cmd: cmd.clone(),
            out: out.clone(),
        },
        node,
    )));
    let mut roots: Vec<Arc<RootWaker>> = vec![];
    let mut cur_waker: Option<Waker> = None;
    let mut finished = false;
    let mut panicked = false;
    let mut cancelled = false;
    let mut drive = |top: &mut Option<Pin<Box<ContainerNodeFuture<Holder>>>>, c: u8, fresh: bool| -> Result<(), bool> {
        if fresh || cur_waker.is_none() {
            let g = ROOT_GEN.with(|g| {
                g.set(g.get() + 1);
                g.get()
            });
            let a = Arc::new(RootWaker(g));
            roots.push(a.clone());
            cur_waker = Some(a.into());
        }
        with(|w| w.root_notified = false);
        let wk = cur_waker.clone().unwrap();
        cmd.set(c);
        let mut ctx = Context::from_waker(&wk);
        let t = top.as_mut().unwrap().as_mut();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.poll(&mut ctx))) {
            Ok(_) => Ok(()),
            Err(p) => {
                if p.is::<Deliberate>() {
                    Err(true)
                } else {
                    std::panic::resume_unwind(p)
                }
            }
        }
    };
    let n_ops = if wide { cx.rng.range(20, 600) } else { cx.rng.range(0, 20 + size) };
    let cancel_at = if cx.rng.chance(1, 3) { Some(cx.rng.below(n_ops + 1)) } else { None };
    let mut polled = false;
    let mut ops = 0u64;
    let mut op_hist = vec![];
    let mut cancel_ctx = cx.rng.chance(3, 4);
    if class == "C03" {
        cancel_ctx |= cx.rng.chance(1, 2);
    }
    let mut i = 0;
    let drain_from = n_ops;
    let mut drain_rounds = 0;
    loop {
        if finished || panicked {
            break;
        }
        if Some(i) == cancel_at {
            cancelled = true;
            break;
        }
        i += 1;
        ops += 1;
        let draining = i > drain_from;
        if draining {
            drain_rounds += 1;
            if drain_rounds > 4000 {
                // children are woken over and over, and nobody gets to poll them
                for c in ["C01", "C02", "M02"] {
                    with(|w| w.bad(c, "the combinator never completes, though each of its unfinished children keeps being woken".into()));
                }
                break;
            }
        }
        // choose an operation
        let (notified, choice, a, b) = with(|w| {
            let a = w.rng.below(w.nodes.len());
            let n = w.nodes[a].kept.len().max(1);
            (w.root_notified, w.rng.below(10), a, w.rng.below(n))
        });
        let wake_any = || {
            // wake some unfinished leaf through its latest waker
            let wk = with(|w| {
                let live: Vec<usize> = (0..w.nodes.len())
                    .filter(|i| {
                        let n = &w.nodes[*i];
                        let mut open = true;
                        let mut up = n.parent;
                        while let Some(p) = up {
                            let p = &w.nodes[p];
                            open &= p.result.is_none() && p.dropped == 0 && !p.panicked;
                            up = p.parent;
                        }
                        open && n.kind == Some(Kind::Leaf) && n.result.is_none() && n.dropped == 0 && n.cached.is_some()
                    })
                    .collect();
                if live.is_empty() {
                    None
                } else {
                    let i = *w.rng.pick(&live);
                    w.nodes[i].cached.as_ref().map(|c| c.1.clone())
                }
            });
            match wk {
                Some(wk) => {
                    wk.wake();
                    true
                }
                None => false,
            }
        };
        if !polled || choice < 3 || (draining && notified) {
            if !polled || notified || choice == 0 {
                polled = true;
                let fresh = with(|w| w.rng.chance(1, 3));
                tr!("- poll root{}{}", if notified { "" } else { " (spurious)" }, if fresh { " with a new task waker" } else { "" });
                op_hist.push(1u8 + notified as u8);
                match drive(&mut top, 1, fresh) {
                    Ok(()) => {}
                    Err(_) => {
                        tr!("- child panicked");
                        panicked = true;
                    }
                }
                if out.borrow().is_some() {
                    finished = true;
                }
            }
        } else if draining {
            tr!("- wake (drain)");
            if !wake_any() {
                break; // nothing left that could complete
            }
        } else if choice < 8 {
            let wk = with(|w| {
                let n = &mut w.nodes[a];
                if n.kept.is_empty() {
                    return None;
                }
                let by_val = w.rng.chance(1, 2);
                if by_val {
                    Some((n.kept.remove(b), true))
                } else {
                    Some((n.kept[b].clone(), false))
                }
            });
            if let Some((wk, by_val)) = wk {
                tr!("- wake leaf#{a} {}", if by_val { "by value" } else { "by ref" });
                op_hist.push(3);
                if by_val {
                    wk.wake()
                } else {
                    wk.wake_by_ref()
                }
            }
        } else if choice == 8 {
            let k = with(|w| std::mem::take(&mut w.nodes[a].kept));
            op_hist.push(4);
            drop(k);
        } else {
            let k = with(|w| {
                let n = &mut w.nodes[a];
                n.kept.to_vec()
            });
            drop(k);
        }
        quiescent();
        // M02: an effect / finished future must not disturb; checked in `leave`
    }
    let done_at_end = finished;
    // ---- end of life
    if cancelled || panicked || finished || !polled || cancel_ctx {
        if cancel_ctx {
            tr!("- drop the combinator inside its context");
            let _ = drive(&mut top, 2, false);
        } else {
            tr!("- drop the whole tree");
        }
    }
    let kept_wakers: Vec<Waker> = with(|w| {
        let mut v = vec![];
        for n in &w.nodes {
            v.extend(n.kept.iter().cloned());
            if let Some(c) = &n.cached {
                v.push(c.1.clone());
            }
        }
        v
    });
    // everything the combinator owned must be gone already, before its result is looked at
    if cancel_ctx {
        let missing = with(|w| (0..w.nodes.len()).filter(|i| w.nodes[*i].dropped == 0).map(|i| w.name(i)).collect::<Vec<_>>());
        if !missing.is_empty() {
            with(|w| w.bad("C03", format!("after dropping the combinator these futures are still alive: {missing:?}")));
        }
        let live: Vec<usize> = with(|w| (0..w.toks.len()).filter(|i| w.toks[*i] == 0).collect());
        let held = match out.borrow().as_ref() {
            Some(r) => count(r),
            None => 0,
        };
        if live.len() != held {
            with(|w| w.bad("C03", format!("{} outputs are alive after the drop, the caller holds {held}", live.len())));
        }
    }
    drop(top);
    drop(out);
    // late wakes of a dead combinator must not do anything
    for wk in kept_wakers {
        let by_ref = with(|w| w.rng.chance(1, 2));
        if by_ref {
            wk.wake_by_ref();
            drop(wk)
        } else {
            wk.wake()
        }
    }
    let (kept, cached) = with(|w| {
        let mut k = vec![];
        let mut c = vec![];
        for n in &mut w.nodes {
            k.append(&mut n.kept);
            if let Some((o, x)) = n.cached.take() {
                c.push(o);
                c.push(x);
            }
        }
        (k, c)
    });
    drop(kept);
    drop(cached);
    drop(cur_waker);
    let w = WORLD.with(|w| w.borrow_mut().take().unwrap());
    let mut bad = w.bad;
    for (i, n) in w.nodes.iter().enumerate() {
        if n.dropped != 1 {
            bad.push(("C03", format!("future {}#{i} was dropped {} times", n.label, n.dropped)));
        }
    }
    for (i, d) in w.toks.iter().enumerate() {
        if *d != 1 {
            bad.push(("C03", format!("output #{i} was dropped {d} times")));
        }
    }
    for r in &roots {
        if Arc::strong_count(r) != 1 {
            bad.push(("C03", format!("task waker leaked: {} references remain after everything was dropped", Arc::strong_count(r) - 1)));
            break;
        }
    }
    cov(|c| {
        c.add("polls", w.polls);
        c.add("wakes", w.wakes);
        c.add("wakes_during_poll", w.wakes_in_poll);
        c.add("wakes_of_older_wakers", w.old_wakes);
        c.add("operations", ops);
        c.add("futures", w.nodes.len() as u64);
        c.add("outputs", w.toks.len() as u64);
        c.add(if done_at_end { "ended:completed" } else if panicked { "ended:child panicked" } else if !polled { "ended:never polled" } else if cancelled { "ended:cancelled" } else { "ended:pending forever" }, 1);
        for n in &w.nodes {
            if n.kind != Some(Kind::Leaf) {
                c.hit(&format!("node:{}", n.label));
            }
        }
        if w.nodes.len() > 1 && w.polls > 0 {
            c.sig((shape_sig, w.hist));
        }
    });
    let _ = (root_id, op_hist);
    for (k, m) in &bad {
        if *k == class {
            return Err(m.clone());
        }
    }
    Ok(())
}
fn count(r: &Res) -> usize {
    fn v(x: &Val) -> usize {
        match x {
            Val::Tok(_) => 1,
            Val::List(l) => l.iter().map(v).sum(),
            Val::Res(r) => count(r),
        }
    }
    match r {
        Ok(x) | Err(x) => v(x),
    }
}
pub fn c01(cx: &mut Cx) -> CaseResult {
    case(cx, "C01")
}
pub fn c02(cx: &mut Cx) -> CaseResult {
    case(cx, "C02")
}
pub fn c03(cx: &mut Cx) -> CaseResult {
    case(cx, "C03")
}
pub fn m02(cx: &mut Cx) -> CaseResult {
    case(cx, "M02")
}
