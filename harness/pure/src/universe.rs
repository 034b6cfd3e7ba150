//! The types stored in the stores under test, a generic picture (`V`) of their values,
//! and `Place`, a type-erased handle on a real x-bow path.
use crate::driver::Rng;
use futures_core::Stream;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use x_bow::{IntoPath, Path, PathExt, PathExtGuaranteed, Store, Trackable};

// ---------------------------------------------------------------- memory of a case
thread_local! {
    static ARENA: RefCell<Vec<Box<dyn Fn()>>> = const { RefCell::new(Vec::new()) };
}
/// kept until `free_all`
pub fn keep<T: 'static>(x: T) -> &'static T {
    let p = Box::into_raw(Box::new(x));
    ARENA.with(|a| a.borrow_mut().push(Box::new(move || unsafe { drop(Box::from_raw(p)) })));
    unsafe { &*p }
}
pub fn free_all() {
    loop {
        let Some(f) = ARENA.with(|a| a.borrow_mut().pop()) else { break };
        f();
    }
    RC_CLONES.with(|c| c.borrow_mut().clear());
}
thread_local! {
    static RC_CLONES: RefCell<Vec<Rc<dyn Any>>> = const { RefCell::new(Vec::new()) };
}

// ---------------------------------------------------------------- values
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Seg {
    F(&'static str),
    Var(&'static str, &'static str),
    Idx(usize),
    Key(String),
    Content,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    Leaf(String),
    Rec(&'static str, Vec<(&'static str, V)>),
    Seq(Vec<V>),
    Map(BTreeMap<String, V>),
    Cell { shared: bool, inner: Box<V> },
}
impl V {
    pub fn at(&self, segs: &[Seg], mutably: bool) -> Option<&V> {
        let Some((s, rest)) = segs.split_first() else { return Some(self) };
        let next = match (s, self) {
            (Seg::F(n), V::Rec("", fs)) => fs.iter().find(|f| f.0 == *n).map(|f| &f.1),
            (Seg::Var(var, n), V::Rec(tag, fs)) if tag == var => fs.iter().find(|f| f.0 == *n).map(|f| &f.1),
            (Seg::Var(..), V::Rec(..)) => None,
            (Seg::Idx(i), V::Seq(v)) => v.get(*i),
            (Seg::Key(k), V::Map(m)) => m.get(k),
            (Seg::Content, V::Leaf(_)) => Some(self),
            (Seg::Content, V::Cell { shared, inner }) => (!(*shared && mutably)).then_some(&**inner),
            (s, v) => panic!("HARNESS: segment {s:?} at {v:?}"),
        }?;
        next.at(rest, mutably)
    }
    pub fn set(&mut self, segs: &[Seg], val: V) {
        let Some((s, rest)) = segs.split_first() else {
            *self = val;
            return;
        };
        let next = match (s, self) {
            (Seg::F(n), V::Rec(_, fs)) | (Seg::Var(_, n), V::Rec(_, fs)) => &mut fs.iter_mut().find(|f| f.0 == *n).unwrap().1,
            (Seg::Idx(i), V::Seq(v)) => &mut v[*i],
            (Seg::Key(k), V::Map(m)) => m.get_mut(k).unwrap(),
            (Seg::Content, V::Cell { inner, .. }) => &mut **inner,
            (Seg::Content, l @ V::Leaf(_)) => l,
            (s, v) => panic!("HARNESS: segment {s:?} at {v:?}"),
        };
        next.set(rest, val)
    }
    /// without what depends on who else holds an Rc
    pub fn plain(&self) -> V {
        match self {
            V::Leaf(_) => self.clone(),
            V::Rec(t, fs) => V::Rec(t, fs.iter().map(|(n, v)| (*n, v.plain())).collect()),
            V::Seq(v) => V::Seq(v.iter().map(|v| v.plain()).collect()),
            V::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), v.plain())).collect()),
            V::Cell { inner, .. } => V::Cell { shared: false, inner: Box::new(inner.plain()) },
        }
    }
    pub fn short(&self) -> String {
        let mut s = format!("{self:?}");
        if s.len() > 160 {
            s.truncate(s.char_indices().nth(150).map(|x| x.0).unwrap_or(150));
            s.push_str("...");
        }
        s
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Build,
    Ref,
    Boxed,
}
pub fn how(r: &mut Rng) -> How {
    *r.pick(&[How::Build, How::Build, How::Ref, How::Boxed])
}
pub type P<T> = Rc<dyn Path<Out = T>>;

pub trait Val: Sized + 'static + Clone {
    fn v(&self) -> V;
    fn make(r: &mut Rng, d: usize) -> Self;
    /// possible next segments; the picture of the present value helps to hit existing parts
    fn segs(r: &mut Rng, v: Option<&V>) -> Vec<Seg>;
    fn step(_p: P<Self>, _how: How, _base: &[Seg], _s: &Seg) -> Option<Box<dyn Place>> {
        None
    }
    fn tweak(&mut self, r: &mut Rng) {
        *self = Self::make(r, 2);
    }
}

// ---------------------------------------------------------------- places
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Write {
    Assign,
    Tweak,
    Replace,
    Touch,
    Swap,
}
pub const WRITES: [Write; 5] = [Write::Assign, Write::Tweak, Write::Replace, Write::Touch, Write::Swap];
fn do_write<T: Val>(x: &mut T, r: &mut Rng, w: Write) -> V {
    match w {
        Write::Assign => *x = T::make(r, 2),
        Write::Tweak => x.tweak(r),
        Write::Replace => drop(std::mem::replace(x, T::make(r, 2))),
        Write::Touch => {}
        Write::Swap => {
            let mut o = T::make(r, 2);
            std::mem::swap(&mut o, x)
        }
    }
    x.v()
}
pub type Log = Rc<RefCell<Vec<V>>>;
#[derive(Default)]
pub struct Ctl {
    /// runs inside the next poll of a callback future
    pub hook: RefCell<Option<Box<dyn FnOnce()>>>,
    /// per started callback future: value given, polls, finish allowed, finished, dropped, waker
    pub futs: RefCell<Vec<CtlFut>>,
}
pub struct CtlFut {
    pub value: V,
    pub polls: usize,
    pub open: bool,
    pub done: bool,
    pub dropped: bool,
    pub waker: Option<Waker>,
    pub polled_after_end: bool,
}
struct CtlHandle(Rc<Ctl>, usize);
impl Future for CtlHandle {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let h = self.0.hook.borrow_mut().take();
        if let Some(h) = h {
            h()
        }
        let mut f = self.0.futs.borrow_mut();
        let f = &mut f[self.1];
        if f.done {
            f.polled_after_end = true;
        }
        f.polls += 1;
        if f.open {
            f.done = true;
            return Poll::Ready(());
        }
        f.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl Drop for CtlHandle {
    fn drop(&mut self) {
        self.0.futs.borrow_mut()[self.1].dropped = true;
    }
}
pub type Fut = Pin<Box<dyn Future<Output = ()>>>;
pub type Str<T> = Pin<Box<dyn Stream<Item = T>>>;
pub struct Bind {
    pub fut: Fut,
    /// queues an incoming value (None: cannot) and returns its picture
    pub push: Box<dyn Fn(&mut Rng) -> V>,
    pub end: Box<dyn Fn()>,
}
struct Incoming<T> {
    q: Rc<RefCell<(VecDeque<T>, bool, Option<Waker>)>>,
}
impl<T> Stream for Incoming<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let mut q = self.q.borrow_mut();
        if let Some(v) = q.0.pop_front() {
            return Poll::Ready(Some(v));
        }
        if q.1 {
            return Poll::Ready(None);
        }
        q.2 = Some(cx.waker().clone());
        Poll::Pending
    }
}
struct MapV<S, F>(Pin<Box<S>>, F);
impl<S: Stream, F: Fn(S::Item) -> V + Unpin> Stream for MapV<S, F> {
    type Item = V;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<V>> {
        let r = self.0.as_mut().poll_next(cx);
        r.map(|o| o.map(&self.1))
    }
}

pub trait Place {
    fn segs(&self) -> &[Seg];
    fn next_segs(&self, r: &mut Rng, v: Option<&V>) -> Vec<Seg>;
    fn step(&self, s: &Seg, how: How) -> Option<Box<dyn Place>>;
    fn guaranteed(&self) -> bool {
        false
    }
    fn get(&self) -> Option<V>;
    fn get_clone(&self) -> Option<V>;
    fn write(&self, r: &mut Rng, w: Write) -> Option<V>;
    fn write_silent(&self, r: &mut Rng, w: Write) -> Option<V>;
    /// the value given; whether it was accepted, or what came back
    fn set(&self, r: &mut Rng) -> (V, Result<(), V>);
    fn notify(&self);
    /// keeps a shared borrow, or a notifying mutable one, until the result is dropped
    fn hold(&self, mutably: bool) -> Option<Box<dyn Any>>;
    fn until_change(&self) -> Str<()>;
    fn until_bubbling(&self) -> Str<()>;
    fn for_each(&self, log: Log) -> Fut;
    fn for_each_async(&self, ctl: Rc<Ctl>) -> Fut;
    fn signal(&self, now: bool) -> Str<V>;
    fn bind(&self, log: Log) -> Option<Bind>;
}
/// the operations available only on paths whose data always exists
trait Sure<T> {
    fn get(&self) -> V;
    fn get_clone(&self) -> V;
    fn write(&self, r: &mut Rng, w: Write) -> V;
    fn write_silent(&self, r: &mut Rng, w: Write) -> V;
    fn set(&self, r: &mut Rng) -> V;
}
impl<T: Val, Q: PathExtGuaranteed + Path<Out = T>> Sure<T> for Q {
    fn get(&self) -> V {
        PathExtGuaranteed::borrow(self).v()
    }
    fn get_clone(&self) -> V {
        PathExtGuaranteed::get(self).v()
    }
    fn write(&self, r: &mut Rng, w: Write) -> V {
        do_write(&mut *PathExtGuaranteed::borrow_mut(self), r, w)
    }
    fn write_silent(&self, r: &mut Rng, w: Write) -> V {
        do_write(&mut *PathExtGuaranteed::borrow_mut_without_notifying(self), r, w)
    }
    fn set(&self, r: &mut Rng) -> V {
        let x = T::make(r, 2);
        let v = x.v();
        PathExtGuaranteed::set(self, x);
        v
    }
}
struct PlaceOf<T: 'static> {
    path: &'static P<T>,
    sure: Option<&'static dyn Sure<T>>,
    segs: Vec<Seg>,
}
pub fn place<Q: Path + 'static>(q: Q, base: &[Seg], s: Option<&Seg>) -> Box<dyn Place>
where
    Q::Out: Val,
{
    let mut segs = base.to_vec();
    segs.extend(s.cloned());
    Box::new(PlaceOf::<Q::Out> { path: keep(Rc::new(q) as P<Q::Out>), sure: None, segs })
}
pub fn sure_place<Q: PathExtGuaranteed + Clone + 'static>(q: Q, segs: &[Seg]) -> Box<dyn Place>
where
    Q::Out: Val,
{
    Box::new(PlaceOf::<Q::Out> { sure: Some(keep(q.clone())), path: keep(Rc::new(q) as P<Q::Out>), segs: segs.to_vec() })
}
impl<T: Val> Place for PlaceOf<T> {
    fn segs(&self) -> &[Seg] {
        &self.segs
    }
    fn next_segs(&self, r: &mut Rng, v: Option<&V>) -> Vec<Seg> {
        T::segs(r, v)
    }
    fn step(&self, s: &Seg, how: How) -> Option<Box<dyn Place>> {
        T::step(self.path.clone(), how, &self.segs, s)
    }
    fn guaranteed(&self) -> bool {
        self.sure.is_some()
    }
    fn get(&self) -> Option<V> {
        if let Some(s) = self.sure {
            return Some(s.get());
        }
        self.path.borrow_opt().map(|r| r.v())
    }
    fn get_clone(&self) -> Option<V> {
        if let Some(s) = self.sure {
            return Some(s.get_clone());
        }
        self.path.get_opt().map(|r| r.v())
    }
    fn write(&self, r: &mut Rng, w: Write) -> Option<V> {
        if let Some(s) = self.sure {
            return Some(s.write(r, w));
        }
        self.path.borrow_opt_mut().map(|mut g| do_write(&mut *g, r, w))
    }
    fn write_silent(&self, r: &mut Rng, w: Write) -> Option<V> {
        if let Some(s) = self.sure {
            return Some(s.write_silent(r, w));
        }
        self.path.borrow_opt_mut_without_notifying().map(|mut g| do_write(&mut *g, r, w))
    }
    fn set(&self, r: &mut Rng) -> (V, Result<(), V>) {
        if let Some(s) = self.sure {
            return (s.set(r), Ok(()));
        }
        let x = T::make(r, 2);
        let v = x.v();
        (v, self.path.set_opt(x).map_err(|x| x.v()))
    }
    fn notify(&self) {
        self.path.notify_changed()
    }
    fn hold(&self, mutably: bool) -> Option<Box<dyn Any>> {
        if mutably {
            let g = self.path.borrow_opt_mut()?;
            Some(Box::new(g))
        } else {
            let g = self.path.borrow_opt()?;
            Some(Box::new(g))
        }
    }
    fn until_change(&self) -> Str<()> {
        Box::pin(self.path.until_change())
    }
    fn until_bubbling(&self) -> Str<()> {
        Box::pin(self.path.until_bubbling_change())
    }
    fn for_each(&self, log: Log) -> Fut {
        Box::pin(self.path.for_each(move |x: &T| log.borrow_mut().push(x.v())))
    }
    fn for_each_async(&self, ctl: Rc<Ctl>) -> Fut {
        Box::pin(self.path.for_each_async(move |x: &T| {
            let value = x.v();
            let mut fs = ctl.futs.borrow_mut();
            fs.push(CtlFut { value, polls: 0, open: false, done: false, dropped: false, waker: None, polled_after_end: false });
            CtlHandle(ctl.clone(), fs.len() - 1)
        }))
    }
    fn signal(&self, now: bool) -> Str<V> {
        Box::pin(MapV(Box::pin(self.path.signal_stream(now)), |r: std::cell::Ref<'_, T>| r.v()))
    }
    fn bind(&self, log: Log) -> Option<Bind> {
        let q: Rc<RefCell<(VecDeque<T>, bool, Option<Waker>)>> = Rc::new(RefCell::new((VecDeque::new(), false, None)));
        let inc = Incoming { q: q.clone() };
        let fut = Box::pin(self.path.bind_for_each(move |x: &T| log.borrow_mut().push(x.v()), inc));
        let (q1, q2) = (q.clone(), q);
        Some(Bind {
            fut,
            push: Box::new(move |r| {
                let x = T::make(r, 2);
                let v = x.v();
                let w = {
                    let mut q = q1.borrow_mut();
                    q.0.push_back(x);
                    q.2.take()
                };
                if let Some(w) = w {
                    w.wake()
                }
                v
            }),
            end: Box::new(move || {
                let w = {
                    let mut q = q2.borrow_mut();
                    q.1 = true;
                    q.2.take()
                };
                if let Some(w) = w {
                    w.wake()
                }
            }),
        })
    }
}
/// the content of a String
struct StrPlace {
    path: &'static dyn Path<Out = str>,
    segs: Vec<Seg>,
}
pub fn str_place<Q: Path<Out = str> + 'static>(q: Q, base: &[Seg]) -> Box<dyn Place> {
    let mut segs = base.to_vec();
    segs.push(Seg::Content);
    Box::new(StrPlace { path: keep(q), segs })
}
fn do_write_str(s: &mut str, w: Write) -> V {
    match w {
        Write::Touch => {}
        Write::Assign | Write::Swap => s.make_ascii_uppercase(),
        _ => s.make_ascii_lowercase(),
    }
    V::Leaf(format!("{s:?}"))
}
impl Place for StrPlace {
    fn segs(&self) -> &[Seg] {
        &self.segs
    }
    fn next_segs(&self, _: &mut Rng, _: Option<&V>) -> Vec<Seg> {
        vec![]
    }
    fn step(&self, _: &Seg, _: How) -> Option<Box<dyn Place>> {
        None
    }
    fn get(&self) -> Option<V> {
        self.path.borrow_opt().map(|s| V::Leaf(format!("{:?}", &*s)))
    }
    fn get_clone(&self) -> Option<V> {
        self.get()
    }
    fn write(&self, _: &mut Rng, w: Write) -> Option<V> {
        self.path.borrow_opt_mut().map(|mut g| do_write_str(&mut g, w))
    }
    fn write_silent(&self, _: &mut Rng, w: Write) -> Option<V> {
        self.path.borrow_opt_mut_without_notifying().map(|mut g| do_write_str(&mut g, w))
    }
    fn set(&self, _: &mut Rng) -> (V, Result<(), V>) {
        match self.path.borrow_opt_mut() {
            Some(mut g) => (do_write_str(&mut g, Write::Assign), Ok(())),
            None => (V::Leaf(String::new()), Err(V::Leaf(String::new()))),
        }
    }
    fn notify(&self) {
        self.path.notify_changed()
    }
    fn hold(&self, mutably: bool) -> Option<Box<dyn Any>> {
        if mutably {
            let g = self.path.borrow_opt_mut()?;
            Some(Box::new(g))
        } else {
            let g = self.path.borrow_opt()?;
            Some(Box::new(g))
        }
    }
    fn until_change(&self) -> Str<()> {
        Box::pin(self.path.until_change())
    }
    fn until_bubbling(&self) -> Str<()> {
        Box::pin(self.path.until_bubbling_change())
    }
    fn for_each(&self, log: Log) -> Fut {
        Box::pin(self.path.for_each(move |x: &str| log.borrow_mut().push(V::Leaf(format!("{x:?}")))))
    }
    fn for_each_async(&self, ctl: Rc<Ctl>) -> Fut {
        Box::pin(self.path.for_each_async(move |x: &str| {
            let value = V::Leaf(format!("{x:?}"));
            let mut fs = ctl.futs.borrow_mut();
            fs.push(CtlFut { value, polls: 0, open: false, done: false, dropped: false, waker: None, polled_after_end: false });
            CtlHandle(ctl.clone(), fs.len() - 1)
        }))
    }
    fn signal(&self, now: bool) -> Str<V> {
        Box::pin(MapV(Box::pin(self.path.signal_stream(now)), |r: std::cell::Ref<'_, str>| V::Leaf(format!("{:?}", &*r))))
    }
    fn bind(&self, _: Log) -> Option<Bind> {
        None
    }
}

// ---------------------------------------------------------------- leaves
macro_rules! leaves {
    ($($t:ty => |$r:ident| $make:expr;)*) => {$(
        impl Val for $t {
            fn v(&self) -> V { V::Leaf(format!("{self:?}")) }
            fn make($r: &mut Rng, _: usize) -> Self { $make }
            fn segs(_: &mut Rng, _: Option<&V>) -> Vec<Seg> { vec![] }
        }
    )*};
}
leaves! {
    u8 => |r| r.below(250) as u8;
    u16 => |r| r.below(60000) as u16;
    u32 => |r| r.u64() as u32;
    u64 => |r| r.u64();
    u128 => |r| r.u64() as u128;
    usize => |r| r.u64() as usize;
    i8 => |r| r.u64() as i8;
    i16 => |r| r.u64() as i16;
    i32 => |r| r.u64() as i32;
    i64 => |r| r.u64() as i64;
    i128 => |r| r.u64() as i128;
    isize => |r| r.u64() as isize;
    bool => |r| r.chance(1, 2);
    char => |r| (b'a' + r.below(26) as u8) as char;
    f32 => |r| r.below(1000) as f32;
    f64 => |r| r.below(1000) as f64;
    () => |_r| ();
    &'static str => |r| *r.pick(&["", "x", "yz"]);
}
/// not trackable: only reachable as a whole
#[derive(Clone, Debug)]
#[allow(dead_code)]
pub struct Opaque(pub u32, pub String);
leaves! { Opaque => |r| Opaque(r.u64() as u32, name(r)); }
pub fn name(r: &mut Rng) -> String {
    let n = r.below(4);
    (0..n).map(|_| *r.pick(&['a', 'b', '\u{e9}', '\u{ff}', '\0', 'Z'])).collect()
}

// ---------------------------------------------------------------- generic containers
macro_rules! go {
    ($p:expr, $how:expr, $base:expr, $s:expr, |$b:ident| $e:expr) => {{
        let p = $p;
        Some(match $how {
            How::Build => {
                let $b = p.build_path();
                place($e.into_path(), $base, Some($s))
            }
            How::Ref => {
                let $b = keep(p).as_ref_path();
                place($e.into_path(), $base, Some($s))
            }
            How::Boxed => {
                let bx: Box<dyn Path<Out = _>> = Box::new(p);
                let $b = bx.build_path();
                place($e.into_path(), $base, Some($s))
            }
        })
    }};
}
/// one type may be stored in Vec<T>, Box<T>, ... only if its paths can be continued
impl<T: Val + Trackable> Val for Vec<T> {
    fn v(&self) -> V {
        V::Seq(self.iter().map(|x| x.v()).collect())
    }
    fn make(r: &mut Rng, d: usize) -> Self {
        let n = if d == 0 { 0 } else { r.below(4) };
        (0..n).map(|_| T::make(r, d - 1)).collect()
    }
    fn segs(r: &mut Rng, _: Option<&V>) -> Vec<Seg> {
        vec![Seg::Idx(0), Seg::Idx(r.below(3)), Seg::Idx(*r.pick(&[1, 2, 3, 255, 256, 1 << 40, usize::MAX]))]
    }
    fn step(p: P<Self>, how: How, base: &[Seg], s: &Seg) -> Option<Box<dyn Place>> {
        let Seg::Idx(i) = s else { return None };
        if base.len() % 3 == 1 {
            return go!(p, how, base, s, |b| b.index_shallow(*i));
        }
        go!(p, how, base, s, |b| b.index(*i))
    }
    fn tweak(&mut self, r: &mut Rng) {
        match r.below(6) {
            0 => {
                self.pop();
            }
            1 => self.insert(0, T::make(r, 1)),
            2 => self.clear(),
            3 => self.reverse(),
            _ => self.push(T::make(r, 1)),
        }
    }
}
pub trait Key: Eq + std::hash::Hash + Clone + 'static {
    fn key(r: &mut Rng) -> Self;
    fn repr(&self) -> String;
    fn parse(s: &str) -> Self;
}
impl Key for u32 {
    fn key(r: &mut Rng) -> Self {
        *r.pick(&[0, 1, 2, 255, 256, u32::MAX])
    }
    fn repr(&self) -> String {
        self.to_string()
    }
    fn parse(s: &str) -> Self {
        s.parse().unwrap()
    }
}
impl Key for String {
    fn key(r: &mut Rng) -> Self {
        name(r)
    }
    fn repr(&self) -> String {
        self.clone()
    }
    fn parse(s: &str) -> Self {
        s.into()
    }
}
impl Key for (u8, String) {
    fn key(r: &mut Rng) -> Self {
        (r.below(3) as u8, name(r))
    }
    fn repr(&self) -> String {
        format!("{}:{}", self.0, self.1)
    }
    fn parse(s: &str) -> Self {
        let (a, b) = s.split_once(':').unwrap();
        (a.parse().unwrap(), b.into())
    }
}
impl<K: Key, T: Val + Trackable> Val for HashMap<K, T> {
    fn v(&self) -> V {
        V::Map(self.iter().map(|(k, x)| (k.repr(), x.v())).collect())
    }
    fn make(r: &mut Rng, d: usize) -> Self {
        let n = if d == 0 { 0 } else { r.below(4) };
        (0..n).map(|_| (K::key(r), T::make(r, d - 1))).collect()
    }
    fn segs(r: &mut Rng, v: Option<&V>) -> Vec<Seg> {
        let mut s = vec![Seg::Key(K::key(r).repr())];
        if let Some(V::Map(m)) = v {
            s.extend(m.keys().map(|k| Seg::Key(k.clone())));
        }
        s
    }
    fn step(p: P<Self>, how: How, base: &[Seg], s: &Seg) -> Option<Box<dyn Place>> {
        let Seg::Key(k) = s else { return None };
        let k = K::parse(k);
        if base.len() % 3 == 1 {
            return go!(p, how, base, s, |b| b.key_shallow(k));
        }
        go!(p, how, base, s, |b| b.key(k))
    }
    fn tweak(&mut self, r: &mut Rng) {
        if r.chance(1, 3) {
            let k = self.keys().min_by_key(|k| k.repr()).cloned();
            if let Some(k) = k {
                self.remove(&k);
            }
        } else {
            self.insert(K::key(r), T::make(r, 1));
        }
    }
}
impl<T: Val + Trackable> Val for Box<T> {
    fn v(&self) -> V {
        V::Cell { shared: false, inner: Box::new((**self).v()) }
    }
    fn make(r: &mut Rng, d: usize) -> Self {
        Box::new(T::make(r, d))
    }
    fn segs(_: &mut Rng, _: Option<&V>) -> Vec<Seg> {
        vec![Seg::Content]
    }
    fn step(p: P<Self>, how: How, base: &[Seg], s: &Seg) -> Option<Box<dyn Place>> {
        if base.len() % 3 == 1 {
            return go!(p, how, base, s, |b| b.content_shallow());
        }
        go!(p, how, base, s, |b| b.content())
    }
    fn tweak(&mut self, r: &mut Rng) {
        (**self).tweak(r)
    }
}
impl<T: Val + Trackable> Val for Rc<T> {
    fn v(&self) -> V {
        V::Cell { shared: Rc::strong_count(self) > 1 || Rc::weak_count(self) > 0, inner: Box::new((**self).v()) }
    }
    fn make(r: &mut Rng, d: usize) -> Self {
        let x = Rc::new(T::make(r, d));
        if r.chance(1, 3) {
            RC_CLONES.with(|c| c.borrow_mut().push(x.clone() as Rc<dyn Any>));
        }
        x
    }
    fn segs(_: &mut Rng, _: Option<&V>) -> Vec<Seg> {
        vec![Seg::Content]
    }
    fn step(p: P<Self>, how: How, base: &[Seg], s: &Seg) -> Option<Box<dyn Place>> {
        go!(p, how, base, s, |b| b.content())
    }
}
impl Val for String {
    fn v(&self) -> V {
        V::Leaf(format!("{self:?}"))
    }
    fn make(r: &mut Rng, _: usize) -> Self {
        name(r)
    }
    fn segs(_: &mut Rng, _: Option<&V>) -> Vec<Seg> {
        vec![Seg::Content]
    }
    fn step(p: P<Self>, how: How, base: &[Seg], _: &Seg) -> Option<Box<dyn Place>> {
        Some(match how {
            How::Build => str_place(p.build_path().content().into_path(), base),
            How::Ref => str_place(keep(p).as_ref_path().content().into_path(), base),
            How::Boxed => {
                let bx: Box<dyn Path<Out = String>> = Box::new(p);
                str_place(bx.build_path().content().into_path(), base)
            }
        })
    }
    fn tweak(&mut self, r: &mut Rng) {
        self.push(*r.pick(&['x', 'y']));
    }
}
impl<T: Val + Trackable> Val for Option<T> {
    fn v(&self) -> V {
        match self {
            Some(x) => V::Rec("Some", vec![("0", x.v())]),
            None => V::Rec("None", vec![]),
        }
    }
    fn make(r: &mut Rng, d: usize) -> Self {
        (d > 0 && r.chance(3, 5)).then(|| T::make(r, d - 1))
    }
    fn segs(_: &mut Rng, _: Option<&V>) -> Vec<Seg> {
        vec![Seg::Var("Some", "0")]
    }
    fn step(p: P<Self>, how: How, base: &[Seg], s: &Seg) -> Option<Box<dyn Place>> {
        go!(p, how, base, s, |b| b.Some_0())
    }
    fn tweak(&mut self, r: &mut Rng) {
        if r.chance(1, 2) {
            self.take();
        } else {
            *self = Some(T::make(r, 1));
        }
    }
}
macro_rules! tuples {
    ($(($($g:ident $n:tt $t:ident),*);)*) => {$(
        impl<$($g: Val + Trackable),*> Val for ($($g,)*) {
            fn v(&self) -> V { V::Rec("", vec![$((stringify!($t), self.$n.v())),*]) }
            fn make(r: &mut Rng, d: usize) -> Self { ($($g::make(r, d.saturating_sub(1)),)*) }
            fn segs(r: &mut Rng, _: Option<&V>) -> Vec<Seg> {
                let all = [$(stringify!($t)),*];
                vec![Seg::F(*r.pick(&all)), Seg::F(*r.pick(&all))]
            }
            fn step(p: P<Self>, how: How, base: &[Seg], s: &Seg) -> Option<Box<dyn Place>> {
                match s {
                    $(Seg::F(n) if *n == stringify!($t) => go!(p, how, base, s, |b| b.$t()),)*
                    _ => None,
                }
            }
            fn tweak(&mut self, r: &mut Rng) { self.0.tweak(r) }
        }
    )*};
}
tuples! {
    (A 0 t0);
    (A 0 t0, B 1 t1);
    (A 0 t0, B 1 t1, C 2 t2);
    (A 0 t0, B 1 t1, C 2 t2, D 3 t3);
    (A 0 t0, B 1 t1, C 2 t2, D 3 t3, E 4 t4);
    (A 0 t0, B 1 t1, C 2 t2, D 3 t3, E 4 t4, F 5 t5);
    (A 0 t0, B 1 t1, C 2 t2, D 3 t3, E 4 t4, F 5 t5, G 6 t6);
    (A 0 t0, B 1 t1, C 2 t2, D 3 t3, E 4 t4, F 5 t5, G 6 t6, H 7 t7);
    (A 0 t0, B 1 t1, C 2 t2, D 3 t3, E 4 t4, F 5 t5, G 6 t6, H 7 t7, I 8 t8);
    (A 0 t0, B 1 t1, C 2 t2, D 3 t3, E 4 t4, F 5 t5, G 6 t6, H 7 t7, I 8 t8, J 9 t9);
    (A 0 t0, B 1 t1, C 2 t2, D 3 t3, E 4 t4, F 5 t5, G 6 t6, H 7 t7, I 8 t8, J 9 t9, K 10 t10);
    (A 0 t0, B 1 t1, C 2 t2, D 3 t3, E 4 t4, F 5 t5, G 6 t6, H 7 t7, I 8 t8, J 9 t9, K 10 t10, L 11 t11);
}

// ---------------------------------------------------------------- derived types
macro_rules! val_struct {
    // fields with their method names; `-` marks a field no path leads to
    ($t:ty, [$($f:tt = $m:tt),*], |$r:ident, $d:ident| $make:expr) => {
        impl Val for $t {
            fn v(&self) -> V { V::Rec("", vec![$((val_struct!(@n $f $m), self.$f.v())),*]) }
            fn make($r: &mut Rng, $d: usize) -> Self { $make }
            fn segs(_: &mut Rng, _: Option<&V>) -> Vec<Seg> {
                let mut v: Vec<Seg> = vec![];
                $(val_struct!(@seg v $m);)*
                v
            }
            fn step(p: P<Self>, how: How, base: &[Seg], s: &Seg) -> Option<Box<dyn Place>> {
                let Seg::F(name) = s else { return None };
                $(val_struct!(@step name p how base s $m);)*
                let _ = (name, p, how, base, s);
                None
            }
        }
    };
    (@n $f:tt -) => { concat!("hidden_", stringify!($f)) };
    (@n $f:tt $m:tt) => { stringify!($m) };
    (@seg $v:ident -) => {};
    (@seg $v:ident $m:tt) => { $v.push(Seg::F(stringify!($m))); };
    (@step $name:ident $p:ident $how:ident $base:ident $s:ident -) => {};
    (@step $name:ident $p:ident $how:ident $base:ident $s:ident $m:tt) => {
        if *$name == stringify!($m) { return go!($p, $how, $base, $s, |b| b.$m()); }
    };
}
macro_rules! val_enum {
    ($t:ty, [$($var:ident { $($pat:tt)* } => [$($x:ident = $n:tt $m:tt),*]),*], |$r:ident, $d:ident| $make:expr) => {
        impl Val for $t {
            fn v(&self) -> V {
                match self { $(Self::$var { $($pat)* } => V::Rec(stringify!($var), vec![$((stringify!($n), $x.v())),*])),* }
            }
            fn make($r: &mut Rng, $d: usize) -> Self { $make }
            fn segs(_: &mut Rng, _: Option<&V>) -> Vec<Seg> {
                let mut v: Vec<Seg> = vec![];
                $($(val_enum!(@seg v $var $n $m);)*)*
                v
            }
            fn step(p: P<Self>, how: How, base: &[Seg], s: &Seg) -> Option<Box<dyn Place>> {
                let Seg::Var(var, name) = s else { return None };
                $($(val_enum!(@step var name p how base s $var $n $m);)*)*
                let _ = (var, name, p, how, base);
                None
            }
        }
    };
    (@seg $v:ident $var:ident $n:tt -) => {};
    (@seg $v:ident $var:ident $n:tt $m:tt) => { $v.push(Seg::Var(stringify!($var), stringify!($n))); };
    (@step $v:ident $name:ident $p:ident $how:ident $base:ident $s:ident $var:ident $n:tt -) => {};
    (@step $v:ident $name:ident $p:ident $how:ident $base:ident $s:ident $var:ident $n:tt $m:tt) => {
        if *$v == stringify!($var) && *$name == stringify!($n) { return go!($p, $how, $base, $s, |b| b.$m()); }
    };
}

#[derive(Clone, Trackable)]
#[track(deep)]
pub struct Item {
    pub a: u16,
    pub b: String,
    pub c: Option<Box<Item>>,
    pub tags: Vec<String>,
}
val_struct!(Item, [a = a, b = b, c = c, tags = tags], |r, d| Item {
    a: Val::make(r, 0),
    b: Val::make(r, 0),
    c: Val::make(r, d.min(2)),
    tags: Val::make(r, d)
});

#[derive(Clone, Trackable)]
#[track(deep)]
pub struct Node {
    pub val: u8,
    pub kids: Vec<Node>,
    pub left: Option<Box<Node>>,
    #[track(skip)]
    pub secret: u8,
    pub right: Option<Box<Node>>,
}
val_struct!(Node, [val = val, kids = kids, left = left, secret = -, right = right], |r, d| Node {
    val: Val::make(r, 0),
    kids: if d > 1 && r.chance(1, 2) { Val::make(r, d - 1) } else { vec![] },
    left: if d > 0 && r.chance(1, 2) { Val::make(r, d - 1) } else { None },
    secret: Val::make(r, 0),
    right: if d > 0 && r.chance(1, 3) { Val::make(r, d - 1) } else { None },
});

#[derive(Clone, Trackable)]
#[track(deep)]
pub enum Shape {
    Unit,
    Tup(u8, #[track(skip)] u16, Item),
    Rec {
        x: u8,
        #[track(shallow)]
        y: Opaque,
        items: Vec<u8>,
    },
    Single(Box<Node>),
    Same {
        x: u8,
        #[track(skip)]
        hid: u8,
        y: Option<u8>,
    },
    Pair(u8, u8),
}
val_enum!(Shape, [
    Unit {} => [],
    Tup { 0: a, 1: b, 2: c } => [a = 0 Tup_0, b = 1 -, c = 2 Tup_2],
    Rec { x, y, items } => [x = x Rec_x, y = y Rec_y, items = items Rec_items],
    Single { 0: n } => [n = 0 Single_0],
    Same { x, hid, y } => [x = x Same_x, hid = hid -, y = y Same_y],
    Pair { 0: a, 1: b } => [a = 0 Pair_0, b = 1 Pair_1]
], |r, d| match r.below(6) {
    0 => Shape::Unit,
    1 => Shape::Tup(Val::make(r, 0), Val::make(r, 0), Val::make(r, d.saturating_sub(1))),
    2 => Shape::Rec { x: Val::make(r, 0), y: Val::make(r, 0), items: Val::make(r, d) },
    3 => Shape::Single(Val::make(r, d.saturating_sub(1))),
    4 => Shape::Same { x: Val::make(r, 0), hid: Val::make(r, 0), y: Val::make(r, d) },
    _ => Shape::Pair(Val::make(r, 0), Val::make(r, 0)),
});

#[derive(Clone, Trackable)]
pub enum Plain {
    A(u8, #[track(deep)] Item),
    B {
        #[track(deep)]
        inner: Item,
        o: Opaque,
    },
}
val_enum!(Plain, [
    A { 0: a, 1: b } => [a = 0 A_0, b = 1 A_1],
    B { inner, o } => [inner = inner B_inner, o = o B_o]
], |r, d| if r.chance(1, 2) { Plain::A(Val::make(r, 0), Val::make(r, d)) } else { Plain::B { inner: Val::make(r, d), o: Val::make(r, 0) } });

#[derive(Clone, Trackable)]
#[track(deep)]
pub struct Gen<T: Clone, U>
where
    U: Clone,
{
    pub inner: T,
    #[track(skip)]
    pub ghost: u8,
    pub many: Vec<T>,
    pub other: Option<U>,
}
macro_rules! gens {
    ($($t:ty),*) => {$(val_struct!($t, [inner = inner, ghost = -, many = many, other = other], |r, d| Gen {
        inner: Val::make(r, d),
        ghost: Val::make(r, 0),
        many: Val::make(r, d),
        other: Val::make(r, d),
    });)*};
}
gens!(Gen<Item, u8>, Gen<u8, Shape>, Gen<Option<u8>, Gen<Item, u8>>);

#[derive(Clone, Trackable)]
#[track(deep)]
pub struct Wrap(pub u8, #[track(skip)] pub u8, pub Gen<u8, Shape>, pub u8);
val_struct!(Wrap, [0 = t0, 1 = -, 2 = t2, 3 = t3], |r, d| Wrap(Val::make(r, 0), Val::make(r, 0), Val::make(r, d), Val::make(r, 0)));

#[derive(Clone, Trackable)]
#[track(deep)]
#[x_bow(bound = "T: Trackable")]
pub struct Bound<T> {
    pub deep: T,
    #[track(shallow)]
    pub shallow: Item,
}
val_struct!(Bound<Node>, [deep = deep, shallow = shallow], |r, d| Bound { deep: Val::make(r, d), shallow: Val::make(r, d) });

#[derive(Clone, Trackable)]
#[track(deep)]
pub struct Life<'a> {
    pub s: &'a str,
    pub n: u8,
}
val_struct!(Life<'static>, [s = s, n = n], |r, _d| Life { s: Val::make(r, 0), n: Val::make(r, 0) });

#[derive(Clone, Trackable)]
#[track(deep)]
pub struct Prims {
    pub p0: bool,
    pub p1: char,
    pub p2: f32,
    pub p3: f64,
    pub p4: i128,
    pub p5: i16,
    pub p6: i32,
    pub p7: i64,
    pub p8: i8,
    pub p9: isize,
    pub p10: u128,
    pub p11: u64,
    pub p12: usize,
    pub p13: (),
}
val_struct!(Prims, [p0 = p0, p1 = p1, p2 = p2, p3 = p3, p4 = p4, p5 = p5, p6 = p6, p7 = p7, p8 = p8, p9 = p9, p10 = p10, p11 = p11, p12 = p12, p13 = p13],
    |r, _d| Prims { p0: Val::make(r, 0), p1: Val::make(r, 0), p2: Val::make(r, 0), p3: Val::make(r, 0), p4: Val::make(r, 0), p5: Val::make(r, 0), p6: Val::make(r, 0),
        p7: Val::make(r, 0), p8: Val::make(r, 0), p9: Val::make(r, 0), p10: Val::make(r, 0), p11: Val::make(r, 0), p12: Val::make(r, 0), p13: () });

pub type Twelve = (u8, u16, String, u8, Option<u8>, u8, u8, Vec<u8>, u8, u8, u8, Item);
pub type Tups = (
    (u8,),
    (u8, u8),
    (u8, u8, u8),
    (u8, u8, u8, u8),
    (u8, u8, u8, u8, u8),
    (u8, u8, u8, u8, u8, u8),
    (u8, u8, u8, u8, u8, u8, u8),
    (u8, u8, u8, u8, u8, u8, u8, u8),
    (u8, u8, u8, u8, u8, u8, u8, u8, u8),
    (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
    (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
);

#[derive(Clone, Trackable)]
#[track(deep)]
pub struct Root {
    pub name: String,
    pub count: u32,
    pub list: Vec<Item>,
    pub by_name: HashMap<String, Item>,
    pub by_num: HashMap<u32, Vec<u8>>,
    pub by_pair: HashMap<(u8, String), Option<u8>>,
    pub tree: Node,
    pub pair: (u8, Item),
    pub shape: Shape,
    pub boxed: Box<Item>,
    pub rc: Rc<Item>,
    pub opt: Option<Shape>,
    pub gener: Gen<Item, u8>,
    #[track(skip)]
    pub hidden: u64,
    #[track(shallow)]
    pub opaque: Opaque,
    pub big: Twelve,
    pub tups: Tups,
    pub wrap: Wrap,
    pub life: Life<'static>,
    pub plain: Plain,
    pub bound: Bound<Node>,
    pub prims: Prims,
    pub gg: Gen<Option<u8>, Gen<Item, u8>>,
    pub rcs: Vec<Rc<Item>>,
    pub nest: Vec<Vec<HashMap<u32, Shape>>>,
}
val_struct!(Root, [name = name, count = count, list = list, by_name = by_name, by_num = by_num, by_pair = by_pair, tree = tree, pair = pair, shape = shape, boxed = boxed, rc = rc,
    opt = opt, gener = gener, hidden = -, opaque = opaque, big = big, tups = tups, wrap = wrap, life = life, plain = plain, bound = bound, prims = prims, gg = gg, rcs = rcs, nest = nest],
    |r, d| Root {
        name: Val::make(r, d), count: Val::make(r, d), list: Val::make(r, d), by_name: Val::make(r, d), by_num: Val::make(r, d), by_pair: Val::make(r, d), tree: Val::make(r, d + 1),
        pair: Val::make(r, d), shape: Val::make(r, d), boxed: Val::make(r, d), rc: Val::make(r, d), opt: Val::make(r, d), gener: Val::make(r, d), hidden: Val::make(r, d),
        opaque: Val::make(r, d), big: Val::make(r, d), tups: Val::make(r, d), wrap: Val::make(r, d), life: Val::make(r, d), plain: Val::make(r, d), bound: Val::make(r, d),
        prims: Val::make(r, d), gg: Val::make(r, d), rcs: Val::make(r, d), nest: Val::make(r, d + 1),
    });

// ---------------------------------------------------------------- whole paths of static type
pub type St = &'static Store<Root>;
macro_rules! statics {
    ($st:expr, $n:expr, $i:expr, $k:expr, $b:ident, $ii:ident, $kk:ident; sure: [$([$($sseg:expr),*] => $se:expr;)*] open: [$([$($oseg:expr),*] => $oe:expr;)*]) => {{
        let $ii: usize = $i;
        let $kk: u32 = $k;
        let mut n = $n;
        let total = 0 $(+ {let _ = stringify!($se); 1})* $(+ {let _ = stringify!($oe); 1})*;
        n %= total;
        let mut j = 0usize;
        $(
            if j == n { let $b = $st.build_path(); return sure_place($se.into_path(), &[$($sseg),*]); }
            j += 1;
        )*
        $(
            if j == n { let $b = $st.build_path(); return place($oe.into_path(), &[$($oseg),*], None); }
            j += 1;
        )*
        let _ = j;
        unreachable!()
    }};
}
/// a path built in one go, without type erasure in between
pub fn static_place(st: St, r: &mut Rng) -> Box<dyn Place> {
    use Seg::*;
    statics!(st, r.below(1 << 20), r.below(3), *r.pick(&[0, 1, 2, 255]), b, i, k;
        sure: [
            [] => b;
            [F("name")] => b.name();
            [F("count")] => b.count();
            [F("list")] => b.list();
            [F("tree")] => b.tree();
            [F("tree"), F("val")] => b.tree().val();
            [F("tree"), F("right")] => b.tree().right();
            [F("pair")] => b.pair();
            [F("pair"), F("t1")] => b.pair().t1();
            [F("pair"), F("t1"), F("a")] => b.pair().t1().a();
            [F("shape")] => b.shape();
            [F("boxed")] => b.boxed();
            [F("boxed"), Content] => b.boxed().content();
            [F("boxed"), Content, F("b")] => b.boxed().content().b();
            [F("boxed"), Content] => b.boxed().content_shallow();
            [F("gener"), F("inner"), F("a")] => b.gener().inner().a();
            [F("gener"), F("many")] => b.gener().many();
            [F("opaque")] => b.opaque();
            [F("big"), F("t11"), F("tags")] => b.big().t11().tags();
            [F("big"), F("t10")] => b.big().t10();
            [F("tups"), F("t10"), F("t9")] => b.tups().t10().t9();
            [F("wrap"), F("t2"), F("inner")] => b.wrap().t2().inner();
            [F("wrap"), F("t3")] => b.wrap().t3();
            [F("life"), F("s")] => b.life().s();
            [F("bound"), F("deep"), F("val")] => b.bound().deep().val();
            [F("bound"), F("shallow")] => b.bound().shallow();
            [F("prims"), F("p4")] => b.prims().p4();
            [F("gg"), F("inner")] => b.gg().inner();
        ]
        open: [
            [F("list"), Idx(i)] => b.list().index(i);
            [F("list"), Idx(i), F("b")] => b.list().index(i).b();
            [F("list"), Idx(i)] => b.list().index_shallow(i);
            [F("list"), Idx(i), F("c"), Var("Some", "0"), Content, F("a")] => b.list().index(i).c().Some_0().content().a();
            [F("list"), Idx(i), F("tags"), Idx(k as usize)] => b.list().index(i).tags().index(k as usize);
            [F("by_num"), Key(k.to_string())] => b.by_num().key(k);
            [F("by_num"), Key(k.to_string()), Idx(i)] => b.by_num().key(k).index(i);
            [F("by_num"), Key(k.to_string())] => b.by_num().key_shallow(k);
            [F("by_name"), Key("a".into()), F("tags"), Idx(i)] => b.by_name().key("a".into()).tags().index(i);
            [F("by_pair"), Key("1:b".into()), Var("Some", "0")] => b.by_pair().key((1, "b".into())).Some_0();
            [F("tree"), F("kids"), Idx(i), F("kids"), Idx(0)] => b.tree().kids().index(i).kids().index(0);
            [F("tree"), F("left"), Var("Some", "0"), Content, F("left"), Var("Some", "0")] => b.tree().left().Some_0().content().left().Some_0();
            [F("tree"), F("right"), Var("Some", "0"), Content, F("val")] => b.tree().right().Some_0().content().val();
            [F("shape"), Var("Tup", "0")] => b.shape().Tup_0();
            [F("shape"), Var("Tup", "2"), F("a")] => b.shape().Tup_2().a();
            [F("shape"), Var("Rec", "x")] => b.shape().Rec_x();
            [F("shape"), Var("Rec", "y")] => b.shape().Rec_y();
            [F("shape"), Var("Rec", "items"), Idx(i)] => b.shape().Rec_items().index(i);
            [F("shape"), Var("Single", "0"), Content, F("kids")] => b.shape().Single_0().content().kids();
            [F("shape"), Var("Same", "x")] => b.shape().Same_x();
            [F("shape"), Var("Same", "y"), Var("Some", "0")] => b.shape().Same_y().Some_0();
            [F("shape"), Var("Pair", "0")] => b.shape().Pair_0();
            [F("shape"), Var("Pair", "1")] => b.shape().Pair_1();
            [F("opt"), Var("Some", "0"), Var("Pair", "1")] => b.opt().Some_0().Pair_1();
            [F("opt"), Var("Some", "0")] => b.opt().Some_0();
            [F("rc"), Content, F("a")] => b.rc().content().a();
            [F("rc"), Content] => b.rc().content();
            [F("rcs"), Idx(i), Content, F("b")] => b.rcs().index(i).content().b();
            [F("plain"), Var("A", "0")] => b.plain().A_0();
            [F("plain"), Var("A", "1"), F("a")] => b.plain().A_1().a();
            [F("plain"), Var("B", "inner"), F("b")] => b.plain().B_inner().b();
            [F("plain"), Var("B", "o")] => b.plain().B_o();
            [F("gg"), F("inner"), Var("Some", "0")] => b.gg().inner().Some_0();
            [F("gg"), F("other"), Var("Some", "0"), F("inner"), F("a")] => b.gg().other().Some_0().inner().a();
            [F("nest"), Idx(i), Idx(0), Key(k.to_string()), Var("Rec", "x")] => b.nest().index(i).index(0).key(k).Rec_x();
            [F("nest"), Idx(i), Idx(i)] => b.nest().index(i).index(i);
            [F("wrap"), F("t2"), F("other"), Var("Some", "0"), Var("Tup", "0")] => b.wrap().t2().other().Some_0().Tup_0();
        ]
    )
}
pub fn root_place(st: St) -> Box<dyn Place> {
    place(st.build_path().into_path(), &[], None)
}
/// a path built step by step; prefers parts that exist in `v`
pub fn random_place(st: St, r: &mut Rng, v: &V) -> Box<dyn Place> {
    let mut p = root_place(st);
    if r.chance(1, 150) {
        // very long paths
        let tree = Seg::F("tree");
        p = p.step(&tree, How::Build).unwrap();
        for _ in 0..*r.pick(&[20, 62, 63, 64, 126, 127, 128, 140]) {
            let s = if r.chance(9, 10) { [Seg::F("kids"), Seg::Idx(0)] } else { [Seg::F("kids"), Seg::Idx(1)] };
            p = p.step(&s[0], How::Build).unwrap().step(&s[1], How::Build).unwrap();
        }
        return p;
    }
    let depth = *r.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 5, 7]);
    for _ in 0..depth {
        let cur = v.at(p.segs(), false);
        let segs = p.next_segs(r, cur);
        if segs.is_empty() {
            break;
        }
        let mut s = r.pick(&segs).clone();
        for _ in 0..2 {
            if cur.is_some_and(|c| c.at(std::slice::from_ref(&s), false).is_none()) {
                s = r.pick(&segs).clone();
            }
        }
        match p.step(&s, how(r)) {
            Some(n) => p = n,
            None => panic!("HARNESS: no step {s:?} at {:?}", p.segs()),
        }
    }
    p
}
/// rebuilds the place named by `segs` by another route
pub fn rebuild(st: St, r: &mut Rng, segs: &[Seg]) -> Box<dyn Place> {
    let mut p = root_place(st);
    for s in segs {
        p = p.step(s, how(r)).unwrap_or_else(|| panic!("HARNESS: no step {s:?} at {:?}", p.segs()));
    }
    p
}
