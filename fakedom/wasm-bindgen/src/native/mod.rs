//! The simulated browser: values, objects, DOM tree, events, timers, observers.
//! One instance per OS thread. Semantics follow the DOM Standard for what is implemented;
//! anything else ends in a panic whose message starts with `FAKEDOM-UNSUPPORTED`, which the
//! harness treats as "no verdict".
use crate::{JsCast, JsValue, V};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::rc::{Rc, Weak};

mod dom;
mod events;
mod html;
mod tables;
pub use dom::*;
pub use events::*;
pub use html::*;
pub use tables::{class_for_tag, instance_of_class};

pub type Args = Vec<JsValue>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Get,
    Set,
    Call,
    Index,
}

#[derive(Clone)]
pub enum FnBody {
    Shared(Rc<dyn Fn(&[JsValue]) -> JsValue>),
    Exclusive(Rc<RefCell<dyn FnMut(&[JsValue]) -> JsValue>>),
}

pub struct Obj {
    pub id: u64,
    pub class: &'static str,
    pub props: RefCell<BTreeMap<String, JsValue>>,
    pub listeners: RefCell<Vec<Rc<Listener>>>,
    pub data: Data,
}
pub enum Data {
    Plain,
    Array(RefCell<Vec<JsValue>>),
    Function(RefCell<Option<FnBody>>),
    Node(NodeData),
    Event(EventData),
    TokenList(Weak<Obj>),
    Style(Weak<Obj>),
    Observer(ObserverData),
    Error(String),
}

thread_local! {
    static NEXT_ID: Cell<u64> = const { Cell::new(1) };
    static PAGE: Rc<Page> = Rc::new(Page::new());
    static STATS: RefCell<Stats> = RefCell::new(Stats::default());
    static LIVE_OBJS: Cell<i64> = const { Cell::new(0) };
    static LIVE_CLASSES: RefCell<std::collections::BTreeMap<&'static str, i64>> = const { RefCell::new(std::collections::BTreeMap::new()) };
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub dom_ops: u64,
    pub inserts: u64,
    pub removes: u64,
    pub exceptions: u64,
    pub listeners_added: u64,
    pub listeners_removed: u64,
    pub dispatches: u64,
    pub callbacks: u64,
    pub dead_callbacks: u64,
    pub timers_set: u64,
    pub timers_run: u64,
    pub closures_created: u64,
    pub console_errors: u64,
    pub nodes_created: u64,
}
pub fn stats<R>(f: impl FnOnce(&mut Stats) -> R) -> R {
    STATS.with(|s| f(&mut s.borrow_mut()))
}
pub fn live_objects() -> i64 {
    LIVE_OBJS.with(|l| l.get())
}

pub fn live_by_class() -> Vec<(&'static str, i64)> {
    LIVE_CLASSES.with(|l| l.borrow().iter().map(|(k, v)| (*k, *v)).collect())
}

pub struct Timer {
    pub id: u32,
    pub callback: JsValue,
    pub args: Vec<JsValue>,
    pub delay: f64,
    /// when it is due, in the page's virtual time (only `advance` looks at this)
    pub due: f64,
    /// repeats (setInterval)
    pub period: Option<f64>,
    pub kind: &'static str,
}
pub struct Page {
    /// virtual time in milliseconds, moved by `advance`
    pub clock: Cell<f64>,
    pub window: Rc<Obj>,
    pub document: Rc<Obj>,
    pub timers: RefCell<VecDeque<Timer>>,
    next_timer: Cell<u32>,
    forever: RefCell<Vec<JsValue>>,
    /// a garbage collector keeps the parent of a reachable node alive: every node that ever had a
    /// child is kept until the page goes away
    parents: RefCell<Vec<Rc<Obj>>>,
    /// JS exceptions that escaped a callback (what `window.onerror` would see)
    pub uncaught: RefCell<Vec<String>>,
    pub console: RefCell<Vec<String>>,
    pub layout: RefCell<Option<Rc<dyn Fn(&Rc<Obj>) -> [f64; 4]>>>,
    pub observers: RefCell<Vec<Weak<Obj>>>,
    pub inline_modules: RefCell<Vec<&'static str>>,
}
impl Page {
    fn new() -> Self {
        let document = Obj::new("HTMLDocument", Data::Node(NodeData::new(NodeKind::Document, "#document")));
        let html = new_element_raw("html");
        let head = new_element_raw("head");
        let body = new_element_raw("body");
        link_last(&html, &head);
        link_last(&html, &body);
        link_last(&document, &html);
        Page {
            clock: Cell::new(0.0),
            window: Obj::new("Window", Data::Plain),
            document,
            timers: Default::default(),
            next_timer: Cell::new(1),
            forever: Default::default(),
            parents: Default::default(),
            uncaught: Default::default(),
            console: Default::default(),
            layout: Default::default(),
            observers: Default::default(),
            inline_modules: Default::default(),
        }
    }
}
pub fn page() -> Rc<Page> {
    PAGE.with(|p| p.clone())
}
pub(crate) fn keep_parent(o: &Rc<Obj>) {
    PAGE.with(|p| p.parents.borrow_mut().push(o.clone()))
}
/// What a garbage collector would do: lets go of detached trees nothing outside refers to.
pub fn collect() {
    let p = page();
    // references from the tree itself: one from the list of parents, one from the parent node
    fn unreferenced(o: &Rc<Obj>, in_parent: bool) -> bool {
        let Some(n) = o.node() else { return false };
        let own = n.kept.get() as usize + in_parent as usize;
        Rc::strong_count(o) == own && n.children.borrow().iter().all(|c| unreferenced(c, true))
    }
    loop {
        let mut v = p.parents.borrow_mut();
        // a root: no parent; its descendants can go once it has gone
        let (gone, kept): (Vec<_>, Vec<_>) = std::mem::take(&mut *v).into_iter().partition(|o| {
            let detached = o.node().is_some_and(|n| n.parent.borrow().upgrade().is_none());
            detached && unreferenced(o, false)
        });
        *v = kept;
        drop(v);
        if gone.is_empty() {
            break;
        }
        drop(gone);
    }
    p.parents.borrow_mut().shrink_to_fit();
    p.observers.borrow_mut().retain(|w| w.strong_count() > 0);
}
pub fn keep_forever(v: JsValue) {
    page().forever.borrow_mut().push(v)
}

impl Obj {
    pub fn new(class: &'static str, data: Data) -> Rc<Obj> {
        let id = NEXT_ID.with(|n| {
            let v = n.get();
            n.set(v + 1);
            v
        });
        LIVE_OBJS.with(|l| l.set(l.get() + 1));
        LIVE_CLASSES.with(|l| *l.borrow_mut().entry(class).or_default() += 1);
        Rc::new(Obj {
            id,
            class,
            props: Default::default(),
            listeners: Default::default(),
            data,
        })
    }
    pub fn new_function(body: FnBody) -> Rc<Obj> {
        Obj::new("Function", Data::Function(RefCell::new(Some(body))))
    }
    pub fn node(&self) -> Option<&NodeData> {
        match &self.data {
            Data::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn event(&self) -> Option<&EventData> {
        match &self.data {
            Data::Event(n) => Some(n),
            _ => None,
        }
    }
    pub fn prop(&self, k: &str) -> JsValue {
        self.props.borrow().get(k).cloned().unwrap_or_default()
    }
    pub fn set_prop(&self, k: &str, v: JsValue) {
        let old = self.props.borrow_mut().insert(k.to_string(), v);
        drop(old);
    }
}
impl Drop for Obj {
    fn drop(&mut self) {
        let _ = LIVE_OBJS.try_with(|l| l.set(l.get() - 1));
        let _ = LIVE_CLASSES.try_with(|l| *l.borrow_mut().entry(self.class).or_default() -= 1);
        // unlink children iteratively to keep deep trees from overflowing the stack
        if let Data::Node(n) = &self.data {
            let mut stack: Vec<Rc<Obj>> = std::mem::take(&mut *n.children.borrow_mut());
            while let Some(c) = stack.pop() {
                if let Some(cn) = c.node() {
                    *cn.parent.borrow_mut() = Weak::new();
                    if Rc::strong_count(&c) == 1 {
                        stack.append(&mut cn.children.borrow_mut());
                    }
                }
            }
        }
    }
}
pub fn is_function(o: &Rc<Obj>) -> bool {
    matches!(o.data, Data::Function(_))
}
pub fn invalidate_function(o: &Rc<Obj>) {
    if let Data::Function(f) = &o.data {
        let b = f.borrow_mut().take();
        drop(b);
    }
}
pub fn make_error(name: &'static str, msg: &str) -> JsValue {
    let o = Obj::new("DOMException", Data::Error(msg.to_string()));
    o.set_prop("name", name.into());
    o.set_prop("message", msg.into());
    JsValue::from_obj(o)
}
pub fn dom_error(name: &'static str, msg: &str) -> JsValue {
    stats(|s| s.exceptions += 1);
    make_error(name, msg)
}
pub fn debug_obj(o: &Rc<Obj>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match &o.data {
        Data::Error(m) => write!(f, "JsError({}: {m})", o.prop("name").as_string().unwrap_or_default()),
        Data::Node(n) => match n.kind {
            NodeKind::Element => write!(f, "<{}#{}>", n.name, o.id),
            NodeKind::Text => write!(f, "text({:?}#{})", n.data.borrow(), o.id),
            _ => write!(f, "{}#{}", n.name, o.id),
        },
        _ => write!(f, "[object {}#{}]", o.class, o.id),
    }
}
#[track_caller]
pub fn unsupported(what: &str) -> ! {
    panic!("FAKEDOM-UNSUPPORTED: {what}")
}
/// A JS exception came out of a binding that is not declared to throw.
#[track_caller]
pub fn uncaught<T>(e: JsValue) -> T {
    panic!("uncaught JS exception: {e:?}")
}

/// Call a JS function value.
pub fn call_function(f: &JsValue, args: &[JsValue]) -> Result<JsValue, JsValue> {
    let Some(o) = f.obj() else {
        return Err(make_error("TypeError", "not a function"));
    };
    let Data::Function(b) = &o.data else {
        return Err(make_error("TypeError", "not a function"));
    };
    stats(|s| s.callbacks += 1);
    let body = b.borrow().clone();
    match body {
        None => {
            stats(|s| s.dead_callbacks += 1);
            Err(make_error(
                "Error",
                "closure invoked recursively or after being dropped",
            ))
        }
        Some(FnBody::Shared(f)) => Ok(f(args)),
        Some(FnBody::Exclusive(f)) => match f.try_borrow_mut() {
            Ok(mut f) => Ok(f(args)),
            Err(_) => {
                stats(|s| s.dead_callbacks += 1);
                Err(make_error(
                    "Error",
                    "closure invoked recursively or after being dropped",
                ))
            }
        },
    }
}
/// Call from the event loop or a dispatch: an exception is reported, not propagated.
pub fn call_reporting(f: &JsValue, args: &[JsValue]) {
    if let Err(e) = call_function(f, args) {
        page().uncaught.borrow_mut().push(format!("{e:?}"));
    }
}

// ---------------------------------------------------------------- timers
pub fn add_timer(callback: JsValue, args: Vec<JsValue>, delay: f64, kind: &'static str) -> u32 {
    let p = page();
    let id = p.next_timer.get();
    p.next_timer.set(id + 1);
    stats(|s| s.timers_set += 1);
    let due = p.clock.get() + delay;
    let period = (kind == "interval").then_some(delay.max(1.0));
    p.timers.borrow_mut().push_back(Timer { id, callback, args, delay, due, period, kind });
    id
}
pub(crate) fn timer_op(name: &str, a: &[JsValue]) -> Option<JsValue> {
    let delay = || arg(a, 1).as_f64().unwrap_or(0.0).max(0.0);
    let more = || a.get(2..).unwrap_or(&[]).to_vec();
    Some(match name {
        "setTimeout" => (add_timer(arg(a, 0), more(), delay(), "timeout") as f64).into(),
        "setInterval" => (add_timer(arg(a, 0), more(), delay(), "interval") as f64).into(),
        "clearTimeout" | "clearInterval" | "cancelAnimationFrame" => {
            let id = arg(a, 0).as_f64().unwrap_or(-1.0);
            let gone: VecDeque<Timer> = {
                let p = page();
                let mut q = p.timers.borrow_mut();
                let (gone, kept) = std::mem::take(&mut *q).into_iter().partition(|t| t.id as f64 == id);
                *q = kept;
                gone
            };
            drop(gone);
            JsValue::UNDEFINED
        }
        _ => return None,
    })
}
/// Let `ms` milliseconds of virtual time pass: everything due by then runs, in the order it falls
/// due (in the order it was queued if due at the same time). Returns how many callbacks ran.
pub fn advance(ms: f64) -> usize {
    let p = page();
    let end = p.clock.get() + ms;
    let mut n = 0;
    loop {
        let t = {
            let mut q = p.timers.borrow_mut();
            let Some(ix) = (0..q.len()).filter(|i| q[*i].due <= end).min_by(|a, b| q[*a].due.total_cmp(&q[*b].due).then(a.cmp(b))) else {
                break;
            };
            q.remove(ix).unwrap()
        };
        n += 1;
        if n > 2_000_000 {
            panic!("HARNESS: callbacks queue each other without end");
        }
        p.clock.set(p.clock.get().max(t.due));
        stats(|s| s.timers_run += 1);
        if let Some(period) = t.period {
            p.timers.borrow_mut().push_back(Timer { due: t.due + period, callback: t.callback.clone(), args: t.args.clone(), ..t });
        }
        call_reporting(&t.callback, &t.args);
    }
    p.clock.set(end);
    n
}
pub fn pending_timers() -> usize {
    page().timers.borrow().len()
}
/// Run the next queued callback of the page. Order: shortest delay, then FIFO.
pub fn run_one_timer() -> bool {
    let p = page();
    let t = {
        let mut q = p.timers.borrow_mut();
        let Some(ix) = (0..q.len()).min_by(|a, b| q[*a].delay.total_cmp(&q[*b].delay).then(a.cmp(b))) else {
            return false;
        };
        q.remove(ix).unwrap()
    };
    stats(|s| s.timers_run += 1);
    call_reporting(&t.callback, &t.args);
    true
}
/// Run queued callbacks until none is left (or `max` ran). Returns how many ran.
pub fn run_timers(max: usize) -> usize {
    let mut n = 0;
    while n < max && run_one_timer() {
        n += 1;
    }
    n
}
/// Forget everything about this thread's page except the thread-locals that point to
/// its window and document (those are emptied).
pub fn reset_page() {
    let p = page();
    let t = std::mem::take(&mut *p.timers.borrow_mut());
    drop(t);
    let f = std::mem::take(&mut *p.forever.borrow_mut());
    drop(f);
    p.uncaught.borrow_mut().clear();
    p.console.borrow_mut().clear();
    *p.layout.borrow_mut() = None;
    p.observers.borrow_mut().clear();
    for o in [&p.window, &p.document] {
        o.listeners.borrow_mut().clear();
    }
    let body = body();
    let kids: Vec<_> = body.node().unwrap().children.borrow().clone();
    for k in kids {
        unlink(&k);
    }
    body.listeners.borrow_mut().clear();
}

// ---------------------------------------------------------------- conversions
pub trait ToJs {
    fn to_js(self) -> JsValue;
}
pub trait FromJs: Sized {
    fn from_js(v: JsValue) -> Self;
}
impl ToJs for JsValue {
    fn to_js(self) -> JsValue {
        self
    }
}
impl<'a> ToJs for &'a JsValue {
    fn to_js(self) -> JsValue {
        self.clone()
    }
}
impl FromJs for JsValue {
    fn from_js(v: JsValue) -> Self {
        v
    }
}
impl ToJs for () {
    fn to_js(self) -> JsValue {
        JsValue::UNDEFINED
    }
}
impl FromJs for () {
    fn from_js(_: JsValue) {}
}
impl<'a> ToJs for &'a str {
    fn to_js(self) -> JsValue {
        JsValue::from_str(self)
    }
}
impl ToJs for String {
    fn to_js(self) -> JsValue {
        JsValue::from_str(&self)
    }
}
impl<'a> ToJs for &'a String {
    fn to_js(self) -> JsValue {
        JsValue::from_str(self)
    }
}
impl FromJs for String {
    fn from_js(v: JsValue) -> Self {
        to_string(&v)
    }
}
impl ToJs for bool {
    fn to_js(self) -> JsValue {
        self.into()
    }
}
impl FromJs for bool {
    fn from_js(v: JsValue) -> Self {
        v.is_truthy()
    }
}
impl<T: ToJs> ToJs for Option<T> {
    fn to_js(self) -> JsValue {
        self.map(T::to_js).unwrap_or(JsValue::UNDEFINED)
    }
}
impl<T: FromJs> FromJs for Option<T> {
    fn from_js(v: JsValue) -> Self {
        (!v.is_null_or_undefined()).then(|| T::from_js(v))
    }
}
macro_rules! nums {
    ($($t:ty)*) => {$(
        impl ToJs for $t { fn to_js(self) -> JsValue { self.into() } }
        impl FromJs for $t { fn from_js(v: JsValue) -> Self { v.as_f64().unwrap_or(0.0) as $t } }
    )*};
}
nums!(i8 u8 i16 u16 i32 u32 f32 f64 i64 u64 usize isize);
impl<'a, T> ToJs for &'a [T]
where
    T: Clone + Into<JsValue>,
{
    fn to_js(self) -> JsValue {
        array(self.iter().cloned().map(Into::into).collect())
    }
}
impl<'a, T> ToJs for &'a mut [T]
where
    T: Clone + Into<JsValue>,
{
    fn to_js(self) -> JsValue {
        array(self.iter().cloned().map(Into::into).collect())
    }
}
impl<T: Into<JsValue>> ToJs for Vec<T> {
    fn to_js(self) -> JsValue {
        array(self.into_iter().map(Into::into).collect())
    }
}
impl<T: FromJs> FromJs for Vec<T> {
    fn from_js(v: JsValue) -> Self {
        spread(&v).into_iter().map(T::from_js).collect()
    }
}
impl<T: ToJs, E: Into<JsValue>> ToJs for Result<T, E> {
    fn to_js(self) -> JsValue {
        match self {
            Ok(v) => v.to_js(),
            Err(e) => uncaught(e.into()),
        }
    }
}
pub fn to_string(v: &JsValue) -> String {
    match &v.v {
        V::Undefined => String::new(),
        V::Null => String::new(),
        V::Bool(b) => b.to_string(),
        V::Num(n) => n.to_string(),
        V::Str(s) => s.to_string(),
        V::Obj(o) => format!("[object {}]", o.class),
    }
}
pub fn array(v: Vec<JsValue>) -> JsValue {
    JsValue::from_obj(Obj::new("Array", Data::Array(RefCell::new(v))))
}
pub fn spread(v: &JsValue) -> Vec<JsValue> {
    match v.obj().map(|o| &o.data) {
        Some(Data::Array(a)) => a.borrow().clone(),
        _ => vec![],
    }
}
pub fn opt_str(v: &JsValue) -> Option<String> {
    (!v.is_null_or_undefined()).then(|| to_string(v))
}
pub fn arg(a: &[JsValue], i: usize) -> JsValue {
    a.get(i).cloned().unwrap_or_default()
}
pub fn opt_obj(o: Option<Rc<Obj>>) -> JsValue {
    o.map(JsValue::from_obj).unwrap_or(JsValue::NULL)
}
pub fn instance_of(v: &JsValue, class: &str) -> bool {
    match v.obj() {
        None => false,
        Some(o) => instance_of_class(o.class, class),
    }
}

// ---------------------------------------------------------------- inline js (css!)
pub struct InlineStatic<T> {
    pub source: &'static str,
    _p: std::marker::PhantomData<fn() -> T>,
}
impl<T> InlineStatic<T> {
    pub const fn new(source: &'static str) -> Self {
        Self { source, _p: std::marker::PhantomData }
    }
}
thread_local! { static INLINE_VAL: &'static JsValue = Box::leak(Box::new(JsValue::UNDEFINED)); }
impl std::ops::Deref for InlineStatic<JsValue> {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        page().inline_modules.borrow_mut().push(self.source);
        INLINE_VAL.with(|v| *v)
    }
}

// ---------------------------------------------------------------- dispatch
pub fn dispatch(kind: Kind, name: &str, this: &JsValue, args: Args) -> Result<JsValue, JsValue> {
    stats(|s| s.dom_ops += 1);
    let Some(o) = this.obj() else {
        return Err(make_error("TypeError", &format!("{name}: not an object ({this:?})")));
    };
    let o = o.clone();
    if let Some(r) = events::event_target_op(kind, name, &o, &args) {
        return r;
    }
    let r = match &o.data {
        Data::Node(_) => dom::node_op(kind, name, &o, &args),
        Data::Event(_) => events::event_op(kind, name, &o, &args),
        Data::TokenList(w) => html::token_list_op(kind, name, &w.upgrade(), &args),
        Data::Style(w) => html::style_op(kind, name, &o, &w.upgrade(), &args),
        Data::Observer(_) => html::observer_op(kind, name, &o, &args),
        Data::Function(_) if kind == Kind::Call && name == "call" => {
            Some(call_function(this, &args[1.min(args.len())..]))
        }
        Data::Array(a) => array_op(kind, name, a, &args),
        Data::Plain if o.class == "DataTransfer" && kind == Kind::Call && name == "setData" => Some(Ok(JsValue::UNDEFINED)),
        Data::Plain if o.class == "Window" => html::window_op(kind, name, &args),
        _ => None,
    };
    if let Some(r) = r {
        return r;
    }
    match kind {
        Kind::Get => Ok(o.prop(name)),
        Kind::Set => {
            o.set_prop(name, arg(&args, 0));
            Ok(JsValue::UNDEFINED)
        }
        _ => unsupported(&format!("{}.{name}", o.class)),
    }
}
fn array_op(kind: Kind, name: &str, a: &RefCell<Vec<JsValue>>, args: &[JsValue]) -> Option<Result<JsValue, JsValue>> {
    let r = match (kind, name) {
        (Kind::Get, "length") => JsValue::from(a.borrow().len() as f64),
        (Kind::Call, "item") | (Kind::Index, "indexing_getter") => {
            let i = arg(args, 0).as_f64().unwrap_or(0.0) as usize;
            a.borrow().get(i).cloned().unwrap_or(JsValue::NULL)
        }
        _ => return None,
    };
    Some(Ok(r))
}
pub fn construct(class: &str, args: Args) -> Result<JsValue, JsValue> {
    stats(|s| s.dom_ops += 1);
    match class {
        "Comment" => Ok(JsValue::from_obj(new_char_data(NodeKind::Comment, &opt_str(&arg(&args, 0)).unwrap_or_default()))),
        "Text" => Ok(JsValue::from_obj(new_char_data(NodeKind::Text, &opt_str(&arg(&args, 0)).unwrap_or_default()))),
        "DocumentFragment" => Ok(JsValue::from_obj(new_fragment())),
        "EventTarget" => Ok(JsValue::from_obj(Obj::new("EventTarget", Data::Plain))),
        "IntersectionObserver" => html::new_observer(&args),
        c if c == "Event" || c.ends_with("Event") => events::construct_event(c, &args),
        "Image" => Ok(JsValue::from_obj(new_element_raw("img"))),
        _ => unsupported(&format!("new {class}()")),
    }
}
pub fn static_call(ns: &str, name: &str, args: Args) -> Result<JsValue, JsValue> {
    match ns {
        "console" => {
            let line = format!("{name}: {}", args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "));
            if name == "error" {
                stats(|s| s.console_errors += 1);
            }
            page().console.borrow_mut().push(line);
            Ok(JsValue::UNDEFINED)
        }
        "" => timer_op(name, &args).map_or_else(|| unsupported(&format!("{name}()")), Ok),
        _ => unsupported(&format!("{ns}.{name}()")),
    }
}
#[allow(dead_code)]
fn _unused<T: JsCast>() {}
