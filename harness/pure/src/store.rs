//! R01-R05: random histories of paths, accesses, subscriptions and loops over one store.
use crate::driver::{cov, CaseResult, Cx, Rng};
use crate::universe::*;
use futures_core::Stream;
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use x_bow::{IntoPath, PathExt, Store};

pub struct Flag {
    pub wakes: AtomicUsize,
    pub dead: AtomicBool,
    pub dead_wakes: AtomicUsize,
}
impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag { wakes: AtomicUsize::new(0), dead: AtomicBool::new(false), dead_wakes: AtomicUsize::new(0) })
    }
    pub fn take(&self) -> usize {
        self.wakes.swap(0, SeqCst)
    }
    pub fn woken(&self) -> bool {
        self.wakes.load(SeqCst) > 0
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.wakes.fetch_add(1, SeqCst);
        if self.dead.load(SeqCst) {
            self.dead_wakes.fetch_add(1, SeqCst);
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Cat {
    Missed,
    Extra,
    Data,
    Trace,
}
struct Sub {
    id: usize,
    segs: Vec<Seg>,
    bubbling: bool,
    stream: Option<Str<()>>,
    polled: bool,
    pending: bool,
    flag: Arc<Flag>,
    /// dropped as far as the history is concerned (kept only in a comparison run)
    gone: bool,
}
impl Sub {
    fn relevant(&self, q: &[Seg]) -> bool {
        if self.bubbling {
            q.starts_with(&self.segs)
        } else {
            self.segs.starts_with(q)
        }
    }
}
struct World {
    st: St,
    model: V,
    subs: Vec<Sub>,
    next: usize,
    really_drop: bool,
    old: Vec<Arc<Flag>>,
    fires: u64,
    silent: u64,
    changes: u64,
    sig: std::collections::hash_map::DefaultHasher,
}
type R = Result<(), (Cat, String)>;
fn show(s: &[Seg]) -> String {
    if s.is_empty() {
        return "root".into();
    }
    s.iter()
        .map(|s| match s {
            Seg::F(n) => format!(".{n}"),
            Seg::Var(v, n) => format!(".{v}_{n}"),
            Seg::Idx(i) => format!("[{i}]"),
            Seg::Key(k) => format!("[{k:?}]"),
            Seg::Content => ".*".into(),
        })
        .collect()
}
macro_rules! must {
    ($cat:ident, $c:expr, $($a:tt)*) => { if !$c { return Err((Cat::$cat, format!($($a)*))); } };
}
impl World {
    fn new(r: &mut Rng, d: usize) -> World {
        let root = Root::make(r, d);
        let st = keep(Store::new(root));
        let model = root_now(st);
        World {
            st,
            model,
            subs: vec![],
            next: 0,
            really_drop: true,
            old: vec![],
            fires: 0,
            silent: 0,
            changes: 0,
            sig: Default::default(),
        }
    }
    fn note(&mut self, x: impl std::hash::Hash) {
        x.hash(&mut self.sig)
    }
    fn some_place(&self, r: &mut Rng) -> Box<dyn Place> {
        let near: Vec<&Sub> = self.subs.iter().filter(|s| !s.gone).collect();
        if !near.is_empty() && r.chance(3, 5) {
            let segs = r.pick(&near).segs.clone();
            return near_place(self.st, r, &self.model, &segs);
        }
        if r.chance(1, 3) {
            static_place(self.st, r)
        } else {
            random_place(self.st, r, &self.model)
        }
    }
    fn add_sub(&mut self, r: &mut Rng) {
        let p = self.some_place(r);
        let bubbling = r.chance(2, 5);
        let stream = if bubbling { p.until_bubbling() } else { p.until_change() };
        let id = self.next;
        self.next += 1;
        tr!("sub {id}: {} of {}", if bubbling { "bubbling changes" } else { "changes" }, show(p.segs()));
        self.note((0, bubbling, p.segs()));
        self.subs.push(Sub { id, segs: p.segs().to_vec(), bubbling, stream: Some(stream), polled: false, pending: false, flag: Flag::new(), gone: false });
    }
    fn poll_sub(&mut self, r: &mut Rng, i: usize) -> R {
        let renew = r.chance(1, 5);
        let s = &mut self.subs[i];
        if s.gone {
            return Ok(());
        }
        if renew {
            let old = std::mem::replace(&mut s.flag, Flag::new());
            // the old one may stay where it was until this poll
            self.old.push(old);
        }
        s.flag.take();
        let w = Waker::from(s.flag.clone());
        let got = s.stream.as_mut().unwrap().as_mut().poll_next(&mut Context::from_waker(&w));
        let want = s.polled && s.pending;
        tr!("poll sub {}: {got:?}", s.id);
        let (id, path, first) = (s.id, show(&s.segs), !s.polled);
        s.polled = true;
        s.pending = false;
        match got {
            Poll::Ready(Some(())) => self.fires += 1,
            Poll::Pending => self.silent += 1,
            Poll::Ready(None) => {}
        }
        self.note((1, id, want));
        must!(Missed, got != Poll::Ready(None), "subscription {id} at {path} ended");
        must!(Missed, !(want && got.is_pending()), "subscription {id} at {path} did not fire although there was a relevant change since its last poll");
        must!(Extra, want || got.is_pending(), "subscription {id} at {path} fired {}", if first { "on its first poll" } else { "without a relevant change since its last poll" });
        Ok(())
    }
    fn drop_sub(&mut self, i: usize) -> R {
        let s = &mut self.subs[i];
        if s.gone {
            return Ok(());
        }
        tr!("drop sub {}", s.id);
        let id = s.id;
        self.sig_note_drop(id);
        if !self.really_drop {
            self.subs[i].gone = true;
            return Ok(());
        }
        let mut s = self.subs.swap_remove(i);
        s.stream = None;
        s.flag.dead.store(true, SeqCst);
        let left = Arc::strong_count(&s.flag);
        self.old.push(s.flag.clone());
        must!(Trace, left == 1, "the waker given to subscription {id} is still held {} times after the subscription was dropped", left - 1);
        Ok(())
    }
    fn sig_note_drop(&mut self, id: usize) {
        self.note((2, id))
    }
    fn dead_wakes(&self) -> R {
        let n: usize = self.old.iter().map(|f| f.dead_wakes.load(SeqCst)).sum();
        must!(Trace, n == 0, "the waker of a dropped subscription was used");
        Ok(())
    }
    /// what every subscription must have noticed when `act` changed `q` (None: nothing)
    fn observe<T>(&mut self, q: Option<&[Seg]>, what: &str, act: impl FnOnce(&mut World) -> T) -> Result<T, (Cat, String)> {
        let before: Vec<usize> = self.subs.iter().map(|s| s.flag.wakes.load(SeqCst)).collect();
        let res = act(self);
        if q.is_some() {
            self.changes += 1;
        }
        for (i, s) in self.subs.iter_mut().enumerate() {
            if s.gone || i >= before.len() {
                continue;
            }
            let woken = s.flag.wakes.load(SeqCst) > before[i];
            let relevant = q.is_some_and(|q| s.relevant(q));
            if relevant {
                let owed = s.polled && !s.pending;
                if s.polled {
                    s.pending = true;
                }
                must!(Missed, woken || !owed, "subscription {} at {} was not woken by {what}", s.id, show(&s.segs));
            } else {
                must!(Extra, !woken, "subscription {} ({}) at {} was woken by {what}", s.id, if s.bubbling { "bubbling" } else { "regular" }, show(&s.segs));
            }
        }
        Ok(res)
    }
    fn compare(&self, after: &str) -> R {
        let now = root_now(self.st);
        if now != self.model {
            return Err((Cat::Data, format!("after {after} the stored data differs at {}", diff(&now, &self.model, String::new()))));
        }
        Ok(())
    }
    /// replaces the model below `segs` and fixes nothing else
    fn write_model(&mut self, segs: &[Seg], v: V) {
        self.model.set(segs, v)
    }
    fn access(&mut self, r: &mut Rng) -> R {
        let p = self.some_place(r);
        let segs = p.segs().to_vec();
        let here = self.model.at(&segs, false).cloned();
        let can = self.model.at(&segs, true).is_some();
        let at = show(&segs);
        let kind = r.below(12);
        self.note((3, kind.min(8), &segs));
        cov(|c| c.hit(if here.is_none() { "absent" } else if p.guaranteed() { "guaranteed" } else { "present" }));
        match kind {
            _ if r.chance(1, 60) => {
                // many changes in a row
                let n = if r.chance(1, 25) { 65_536 } else { *r.pick(&[2, 31, 32, 64, 127, 128, 255, 256, 257, 512]) };
                let what = format!("{n} notifications at {at}");
                tr!("{what}");
                self.observe(Some(&segs), &what, |_| (0..n).for_each(|_| p.notify()))?;
                cov(|c| c.hit("bursts"));
                self.compare(&what)
            }
            0..=4 => {
                let w = *r.pick(&WRITES);
                let what = format!("mutable access ({w:?}) at {at}");
                tr!("{what}{}", if can { "" } else { " (absent)" });
                let q = can.then_some(&segs[..]);
                let got = self.observe(q, &what, |_| p.write(r, w))?;
                must!(Data, got.is_some() == can, "{what}: access was {}, but the data {}", pr(got.is_some()), ex(can));
                if let Some(v) = got {
                    self.write_model(&segs, v);
                }
                self.compare(&what)
            }
            5 => {
                let w = *r.pick(&WRITES);
                let what = format!("silent mutable access ({w:?}) at {at}");
                tr!("{what}");
                let got = self.observe(None, &what, |_| p.write_silent(r, w))?;
                must!(Data, got.is_some() == can, "{what}: access was {}, but the data {}", pr(got.is_some()), ex(can));
                if let Some(v) = got {
                    self.write_model(&segs, v);
                }
                self.compare(&what)
            }
            6 => {
                let what = format!("notification at {at}");
                tr!("{what}");
                self.observe(Some(&segs), &what, |_| p.notify())?;
                self.compare(&what)
            }
            7 | 8 => {
                let what = format!("set at {at}");
                tr!("{what}{}", if can { "" } else { " (absent)" });
                let q = can.then_some(&segs[..]);
                let (v, res) = self.observe(q, &what, |_| p.set(r))?;
                must!(Data, res.is_ok() == can, "{what}: was {}, but the data {}", if res.is_ok() { "accepted" } else { "refused" }, ex(can));
                match res {
                    Ok(()) => self.write_model(&segs, v),
                    Err(b) => must!(Data, b.plain() == v.plain(), "{what}: was refused and gave back {} in place of {}", b.short(), v.short()),
                }
                self.compare(&what)
            }
            9 => {
                // other subscriptions live on while a borrow is held
                let mutably = r.chance(1, 2);
                let what = format!("{} borrow at {at} kept for a while", if mutably { "mutable" } else { "shared" });
                tr!("{what}");
                let exists = if mutably { can } else { here.is_some() };
                let guard: Option<Box<dyn Any>> = self.observe(None, &format!("the start of a {what}"), |_| p.hold(mutably))?;
                must!(Data, guard.is_some() == exists, "{what}: access was {}, but the data {}", pr(guard.is_some()), ex(exists));
                for _ in 0..r.below(4) {
                    self.sub_op(r)?;
                }
                let q = (mutably && exists).then_some(&segs[..]);
                self.observe(q, &format!("the end of a {what}"), |_| drop(guard))?;
                self.compare(&what)
            }
            _ => {
                let clone = r.chance(1, 3);
                let what = format!("{} of {at}", if clone { "clone" } else { "borrow" });
                tr!("{what}");
                let got = self.observe(None, &what, |_| if clone { p.get_clone() } else { p.get() })?;
                must!(Data, got.is_some() == here.is_some(), "{what}: access was {}, but the data {}", pr(got.is_some()), ex(here.is_some()));
                if let (Some(g), Some(h)) = (got, here) {
                    let same = if clone { g.plain() == h.plain() } else { g == h };
                    must!(Data, same, "{what} gave {} in place of {}", g.short(), h.short());
                }
                self.compare(&what)
            }
        }
    }
    fn sub_op(&mut self, r: &mut Rng) -> R {
        let n = self.subs.len();
        // creating, polling and dropping one must not show at the others
        match r.below(if n == 0 { 1 } else { 8 }) {
            0 | 1 => self.observe(None, "a new subscription", |w| w.add_sub(r))?,
            2 => {
                let i = r.below(n);
                self.observe(None, "a dropped subscription", |_| ())?;
                self.drop_sub(i)?;
            }
            _ => {
                let i = r.below(n);
                self.poll_sub(r, i)?;
            }
        }
        self.dead_wakes()
    }
    fn finish(&mut self, r: &mut Rng) -> R {
        for i in 0..self.subs.len() {
            self.poll_sub(r, i)?;
        }
        while let Some(i) = (!self.subs.is_empty()).then(|| r.below(self.subs.len())) {
            self.drop_sub(i)?;
            if !self.really_drop {
                break;
            }
            self.access(r)?;
            self.dead_wakes()?;
        }
        self.dead_wakes()
    }
}
fn pr(b: bool) -> &'static str {
    if b {
        "granted"
    } else {
        "refused"
    }
}
fn ex(b: bool) -> &'static str {
    if b {
        "is there"
    } else {
        "is not there"
    }
}
pub fn root_now(st: St) -> V {
    let b = st.build_path();
    let r = x_bow::PathExtGuaranteed::borrow(&*b).v();
    r
}
fn diff(a: &V, b: &V, at: String) -> String {
    match (a, b) {
        (V::Rec(t, x), V::Rec(u, y)) if t == u && x.len() == y.len() => {
            for ((n, p), (_, q)) in x.iter().zip(y) {
                if p != q {
                    return diff(p, q, format!("{at}.{n}"));
                }
            }
            at
        }
        (V::Seq(x), V::Seq(y)) if x.len() == y.len() => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if p != q {
                    return diff(p, q, format!("{at}[{i}]"));
                }
            }
            at
        }
        (V::Cell { inner: p, .. }, V::Cell { inner: q, .. }) if p != q => diff(p, q, format!("{at}.*")),
        _ => format!("{at}: it is {} in place of {}", a.short(), b.short()),
    }
}
/// the same place by another route, or one above, below or beside it
fn near_place(st: St, r: &mut Rng, model: &V, segs: &[Seg]) -> Box<dyn Place> {
    let k = r.below(6);
    match k {
        0 | 1 => rebuild(st, r, segs),
        2 => {
            let n = r.below(segs.len() + 1);
            rebuild(st, r, &segs[..n])
        }
        3 if !segs.is_empty() => {
            // beside
            let p = rebuild(st, r, &segs[..segs.len() - 1]);
            let c = p.next_segs(r, model.at(p.segs(), false));
            let s = r.pick(&c).clone();
            p.step(&s, how(r)).unwrap_or(p)
        }
        _ => {
            let mut p = rebuild(st, r, segs);
            for _ in 0..r.range(1, 2) {
                let c = p.next_segs(r, model.at(p.segs(), false));
                if c.is_empty() {
                    break;
                }
                let s = r.pick(&c).clone();
                match p.step(&s, how(r)) {
                    Some(n) => p = n,
                    None => break,
                }
            }
            p
        }
    }
}
fn run(r: &mut Rng, steps: usize, subs_share: usize, really_drop: bool) -> (World, R) {
    let d = r.range(1, 2);
    let mut w = World::new(r, d);
    w.really_drop = really_drop;
    let res = (|| {
        for _ in 0..r.below(5) {
            w.add_sub(r);
        }
        for _ in 0..steps {
            if r.below(10) < subs_share {
                w.sub_op(r)?
            } else {
                w.access(r)?
            }
        }
        w.finish(r)
    })();
    (w, res)
}
fn case(cx: &mut Cx, cats: &[Cat], subs_share: usize) -> CaseResult {
    let steps = cx.scaled(5, 50);
    let mut r = cx.rng.fork();
    let (w, res) = run(&mut r, steps, subs_share, true);
    report(&w);
    drop(w);
    free_all();
    match res {
        Err((c, m)) if cats.contains(&c) => Err(m),
        Err(_) => {
            cov(|c| c.hit("stopped at a finding of another property"));
            Ok(())
        }
        Ok(()) => Ok(()),
    }
}
fn report(w: &World) {
    use std::hash::Hasher;
    let h = w.sig.finish();
    cov(|c| {
        c.add("changes", w.changes);
        c.add("fires", w.fires);
        c.add("silent polls", w.silent);
        c.add("subscriptions", w.next as u64);
        if w.fires > 0 {
            c.sig(h)
        }
    });
}
pub fn r01(cx: &mut Cx) -> CaseResult {
    case(cx, &[Cat::Missed], 6)
}
pub fn r02(cx: &mut Cx) -> CaseResult {
    case(cx, &[Cat::Extra], 6)
}
pub fn r03(cx: &mut Cx) -> CaseResult {
    case(cx, &[Cat::Data], 2)
}

// ---------------------------------------------------------------- R05
pub fn r05(cx: &mut Cx) -> CaseResult {
    if cx.rng.chance(1, 12) {
        return memory(cx);
    }
    let steps = cx.scaled(5, 60);
    let r = cx.rng.fork();
    let (w, res) = run(&mut r.clone(), steps, 7, true);
    report(&w);
    drop(w);
    free_all();
    match res {
        Err((Cat::Trace, m)) => Err(m),
        Err((Cat::Missed | Cat::Extra, m)) => {
            // does it happen without the drops too?  Then dropping isn't to blame.
            let (w, again) = run(&mut r.clone(), steps, 7, false);
            drop(w);
            free_all();
            if again.is_ok() {
                Err(format!("{m} (it does when no subscription is dropped)"))
            } else {
                cov(|c| c.hit("stopped at a finding of another property"));
                Ok(())
            }
        }
        _ => Ok(()),
    }
}
fn memory(cx: &mut Cx) -> CaseResult {
    let r = &mut cx.rng;
    let n = *r.pick(&[1, 1, 2, 3, 5, 8, 13, 30]);
    let st: St = keep(Store::new(Root::make(r, 1)));
    let mut key = 0u32;
    let mut round = |r: &mut Rng| {
        let paths: Vec<_> = (0..n)
            .map(|_| {
                key += 1;
                st.build_path().by_num().key(if r.chance(1, 8) { 7 } else { key }).index(3).into_path()
            })
            .collect();
        let mut subs: Vec<_> = paths.iter().map(|p| Some(Box::pin(if r.chance(1, 3) { p.until_bubbling_change() } else { p.until_change() }))).collect();
        let ws: Vec<Waker> = (0..n).map(|_| Waker::from(Flag::new())).collect();
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        for i in order {
            if r.chance(2, 3) {
                let _ = subs[i].as_mut().unwrap().as_mut().poll_next(&mut Context::from_waker(&ws[i]));
            }
            if r.chance(1, 3) {
                paths[i].notify_changed();
            }
            if r.chance(1, 3) {
                let j = r.below(n);
                subs[j] = None;
                // as many are alive as before
                subs[j] = Some(Box::pin(paths[j].until_change()));
            }
        }
        r.shuffle(&mut subs);
        subs.truncate(r.below(n + 1));
    };
    // the largest number alive at once is settled here
    for _ in 0..40 {
        round(r);
    }
    let base = crate::live_bytes();
    let more = if cx.thorough { 1500 } else { 300 };
    let mut top = base;
    for _ in 0..more {
        round(r);
        top = top.max(crate::live_bytes());
    }
    let grown = top - base;
    cov(|c| {
        c.hit("memory runs");
        c.add("subscriptions", (n * (more + 40)) as u64);
        c.max("bytes grown", grown.max(0) as u64);
        c.sig(("mem", n, cx.seed));
    });
    tr!("{n} at once: {grown} bytes more after {} subscriptions", n * more);
    free_all();
    // tables may still double once
    let allowed = 2048 + 800 * n as i64;
    check!(
        grown <= allowed,
        "a store with at most {n} subscriptions alive at once uses {grown} bytes more after {} were created and dropped",
        n * more
    );
    Ok(())
}

// ---------------------------------------------------------------- R04
enum Kind {
    Each { fut: Fut, log: Log },
    Async { fut: Fut, ctl: Rc<Ctl>, started: usize },
    Signal { str: Str<V>, now: bool },
    Bind { b: Bind, log: Log, queue: Vec<V>, end: bool },
}
struct Loop {
    id: usize,
    segs: Vec<Seg>,
    kind: Kind,
    polled: bool,
    pending: bool,
    flag: Arc<Flag>,
}
struct LoopWorld {
    st: St,
    model: V,
    loops: Vec<Loop>,
    next: usize,
    calls: u64,
    sig: std::collections::hash_map::DefaultHasher,
}
impl LoopWorld {
    fn some_place(&self, r: &mut Rng) -> Box<dyn Place> {
        if !self.loops.is_empty() && r.chance(7, 10) {
            let segs = r.pick(&self.loops).segs.clone();
            return near_place(self.st, r, &self.model, &segs);
        }
        if r.chance(1, 3) {
            static_place(self.st, r)
        } else {
            random_place(self.st, r, &self.model)
        }
    }
    fn add(&mut self, r: &mut Rng) {
        let p = self.some_place(r);
        let id = self.next;
        self.next += 1;
        let log: Log = Default::default();
        let k = r.below(5);
        let kind = match k {
            0 => Kind::Each { fut: p.for_each(log.clone()), log },
            1 => {
                let ctl: Rc<Ctl> = Default::default();
                Kind::Async { fut: p.for_each_async(ctl.clone()), ctl, started: 0 }
            }
            2 => {
                let now = r.chance(1, 2);
                Kind::Signal { str: p.signal(now), now }
            }
            _ => match p.bind(log.clone()) {
                Some(b) => Kind::Bind { b, log, queue: vec![], end: false },
                None => Kind::Each { fut: p.for_each(log.clone()), log },
            },
        };
        tr!("loop {id}: {} over {}", name_of(&kind), show(p.segs()));
        self.note((k, p.segs()));
        self.loops.push(Loop { id, segs: p.segs().to_vec(), kind, polled: false, pending: false, flag: Flag::new() });
    }
    fn note(&mut self, x: impl std::hash::Hash) {
        x.hash(&mut self.sig)
    }
    fn changed(&mut self, q: &[Seg], what: &str, before: &[usize], except: Option<usize>) -> CaseResult {
        for (i, l) in self.loops.iter_mut().enumerate() {
            if Some(i) == except || !l.segs.starts_with(q) || !l.polled {
                continue;
            }
            let owed = !l.pending;
            l.pending = true;
            let woken = l.flag.wakes.load(SeqCst) > before[i];
            check!(woken || !owed, "{} {} over {} was not woken by {what}", name_of(&l.kind), l.id, show(&l.segs));
        }
        Ok(())
    }
    fn counts(&self) -> Vec<usize> {
        self.loops.iter().map(|l| l.flag.wakes.load(SeqCst)).collect()
    }
    fn change(&mut self, r: &mut Rng) -> CaseResult {
        let p = self.some_place(r);
        let segs = p.segs().to_vec();
        let before = self.counts();
        let (w, k) = (*r.pick(&WRITES), r.below(6));
        self.note((7, k, &segs));
        let what = format!("a change at {}", show(&segs));
        match k {
            _ if r.chance(1, 60) => {
                let n = *r.pick(&[32, 64, 128, 255, 256, 257, 512]);
                tr!("{n} notifications at {}", show(&segs));
                (0..n).for_each(|_| p.notify());
                self.changed(&segs, &what, &before, None)?;
            }
            0 => {
                let (v, res) = p.set(r);
                tr!("set at {} {}", show(&segs), if res.is_ok() { "" } else { "(absent)" });
                if res.is_ok() {
                    self.model.set(&segs, v);
                    self.changed(&segs, &what, &before, None)?;
                }
            }
            1 => {
                if let Some(v) = p.write_silent(r, w) {
                    tr!("silent write and notification at {}", show(&segs));
                    self.model.set(&segs, v);
                    p.notify();
                    self.changed(&segs, &what, &before, None)?;
                }
            }
            _ => {
                let res = p.write(r, w);
                tr!("mutable access ({w:?}) at {} {}", show(&segs), if res.is_some() { "" } else { "(absent)" });
                if let Some(v) = res {
                    self.model.set(&segs, v);
                    self.changed(&segs, &what, &before, None)?;
                }
            }
        }
        Ok(())
    }
    /// one poll of one loop; false: it has ended
    fn poll(&mut self, r: &mut Rng, i: usize) -> Result<bool, String> {
        let data = self.model.at(&self.loops[i].segs, false).cloned();
        let can = self.model.at(&self.loops[i].segs, true).is_some();
        let before = self.counts();
        let l = &mut self.loops[i];
        if r.chance(1, 5) {
            l.flag = Flag::new();
        }
        l.flag.take();
        let w = Waker::from(l.flag.clone());
        let mut cx = Context::from_waker(&w);
        let (first, due) = (!l.polled, !l.polled || l.pending);
        let me = format!("{} {} over {}", name_of(&l.kind), l.id, show(&l.segs));
        l.polled = true;
        l.pending = false;
        let segs = l.segs.clone();
        let mut inner_change: Option<(Vec<Seg>, V)> = None;
        let mut wrote: Option<V> = None;
        let mut alive = true;
        match &mut l.kind {
            Kind::Each { fut, log } => {
                let res = fut.as_mut().poll(&mut cx);
                let got: Vec<V> = log.borrow_mut().drain(..).collect();
                tr!("poll {me}: {} calls", got.len());
                check!(res.is_pending(), "{me} finished");
                calls(&me, &got, due, first, &data)?;
                self.calls += got.len() as u64;
            }
            Kind::Async { fut, ctl, started } => {
                let cell: Rc<RefCell<Option<(Vec<Seg>, V)>>> = Default::default();
                if r.chance(1, 4) {
                    // code inside the callback's future changes the data
                    let p = near_place(self.st, r, &self.model, &segs);
                    let mut r2 = r.fork();
                    let (cell, segs) = (cell.clone(), p.segs().to_vec());
                    *ctl.hook.borrow_mut() = Some(Box::new(move || {
                        if let Some(v) = p.write(&mut r2, Write::Assign) {
                            *cell.borrow_mut() = Some((segs, v));
                        }
                    }));
                }
                let before_poll = ctl.futs.borrow().last().map(|f| (f.open, f.done, f.polls));
                let res = fut.as_mut().poll(&mut cx);
                ctl.hook.borrow_mut().take();
                check!(res.is_pending(), "{me} finished");
                let fs = ctl.futs.borrow();
                let got: Vec<V> = fs[*started..].iter().map(|f| f.value.clone()).collect();
                tr!("poll {me}: {} futures started", got.len());
                calls(&me, &got, due, first, &data)?;
                self.calls += got.len() as u64;
                *started = fs.len();
                for (k, f) in fs.iter().enumerate() {
                    check!(!f.polled_after_end, "{me}: callback future {k} was polled after it had finished");
                    check!(!f.done || f.dropped, "{me}: callback future {k} finished and was kept");
                    if k + 1 < fs.len() {
                        check!(f.dropped, "{me}: callback future {k} is still there although a newer one was started");
                    } else {
                        check!(f.done || !f.dropped, "{me}: the latest callback future was dropped before it finished");
                    }
                }
                if let Some(f) = fs.last() {
                    if !got.is_empty() {
                        check!(f.polls == 1, "{me}: the new callback future was polled {} times in the poll that started it", f.polls);
                    } else if let Some((open, done, polls)) = before_poll {
                        if !done {
                            check!(f.polls > polls, "{me}: the callback future was not polled");
                            check!(!open || f.done, "{me}: the callback future could finish and did not");
                        } else {
                            check!(f.polls == polls, "{me}: a finished callback future was polled");
                        }
                    }
                }
                inner_change = cell.borrow_mut().take();
            }
            Kind::Signal { str, now } => {
                let want = if first { *now } else { due };
                let got = str.as_mut().poll_next(&mut cx);
                tr!("poll {me}: {}", match &got { Poll::Pending => "pending", Poll::Ready(None) => "ended", Poll::Ready(Some(_)) => "value" });
                match got {
                    Poll::Pending => check!(!want, "{me} did not yield although {}", if first { "it should at once" } else { "there was a relevant change" }),
                    Poll::Ready(v) => {
                        check!(want, "{me} yielded without a relevant change");
                        check!(v == data, "{me} yielded {:?} in place of {:?}", v.map(|v| v.short()), data.map(|v| v.short()));
                        self.calls += 1;
                        // after its end nothing more is promised
                        alive = v.is_some();
                    }
                }
            }
            Kind::Bind { b, log, queue, end } => {
                let res = b.fut.as_mut().poll(&mut cx);
                let got: Vec<V> = log.borrow_mut().drain(..).collect();
                tr!("poll {me}: {} calls{}", got.len(), if res.is_ready() { ", finished" } else { "" });
                let incoming: Vec<V> = queue.drain(..).collect();
                self.calls += got.len() as u64;
                match incoming.last() {
                    None => {
                        if !*end || first {
                            calls(&me, &got, due, first, &data)?;
                        }
                    }
                    Some(v) => {
                        if can {
                            wrote = Some(v.clone());
                        }
                        let mut rest = &got[..];
                        if first {
                            if let Some(d) = &data {
                                check!(rest.first() == Some(d), "{me} did not call back with the data it began with");
                                rest = &rest[1..];
                            }
                        }
                        for g in rest {
                            // a change from outside that came before the incoming value may be reported, the incoming value itself not
                            check!(due && !first && (data.as_ref() == Some(g)), "{me} called back with {} while taking an incoming value", g.short());
                        }
                    }
                }
                if *end {
                    check!(res.is_ready(), "{me} did not finish although the incoming stream ended");
                }
                if res.is_ready() {
                    check!(*end || (!incoming.is_empty() && !can), "{me} finished although the incoming stream did not end");
                    alive = false;
                }
            }
        }
        if let Some(v) = wrote {
            self.model.set(&segs, v);
            let now = root_now(self.st);
            check!(now == self.model, "{me} was given an incoming value and the stored data is wrong at {}", diff(&now, &self.model, String::new()));
            self.changed(&segs, "an incoming value", &before, Some(i))?;
        }
        if let Some((q, v)) = inner_change {
            tr!("  inside it: a change at {}", show(&q));
            self.model.set(&q, v);
            let own = self.loops[i].segs.starts_with(&q);
            self.changed(&q, "a change made by a callback's future", &before, Some(i))?;
            if own {
                self.loops[i].pending = true;
                check!(self.loops[i].flag.woken(), "{me} was not woken by a change its own callback's future made");
            }
        }
        let now = root_now(self.st);
        check!(now == self.model, "polling {me} changed the data at {}", diff(&now, &self.model, String::new()));
        Ok(alive)
    }
    fn remove(&mut self, i: usize) -> CaseResult {
        let l = self.loops.swap_remove(i);
        tr!("drop loop {}", l.id);
        if let Kind::Async { fut, ctl, .. } = l.kind {
            drop(fut);
            check!(ctl.futs.borrow().iter().all(|f| f.dropped), "a callback future outlived its loop");
            ctl.futs.borrow_mut().clear();
        }
        Ok(())
    }
    fn settle(&mut self, r: &mut Rng) -> CaseResult {
        for _ in 0..60 {
            let woken: Vec<usize> = (0..self.loops.len()).filter(|i| self.loops[*i].flag.woken()).collect();
            if woken.is_empty() {
                return Ok(());
            }
            let i = *r.pick(&woken);
            if !self.poll(r, i)? {
                self.remove(i)?;
            }
        }
        Ok(())
    }
}
fn calls(me: &str, got: &[V], due: bool, first: bool, data: &Option<V>) -> CaseResult {
    if !due {
        check!(got.is_empty(), "{me} called back without a relevant change");
        return Ok(());
    }
    match data {
        None => check!(got.is_empty(), "{me} called back with data that is absent"),
        Some(d) => {
            check!(got.len() <= 1, "{me} called back {} times in one poll", got.len());
            check!(got.len() == 1, "{me} did not call back {}", if first { "on its first poll" } else { "after a relevant change" });
            check!(&got[0] == d, "{me} called back with {} in place of {}", got[0].short(), d.short());
        }
    }
    Ok(())
}
fn name_of(k: &Kind) -> &'static str {
    match k {
        Kind::Each { .. } => "for_each",
        Kind::Async { .. } => "for_each_async",
        Kind::Signal { .. } => "signal_stream",
        Kind::Bind { .. } => "bind_for_each",
    }
}
pub fn r04(cx: &mut Cx) -> CaseResult {
    let steps = cx.scaled(5, 60);
    let mut r = cx.rng.fork();
    let r = &mut r;
    let d = r.range(1, 2);
    let st: St = keep(Store::new(Root::make(r, d)));
    let mut w = LoopWorld { st, model: root_now(st), loops: vec![], next: 0, calls: 0, sig: Default::default() };
    let res = (|| -> CaseResult {
        for _ in 0..steps {
            let n = w.loops.len();
            match r.below(if n == 0 { 1 } else { 14 }) {
                0 | 1 => {
                    if n < 6 {
                        w.add(r);
                        if r.chance(2, 3) {
                            let i = w.loops.len() - 1;
                            if !w.poll(r, i)? {
                                w.remove(i)?;
                            }
                        }
                    }
                }
                2..=5 => w.change(r)?,
                6 => {
                    let i = r.below(n);
                    if !w.poll(r, i)? {
                        w.remove(i)?;
                    }
                }
                7 if r.chance(1, 3) => {
                    let i = r.below(n);
                    w.remove(i)?;
                }
                8..=10 => {
                    // incoming values and ends of bindings, ends of callback futures
                    let i = r.below(n);
                    let ending = r.chance(1, 6);
                    let l = &mut w.loops[i];
                    match &mut l.kind {
                        Kind::Bind { b, queue, end, .. } if !*end => {
                            for _ in 0..*r.pick(&[1, 1, 2, 0]) {
                                let v = (b.push)(r);
                                tr!("loop {}: incoming {}", l.id, v.short());
                                queue.push(v);
                            }
                            if ending {
                                tr!("loop {}: incoming ends", l.id);
                                *end = true;
                                (b.end)();
                            }
                        }
                        Kind::Async { ctl, .. } => {
                            let w = {
                                let mut fs = ctl.futs.borrow_mut();
                                let Some(f) = fs.last_mut() else { continue };
                                f.open = true;
                                f.waker.take()
                            };
                            tr!("loop {}: callback future may finish", l.id);
                            if let Some(w) = w {
                                w.wake();
                                check!(l.flag.woken(), "waking the callback future of for_each_async {} did not wake the task", l.id);
                            }
                        }
                        _ => {}
                    }
                }
                _ => w.settle(r)?,
            }
        }
        w.settle(r)?;
        while !w.loops.is_empty() {
            w.remove(0)?;
        }
        Ok(())
    })();
    use std::hash::Hasher;
    let h = w.sig.finish();
    cov(|c| {
        c.add("callbacks", w.calls);
        c.add("loops", w.next as u64);
        if w.calls > 0 {
            c.sig(h)
        }
    });
    drop(w);
    free_all();
    res
}
