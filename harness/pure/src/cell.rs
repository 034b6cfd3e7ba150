//! U01: random histories of a reactive cell.
use crate::driver::{cov, CaseResult, Cx, Rng};
use crate::store::Flag;
use async_ui_internal_utils::reactive_cell::ReactiveCell;
use futures_core::Stream;
use std::cell::{Ref, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

type Cell = ReactiveCell<Vec<u32>>;
trait Sub {
    fn poll(&mut self, cx: &mut Context<'_>, as_stream: bool) -> Poll<Option<()>>;
}
impl<T: Future<Output = ()> + Stream<Item = ()>> Sub for Pin<Box<T>> {
    fn poll(&mut self, cx: &mut Context<'_>, as_stream: bool) -> Poll<Option<()>> {
        if as_stream {
            self.as_mut().poll_next(cx)
        } else {
            Future::poll(self.as_mut(), cx).map(Some)
        }
    }
}
struct S<'a> {
    id: usize,
    sub: Box<dyn Sub + 'a>,
    flag: Arc<Flag>,
    polled: bool,
    pending: bool,
}
struct Each<'a> {
    id: usize,
    fut: Pin<Box<dyn Future<Output = ()> + 'a>>,
    log: Rc<RefCell<Vec<Vec<u32>>>>,
    flag: Arc<Flag>,
    polled: bool,
    pending: bool,
}
fn mutate(v: &mut Vec<u32>, r: &mut Rng, n: &mut u32) {
    *n += 1;
    match r.below(4) {
        0 => {
            v.pop();
        }
        1 => *v = vec![*n],
        2 => {}
        _ => v.push(*n),
    }
}
pub fn u01(cx: &mut Cx) -> CaseResult {
    if cx.rng.chance(1, 12) {
        return memory(cx);
    }
    let steps = cx.scaled(5, 60);
    let mut r = cx.rng.fork();
    let r = &mut r;
    let cell: Cell = if r.chance(1, 4) { Default::default() } else { ReactiveCell::new(vec![1]) };
    let mut model: Vec<u32> = cell.borrow().clone();
    let mut n = 1;
    let mut subs: Vec<S> = vec![];
    let mut loops: Vec<Each> = vec![];
    let mut dead: Vec<Arc<Flag>> = vec![];
    let mut next = 0;
    let mut shape: Vec<u8> = vec![];
    let mut fires = 0u64;
    for _ in 0..steps {
        let op = r.below(16);
        shape.push(op as u8);
        match op {
            0 | 1 => {
                tr!("sub {next}");
                subs.push(S { id: next, sub: Box::new(Box::pin(cell.until_change())), flag: Flag::new(), polled: false, pending: false });
                next += 1;
            }
            2 => {
                let log: Rc<RefCell<Vec<Vec<u32>>>> = Default::default();
                let l2 = log.clone();
                tr!("for_each {next}");
                loops.push(Each { id: next, fut: Box::pin(cell.for_each(move |v: &Vec<u32>| l2.borrow_mut().push(v.clone()))), log, flag: Flag::new(), polled: false, pending: false });
                next += 1;
            }
            3 => {
                if !subs.is_empty() && r.chance(1, 2) {
                    let s = subs.swap_remove(r.below(subs.len()));
                    tr!("drop sub {}", s.id);
                    let f = s.flag.clone();
                    drop(s);
                    f.dead.store(true, SeqCst);
                    dead.push(f);
                } else if !loops.is_empty() {
                    let s = loops.swap_remove(r.below(loops.len()));
                    tr!("drop for_each {}", s.id);
                    let f = s.flag.clone();
                    drop(s);
                    f.dead.store(true, SeqCst);
                    dead.push(f);
                }
            }
            4..=8 => {
                // mutable access, possibly several in a row
                let before: Vec<usize> = subs.iter().map(|s| s.flag.wakes.load(SeqCst)).collect();
                let before2: Vec<usize> = loops.iter().map(|s| s.flag.wakes.load(SeqCst)).collect();
                for _ in 0..if r.chance(1, 40) { *r.pick(&[128, 256, 256, 512, 65_536]) } else { *r.pick(&[1, 1, 1, 2, 3]) } {
                    let tried = r.chance(1, 3);
                    let mut g = if tried {
                        match cell.try_borrow_mut() {
                            Ok(g) => g,
                            Err(_) => return Err("try_borrow_mut failed on a cell that is not borrowed".into()),
                        }
                    } else {
                        cell.borrow_mut()
                    };
                    check!(*g == model, "a mutable borrow shows {:?} in place of {:?}", *g, model);
                    mutate(&mut g, r, &mut n);
                    model = g.clone();
                    if r.chance(1, 3) {
                        check!(cell.try_borrow().is_err(), "a shared borrow was given while a mutable one is there");
                        check!(cell.try_borrow_mut().is_err(), "a second mutable borrow was given");
                        let _ = format!("{cell:?}");
                    }
                    if model.len() > 20 {
                        model.truncate(3);
                        g.truncate(3);
                    }
                    tr!("mutate to {model:?}");
                }
                for (s, b) in subs.iter_mut().zip(before) {
                    let owed = s.polled && !s.pending;
                    s.pending |= s.polled;
                    check!(!owed || s.flag.wakes.load(SeqCst) > b, "subscription {} was not woken by a mutation", s.id);
                }
                for (s, b) in loops.iter_mut().zip(before2) {
                    let owed = s.polled && !s.pending;
                    s.pending |= s.polled;
                    check!(!owed || s.flag.wakes.load(SeqCst) > b, "for_each {} was not woken by a mutation", s.id);
                }
            }
            9 => {
                // shared access
                let before: Vec<usize> = subs.iter().map(|s| s.flag.wakes.load(SeqCst)).collect();
                {
                    let a = cell.borrow();
                    check!(*a == model, "a borrow shows {:?} in place of {:?}", *a, model);
                    let b: Ref<'_, Vec<u32>> = match cell.try_borrow() {
                        Ok(b) => b,
                        Err(_) => return Err("a second shared borrow was refused".into()),
                    };
                    check!(*b == model, "a borrow shows {:?} in place of {:?}", *b, model);
                    check!(cell.try_borrow_mut().is_err(), "a mutable borrow was given while a shared one is there");
                    drop(a);
                    check!(cell.try_borrow_mut().is_err(), "a mutable borrow was given while a shared one is there");
                }
                let c = cell.clone();
                check!(*c.borrow() == model, "a clone holds {:?} in place of {:?}", *c.borrow(), model);
                c.borrow_mut().push(99);
                check!(*cell.borrow() == model, "changing a clone changed the cell");
                check!(format!("{cell:?}") == format!("ReactiveCell({model:?})"), "the cell prints as {cell:?}");
                for (s, b) in subs.iter().zip(before) {
                    check!(s.flag.wakes.load(SeqCst) == b, "subscription {} was woken by shared access", s.id);
                }
            }
            10..=12 if !loops.is_empty() => {
                let i = r.below(loops.len());
                poll_each(&mut loops[i], &model)?;
                fires += 1;
            }
            _ if !subs.is_empty() => {
                let i = r.below(subs.len());
                let s = &mut subs[i];
                if r.chance(1, 5) {
                    s.flag = Flag::new();
                }
                s.flag.take();
                let w = Waker::from(s.flag.clone());
                let got = s.sub.poll(&mut Context::from_waker(&w), r.chance(1, 2));
                tr!("poll sub {}: {got:?}", s.id);
                let want = s.pending;
                s.polled = true;
                s.pending = false;
                match got {
                    Poll::Pending => check!(!want, "subscription {} did not fire after a mutation", s.id),
                    Poll::Ready(Some(())) => check!(want, "subscription {} fired without a mutation since its last poll", s.id),
                    Poll::Ready(None) => return Err(format!("subscription {} ended", s.id)),
                }
                fires += want as u64;
            }
            _ => {}
        }
        let n: usize = dead.iter().map(|f| f.dead_wakes.load(SeqCst)).sum();
        check!(n == 0, "the waker of a dropped subscription was used");
    }
    for l in loops.iter_mut() {
        if l.flag.woken() || !l.polled {
            poll_each(l, &model)?;
        }
        check!(!l.pending, "for_each {} missed the last mutation", l.id);
    }
    for f in &dead {
        check!(Arc::strong_count(f) == 1, "the waker of a dropped subscription is still held");
    }
    cov(|c| {
        c.add("fires", fires);
        c.add("subscriptions", next as u64);
        if fires > 0 {
            c.sig(&shape)
        }
    });
    Ok(())
}
fn poll_each(l: &mut Each, model: &[u32]) -> CaseResult {
    l.flag.take();
    let w = Waker::from(l.flag.clone());
    let res = l.fut.as_mut().poll(&mut Context::from_waker(&w));
    let got: Vec<Vec<u32>> = l.log.borrow_mut().drain(..).collect();
    tr!("poll for_each {}: {got:?}", l.id);
    check!(res.is_pending(), "for_each {} finished", l.id);
    let due = !l.polled || l.pending;
    l.polled = true;
    l.pending = false;
    if due {
        check!(got.last().map(|v| &v[..]) == Some(model), "for_each {} called back with {got:?} where the value is {model:?}", l.id);
        check!(got.len() == 1, "for_each {} called back {} times in one poll", l.id, got.len());
    } else {
        check!(got.is_empty(), "for_each {} called back without a mutation", l.id);
    }
    Ok(())
}
fn memory(cx: &mut Cx) -> CaseResult {
    let r = &mut cx.rng;
    let cell: ReactiveCell<u32> = ReactiveCell::new(0);
    let n = *r.pick(&[1, 2, 3, 7, 8, 20]);
    let round = |r: &mut Rng| {
        let ws: Vec<Waker> = (0..n).map(|_| Waker::from(Flag::new())).collect();
        let mut subs: Vec<_> = (0..n).map(|_| Box::pin(cell.until_change())).collect();
        for (s, w) in subs.iter_mut().zip(&ws) {
            if r.chance(1, 2) {
                let _ = s.as_mut().poll_next(&mut Context::from_waker(w));
            }
        }
        *cell.borrow_mut() += 1;
        r.shuffle(&mut subs);
        subs.truncate(r.below(n + 1));
    };
    for _ in 0..30 {
        round(r);
    }
    let base = crate::live_bytes();
    let more = 300;
    for _ in 0..more {
        round(r);
    }
    let grown = crate::live_bytes() - base;
    cov(|c| {
        c.hit("memory runs");
        c.max("bytes grown", grown.max(0) as u64);
    });
    check!(grown <= 512 + 200 * n as i64, "a cell with at most {n} subscriptions alive at once uses {grown} bytes more after {} were created and dropped", n * more);
    Ok(())
}
