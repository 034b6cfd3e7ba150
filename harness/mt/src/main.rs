//! C04: wakers of combinator children used from other threads.
//!
//! An executor thread polls (and may drop) a random tree of combinators while other
//! threads wake, clone and drop the wakers which its leaves handed out. The monitor judges
//! every wake (has the task been woken, or polled since?), every poll (were all children
//! polled whose wake calls had returned?) and the end (all drops, no reference left).
//! The same program runs natively, under Miri and under the thread and address sanitizers.
#[macro_use]
#[path = "../../common/driver.rs"]
mod driver;
use async_ui_web_core::ContainerNodeFuture;
use async_ui_web_core::combinators::{join, race, race_ok, try_join, UiFutureExt};
use driver::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

const POLLING: u32 = 31;
/// what the executor knows: number of polls begun, polling or not, the root waker in use,
/// woken or not
struct State(AtomicU64);
impl State {
    fn starts(s: u64) -> u64 {
        s >> 32
    }
    fn begin(&self, waker: u64) {
        self.0
            .try_update(SeqCst, SeqCst, |s| Some((Self::starts(s) + 1) << 32 | 1 << POLLING | (waker & 0x3fff_ffff) << 1))
            .unwrap();
    }
    fn end(&self) {
        self.0.fetch_and(!(1 << POLLING), SeqCst);
    }
    fn wake(&self, waker: u64) {
        let _ = self.0.try_update(SeqCst, SeqCst, |s| if s >> 1 & 0x3fff_ffff == waker & 0x3fff_ffff { Some(s | 1) } else { None });
    }
}

#[derive(Default)]
struct Kid {
    mailbox: Mutex<Option<(u64, Waker)>>,
    polls: AtomicU64,
    signals: AtomicU64,
    seen: AtomicU64,
    /// greatest signal whose wake call has returned
    returned: AtomicU64,
    /// completed, dropped, or inside something that completed
    ended: AtomicBool,
    drops: AtomicU64,
}
struct Shared {
    state: State,
    kids: Vec<Kid>,
    bad: Mutex<Vec<String>>,
    binding: AtomicU64,
    unbound: AtomicU64,
    late: AtomicU64,
    /// wakes that began while a poll was going on
    during: AtomicU64,
    alive: AtomicBool,
}
impl Shared {
    fn wake(&self, k: usize, gen: u64, how: impl FnOnce()) {
        let kid = &self.kids[k];
        let n = kid.signals.fetch_add(1, SeqCst) + 1;
        let binding = kid.polls.load(SeqCst) == gen && !kid.ended.load(SeqCst);
        if !self.alive.load(SeqCst) {
            self.late.fetch_add(1, SeqCst);
        }
        if self.state.0.load(SeqCst) >> POLLING & 1 == 1 {
            self.during.fetch_add(1, SeqCst);
        }
        let before = State::starts(self.state.0.load(SeqCst));
        how();
        if !binding {
            self.unbound.fetch_add(1, SeqCst);
            return;
        }
        self.binding.fetch_add(1, SeqCst);
        kid.returned.fetch_max(n, SeqCst);
        let after = self.state.0.load(SeqCst);
        let pending = after & 1 == 1;
        // a poll that goes on may still reach the child: judged at its end
        if !pending && State::starts(after) == before && after >> POLLING & 1 == 0 && kid.seen.load(SeqCst) < n && !kid.ended.load(SeqCst) && self.alive.load(SeqCst) {
            self.bad.lock().unwrap().push(format!("the wake of child {k} returned, but the task is not woken and the child has not been polled"));
        }
    }
}

struct Leaf {
    sh: Arc<Shared>,
    k: usize,
    finish_at: u64,
    ok: bool,
    self_wakes: u64,
}
type Res = Result<u64, u64>;
impl Future for Leaf {
    type Output = Res;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        let sh = self.sh.clone();
        let kid = &sh.kids[self.k];
        let gen = kid.polls.fetch_add(1, SeqCst) + 1;
        let s = kid.signals.load(SeqCst);
        kid.seen.store(s, SeqCst);
        if s >= self.finish_at {
            kid.ended.store(true, SeqCst);
            return Poll::Ready(if self.ok { Ok(s) } else { Err(s) });
        }
        let old = kid.mailbox.lock().unwrap().replace((gen, cx.waker().clone()));
        drop(old);
        if self.self_wakes > 0 {
            self.self_wakes -= 1;
            let w = cx.waker().clone();
            sh.wake(self.k, gen, || w.wake());
        }
        Poll::Pending
    }
}
impl Drop for Leaf {
    fn drop(&mut self) {
        self.sh.kids[self.k].ended.store(true, SeqCst);
        self.sh.kids[self.k].drops.fetch_add(1, SeqCst);
    }
}

type BF = Pin<Box<dyn Future<Output = Res>>>;
/// marks everything inside as ended when it completes
struct Node {
    f: BF,
    sh: Arc<Shared>,
    kids: Vec<usize>,
}
impl Future for Node {
    type Output = Res;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        let r = self.f.as_mut().poll(cx);
        if r.is_ready() {
            for k in &self.kids {
                self.sh.kids[*k].ended.store(true, SeqCst);
            }
        }
        r
    }
}
macro_rules! tup {
    ($v:ident; $($x:ident)*) => {{ $(let $x = $v.next().unwrap();)* ($($x,)*) }};
}
macro_rules! all {
    ($kind:ident, $c:expr) => {
        match $kind {
            0 => Box::pin(async move {
                let _ = join($c).await;
                Ok(0u64)
            }) as BF,
            1 => Box::pin(async move { race($c).await }),
            2 => Box::pin(async move { try_join($c).await.map(|_| 1u64) }),
            _ => Box::pin(async move { race_ok($c).await.map_err(|_| 2u64) }),
        }
    };
}
macro_rules! sizes {
    ($kids:ident, $kind:ident, $tuple:ident; $($n:literal [$($x:ident)*])*) => {
        match ($kids.len(), $tuple) {
            $(($n, true) => { let mut v = $kids.into_iter(); let c = tup!(v; $($x)*); all!($kind, c) })*
            $(($n, false) => { let c: [Node; $n] = $kids.try_into().ok().unwrap(); all!($kind, c) })*
            _ => panic!("HARNESS: size"),
        }
    };
}
struct Build<'a> {
    rng: &'a mut Rng,
    leaves: Vec<(usize, u64, bool, u64)>,
    next: usize,
    shape: String,
}
impl Build<'_> {
    fn leaf(&mut self, sh: &Arc<Shared>) -> Node {
        let (k, finish_at, ok, self_wakes) = self.leaves[self.next];
        self.next += 1;
        let l = Leaf { sh: sh.clone(), k, finish_at, ok, self_wakes };
        let f: BF = match self.rng.below(12) {
            0 => {
                self.shape.push_str("pend_after ");
                // stays pending after the leaf completes
                Box::pin(l.pend_after::<Res>())
            }
            _ => Box::pin(l),
        };
        self.shape.push('.');
        Node { f, sh: sh.clone(), kids: vec![k] }
    }
    fn node(&mut self, sh: &Arc<Shared>, n: usize, depth: usize) -> Node {
        let from = self.next;
        let kind = self.rng.below(4);
        // number of children: the leaves are dealt out between them
        let mut parts = Vec::new();
        let mut left = n;
        while left > 0 {
            let p = if depth > 0 && left > 1 && self.rng.chance(1, 3) { self.rng.range(2, left.min(5)) } else { 1 };
            parts.push(p);
            left -= p;
        }
        self.shape.push_str(["join", "race", "try_join", "race_ok"][kind]);
        let cont = self.rng.below(3);
        let vec = cont == 0 || parts.len() > 8;
        self.shape.push_str(if vec { "[v" } else if cont == 1 { "[t" } else { "[a" });
        let kids: Vec<Node> = parts
            .into_iter()
            .map(|p| if p == 1 { self.leaf(sh) } else { self.node(sh, p, depth - 1) })
            .collect();
        self.shape.push(']');
        let tuple = cont == 1;
        let f = if vec {
            all!(kind, kids)
        } else {
            sizes!(kids, kind, tuple; 1 [a] 2 [a b] 3 [a b c] 4 [a b c d] 5 [a b c d e] 6 [a b c d e f] 7 [a b c d e f g] 8 [a b c d e f g h])
        };
        let ks = self.leaves[from..self.next].iter().map(|l| l.0).collect();
        Node { f, sh: sh.clone(), kids: ks }
    }
}

type Root2 = Option<Pin<Box<ContainerNodeFuture<Node>>>>;
struct Root {
    id: u64,
    sh: Arc<Shared>,
}
impl Wake for Root {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.sh.state.wake(self.id);
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Take(usize),
    Peek(usize),
    Wake(usize),
    WakeRef(usize),
    CloneWake(usize),
    Drop(usize),
    Clone(usize),
    Spin(usize),
    Yield,
}
fn wakers(sh: &Shared, ops: &[Op]) -> u64 {
    let mut held: Vec<(usize, u64, Waker)> = Vec::new();
    let mut did = 0;
    for op in ops {
        match *op {
            Op::Take(k) => {
                let mut t = sh.kids[k].mailbox.lock().unwrap().take();
                for _ in 0..3 {
                    if t.is_none() && !sh.kids[k].ended.load(SeqCst) {
                        std::thread::yield_now();
                        t = sh.kids[k].mailbox.lock().unwrap().take();
                    }
                }
                if let Some((gen, w)) = t {
                    held.push((k, gen, w));
                }
            }
            Op::Peek(k) => {
                let t = sh.kids[k].mailbox.lock().unwrap().clone();
                if let Some((gen, w)) = t {
                    held.push((k, gen, w));
                }
            }
            Op::Spin(n) => {
                for _ in 0..n {
                    std::hint::spin_loop();
                }
            }
            Op::Yield => std::thread::yield_now(),
            Op::Wake(i) | Op::WakeRef(i) | Op::CloneWake(i) | Op::Drop(i) | Op::Clone(i) => {
                if held.is_empty() {
                    continue;
                }
                let i = i % held.len();
                did += 1;
                match *op {
                    Op::Wake(_) => {
                        let (k, gen, w) = held.swap_remove(i);
                        sh.wake(k, gen, || w.wake());
                    }
                    Op::WakeRef(_) => {
                        let (k, gen, w) = &held[i];
                        sh.wake(*k, *gen, || w.wake_by_ref());
                    }
                    Op::CloneWake(_) => {
                        let (k, gen, w) = &held[i];
                        let c = w.clone();
                        sh.wake(*k, *gen, || c.wake());
                    }
                    Op::Clone(_) => {
                        let c = held[i].clone();
                        held.push(c);
                    }
                    _ => drop(held.swap_remove(i)),
                }
            }
        }
    }
    did
}

fn c04(cx: &mut Cx) -> CaseResult {
    let slow = cfg!(miri);
    let n = if slow {
        cx.rng.range(1, 5)
    } else if cx.rng.chance(1, 40) {
        cx.rng.range(60, 200)
    } else {
        cx.scaled(1, 14)
    };
    let threads = cx.rng.range(1, 3);
    let hot = cx.rng.chance(1, 2);
    let ops: Vec<Vec<Op>> = (0..threads)
        .map(|_| {
            let len = if slow { cx.rng.range(3, 12) } else { cx.rng.range(4, 40) };
            (0..len)
                .map(|_| {
                    let k = if hot && cx.rng.chance(1, 2) { 0 } else { cx.rng.below(n) };
                    let i = cx.rng.below(100);
                    match cx.rng.below(16) {
                        0..=3 => Op::Take(k),
                        4..=6 => Op::Peek(k),
                        7 | 8 => Op::Wake(i),
                        9 | 10 => Op::WakeRef(i),
                        11 => Op::CloneWake(i),
                        12 => Op::Drop(i),
                        13 => Op::Clone(i),
                        14 => Op::Spin(if slow { 1 } else { i * 3 }),
                        _ => Op::Yield,
                    }
                })
                .collect()
        })
        .collect();
    let sh = Arc::new(Shared {
        state: State(AtomicU64::new(0)),
        kids: (0..n).map(|_| Kid::default()).collect(),
        bad: Mutex::default(),
        binding: AtomicU64::new(0),
        unbound: AtomicU64::new(0),
        late: AtomicU64::new(0),
        during: AtomicU64::new(0),
        alive: AtomicBool::new(true),
    });
    let leaves = (0..n)
        .map(|k| {
            let f = if cx.rng.chance(1, 2) { u64::MAX } else { cx.rng.below(7) as u64 };
            (k, f, cx.rng.chance(1, 2), if cx.rng.chance(1, 6) { cx.rng.range(1, 3) as u64 } else { 0 })
        })
        .collect();
    let mut rng = cx.rng.fork();
    let mut b = Build { rng: &mut rng, leaves, next: 0, shape: String::new() };
    let depth = b.rng.below(3);
    let node: web_sys::Node = async_ui_web_html::nodes::Div::new().element.clone().into();
    let mut root: Root2 = Some(Box::pin(ContainerNodeFuture::new_root(b.node(&sh, n, depth), node)));
    let shape = std::mem::take(&mut b.shape);
    tr!("{shape}, {threads} threads {ops:?}");
    // drop the combinator after so many polls, or when the threads are done
    let cut = if rng.chance(1, 3) { Some(rng.below(6) as u64) } else { None };
    // begin with one poll before the threads start, or not
    let early = rng.chance(3, 4);
    let new_waker = rng.below(4);
    let spurious = rng.chance(1, 4);
    let mut roots: Vec<Arc<Root>> = vec![Arc::new(Root { id: 1, sh: sh.clone() })];
    let mut polls = 0u64;
    let mut lost = None;
    let mut done = false;
    let mut poll_once = |root: &mut Root2, roots: &mut Vec<Arc<Root>>, rng: &mut Rng, polls: &mut u64| {
        if rng.below(4) < new_waker {
            let id = roots.len() as u64 + 1;
            roots.push(Arc::new(Root { id, sh: sh.clone() }));
        }
        let r = roots.last().unwrap().clone();
        let w = Waker::from(r.clone());
        // whatever returned before the poll begins must be seen by it
        let due: Vec<u64> = sh.kids.iter().map(|k| k.returned.load(SeqCst)).collect();
        sh.state.begin(r.id);
        drop(r);
        let res = root.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w));
        *polls += 1;
        let now: Vec<u64> = sh.kids.iter().map(|k| k.returned.load(SeqCst)).collect();
        let waiting = (0..n).find(|k| !sh.kids[*k].ended.load(SeqCst) && sh.kids[*k].seen.load(SeqCst) < now[*k]);
        if let (Some(k), true, true) = (waiting, res.is_pending(), sh.state.0.load(SeqCst) & 1 == 0) {
            lost.get_or_insert(format!("the wake of child {k} returned during poll {polls}, which did not poll the child again; the task is not woken"));
        }
        sh.state.end();
        if res.is_ready() {
            done = true;
            return true;
        }
        for (k, (kid, due)) in sh.kids.iter().zip(due).enumerate() {
            if kid.seen.load(SeqCst) < due && !kid.ended.load(SeqCst) && lost.is_none() {
                lost = Some(format!("poll {polls} began after the wake of child {k} had returned, and did not poll it"));
            }
        }
        false
    };
    if early && poll_once(&mut root, &mut roots, &mut rng, &mut polls) {
        sh.alive.store(false, SeqCst);
        root = None;
    }
    let did: u64 = std::thread::scope(|s| {
        let hs: Vec<_> = ops
            .iter()
            .map(|o| {
                let sh = &sh;
                s.spawn(move || wakers(sh, o))
            })
            .collect();
        loop {
            let over = hs.iter().all(|h| h.is_finished());
            if root.is_some() {
                let woken = sh.state.0.load(SeqCst) & 1 == 1 || polls == 0;
                if cut.is_some_and(|c| polls >= c) {
                    sh.alive.store(false, SeqCst);
                    root = None;
                } else if woken || (spurious && rng.chance(1, 8)) {
                    if poll_once(&mut root, &mut roots, &mut rng, &mut polls) {
                        sh.alive.store(false, SeqCst);
                        if rng.chance(1, 2) {
                            root = None;
                        } else {
                            // keep the finished one for the rest of the time
                            break;
                        }
                    }
                    continue;
                }
            }
            if over {
                break;
            }
            std::thread::yield_now();
        }
        hs.into_iter().map(|h| h.join().unwrap()).sum()
    });
    let bad = std::mem::take(&mut *sh.bad.lock().unwrap());
    check!(bad.is_empty(), "[{shape}] {}", bad[0]);
    if let Some(l) = &lost {
        check!(false, "[{shape}] {l}");
    }
    // at rest: nobody waits for a poll
    if root.is_some() && !done && polls > 0 {
        for (k, kid) in sh.kids.iter().enumerate() {
            check!(
                kid.ended.load(SeqCst) || kid.seen.load(SeqCst) >= kid.returned.load(SeqCst),
                "[{shape}] the wake of child {k} was lost"
            );
        }
    }
    drop(root);
    for (k, kid) in sh.kids.iter().enumerate() {
        let left = kid.mailbox.lock().unwrap().take();
        drop(left);
        check!(kid.drops.load(SeqCst) == 1, "[{shape}] child {k} was dropped {} times", kid.drops.load(SeqCst));
    }
    for r in &roots {
        check!(Arc::strong_count(r) == 1, "[{shape}] {} references to a waker of the task are left", Arc::strong_count(r) - 1);
    }
    cov(|c| {
        c.add("polls", polls);
        c.add("waker operations", did);
        c.add("binding wakes", sh.binding.load(SeqCst));
        c.add("superseded wakes", sh.unbound.load(SeqCst));
        c.add("wakes after the combinator's end", sh.late.load(SeqCst));
        c.add("wakes during a poll", sh.during.load(SeqCst));
        c.add("task wakers", roots.len() as u64);
        if cut.is_some() {
            c.hit("dropped while woken");
        }
        c.max("max:children", n as u64);
        c.sig((&shape, polls, sh.binding.load(SeqCst), sh.late.load(SeqCst), sh.during.load(SeqCst)));
    });
    drop(roots);
    let n = Arc::strong_count(&sh);
    check!(n == 1, "[{shape}] HARNESS: {n}");
    Ok(())
}
fn main() {
    driver::main(&[Prop { id: "C04", run: c04, directed: &[], quick: 200_000, thorough: 5_000_000 }])
}
