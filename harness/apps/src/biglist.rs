//! A list of a hundred thousand lines in a small box; lines are made from elements used before.
use crate::driver::*;
use crate::ex;
use crate::page::*;
use std::cell::{Cell, OnceCell};
use std::rc::Rc;
use wasm_bindgen::native::{self, Data};

const N: i64 = 100_000;
struct G {
    list: O,
    h: Cell<f64>,
    scroll: Cell<f64>,
    item: f64,
}
impl G {
    fn size_of(&self, o: &O) -> f64 {
        if !text(o).is_empty() {
            return self.item;
        }
        let st = native::style_of(o);
        let num = |k: &str| native::to_string(&st.prop(k)).strip_suffix("px").and_then(|n| n.parse::<f64>().ok()).filter(|x| x.is_finite() && *x >= 0.0);
        num("block-size").or(num("height")).unwrap_or(0.0)
    }
    fn max_scroll(&self) -> f64 {
        (elements(&self.list).iter().map(|o| self.size_of(o)).sum::<f64>() - self.h.get()).max(0.0)
    }
    fn span(&self, o: &O) -> (f64, f64) {
        if Rc::ptr_eq(o, &self.list) {
            return (50.0, 50.0 + self.h.get());
        }
        let mut y = 50.0 - self.scroll.get();
        for c in elements(&self.list) {
            let s = self.size_of(&c);
            if Rc::ptr_eq(&c, o) {
                return (y, y + s);
            }
            y += s;
        }
        (0.0, 0.0)
    }
}
struct Browser {
    g: Rc<G>,
    last: f64,
    io: Vec<(O, O, bool)>,
}
impl Browser {
    fn frame(&mut self) -> bool {
        let mut any = native::advance(0.0) > 0;
        let g = self.g.clone();
        g.scroll.set(g.scroll.get().min(g.max_scroll()));
        if g.scroll.get() != self.last {
            self.last = g.scroll.get();
            fire(&g.list, "Event", "scroll", false, &[]);
            any = true;
        }
        let obs = native::active_observers();
        self.io.retain(|x| obs.iter().any(|o| Rc::ptr_eq(o, &x.0)));
        for o in obs {
            let Data::Observer(d) = &o.data else { continue };
            let margin = d.root_margin.trim().strip_suffix('%').and_then(|m| m.trim().parse::<f64>().ok()).map(|x| x / 100.0).unwrap_or(0.0) * g.h.get();
            let mut notify = false;
            for t in d.targets.borrow().iter() {
                let inside = native::parent_of(t).is_some_and(|p| Rc::ptr_eq(&p, &g.list));
                let (a, b) = g.span(t);
                let hit = inside && b >= 50.0 - margin && a <= 50.0 + g.h.get() + margin;
                match self.io.iter_mut().find(|x| Rc::ptr_eq(&x.0, &o) && Rc::ptr_eq(&x.1, t)) {
                    Some(x) if x.2 == hit => {}
                    Some(x) => {
                        x.2 = hit;
                        notify = true
                    }
                    None => {
                        self.io.push((o.clone(), t.clone(), hit));
                        notify = true
                    }
                }
            }
            if notify {
                native::notify_observer(&o);
                any = true;
            }
        }
        any
    }
    fn settle(&mut self) -> CaseResult {
        for _ in 0..60 {
            if !self.frame() {
                return Ok(());
            }
        }
        Err("scrolling never comes to rest".into())
    }
}
pub fn run(cx: &mut Cx) -> CaseResult {
    let h = cx.rng.range(60, 700) as f64;
    let item = *cx.rng.pick(&[12.0, 20.0, 31.0, 150.0]);
    let r = root();
    // an element that isn't on the page has no size
    let g: Rc<OnceCell<Rc<G>>> = Rc::default();
    let g2 = g.clone();
    *native::page().layout.borrow_mut() = Some(Rc::new(move |o: &O| {
        if g2.get().is_none() {
            let Some(list) = by_class(&r, "wrapper").first().cloned() else { return [0.0; 4] };
            let _ = g2.set(Rc::new(G { list, h: Cell::new(h), scroll: Cell::new(0.0), item }));
        }
        let g2 = g2.get().unwrap();
        let inside = Rc::ptr_eq(o, &g2.list) || native::parent_of(o).is_some_and(|p| Rc::ptr_eq(&p, &g2.list));
        let (a, b) = g2.span(o);
        if inside {
            [7.0, a, 60.0, b - a]
        } else {
            [0.0; 4]
        }
    }));
    let m = mount_early(ex::big_list::app());
    native::advance(0.0);
    let list = one(by_class(&root(), "wrapper"), "scrolling boxes")?;
    native::bounding_rect(&list);
    let g = g.get().expect("HARNESS: no box").clone();
    check!(Rc::ptr_eq(&list, &g.list), "another box was measured than the one on the page");
    let mut b = Browser { g: g.clone(), last: 0.0, io: vec![] };
    let mut made: Vec<O> = vec![];
    for step in 0..cx.scaled(2, 25) {
        if step > 0 {
            let (s, max) = (g.scroll.get(), g.max_scroll());
            let to = match cx.rng.below(8) {
                0 => 0.0,
                1 => max,
                2 => max * cx.rng.below(1000) as f64 / 1000.0,
                3 => {
                    g.h.set((g.h.get() * *cx.rng.pick(&[0.5, 0.8, 1.3, 2.0])).clamp(60.0, 1200.0).round());
                    s
                }
                4 | 5 => s + item * (cx.rng.below(40) as f64 - 20.0) / 4.0,
                _ => s + g.h.get() * (cx.rng.below(400) as f64 / 100.0 - 2.0),
            };
            let to = to.clamp(0.0, max).round();
            tr!("scroll {s} -> {to} of {max}, height {}", g.h.get());
            g.scroll.set(to);
        }
        b.settle()?;
        no_errors("scrolling")?;
        let kids = elements(&list);
        let shown: Vec<(i64, f64, f64)> = kids
            .iter()
            .filter_map(|o| {
                let n = text(o).parse::<i64>().ok()?;
                let (a, b) = g.span(o);
                Some((n, a - 50.0, b - 50.0))
            })
            .collect();
        check!(!shown.is_empty(), "no line is on the page");
        check!(shown.windows(2).all(|w| w[1].0 == w[0].0 + 1), "the lines on the page are {:?}", shown.iter().map(|x| x.0).collect::<Vec<_>>());
        let (first, last) = (shown[0], *shown.last().unwrap());
        check!(first.0 >= 0 && last.0 < N, "lines {} to {} are on the page", first.0, last.0);
        check!(first.1 <= 0.0 || first.0 == 0, "the visible part begins above the first line on the page ({})", first.0);
        check!(last.2 >= g.h.get() || last.0 == N - 1, "the visible part goes on below the last line on the page ({})", last.0);
        for o in kids {
            if !made.iter().any(|m| Rc::ptr_eq(m, &o)) {
                made.push(o);
            }
        }
        cov(|c| c.hit("checks"));
        cov(|c| c.sig(("big", first.0, last.0)));
        cov(|c| c.max("lines at once", shown.len() as u64));
    }
    native::page().layout.borrow_mut().take();
    m.unmount()
}
