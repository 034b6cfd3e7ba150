//! The circle drawer, with undo, redo and its context menu.
use crate::driver::*;
use crate::ex;
use crate::page::*;
use wasm_bindgen::native;
use wasm_bindgen::JsValue;

#[derive(Clone, Copy, Debug)]
enum Op {
    Create(i32, i32),
    Scale { which: usize, from: f64, to: f64 },
}
struct C {
    x: i32,
    y: i32,
    scale: f64,
    selected: bool,
}
fn mouse(o: &O, ty: &str, x: i32, y: i32) -> bool {
    fire(o, "MouseEvent", ty, true, &[("offsetX", JsValue::from(x as f64)), ("offsetY", JsValue::from(y as f64))])
}
struct M {
    cs: Vec<C>,
    selected: Option<usize>,
    ops: Vec<Op>,
    cursor: usize,
}
impl M {
    fn track(&mut self, x: i32, y: i32) {
        let mut best: Option<(usize, f64)> = None;
        for (i, c) in self.cs.iter().enumerate() {
            let d = (((c.x - x).pow(2) + (c.y - y).pow(2)) as f64).sqrt();
            if d < c.scale * 25.0 && best.is_none_or(|b| d < b.1) {
                best = Some((i, d));
            }
        }
        let new = best.map(|b| b.0);
        if self.selected != new {
            if let Some(c) = self.selected.and_then(|o| self.cs.get_mut(o)) {
                c.selected = false;
            }
        }
        if let Some(n) = new {
            self.cs[n].selected = true;
        }
        self.selected = new;
    }
    fn add(&mut self, op: Op) {
        self.ops.truncate(self.cursor);
        self.ops.push(op);
        self.cursor += 1;
    }
}
pub fn run(cx: &mut Cx) -> CaseResult {
    let mt = mount(ex::circles::circles());
    let body = root();
    let area = one(by_class(&body, "area"), "drawing areas")?;
    let b = by_tag(&body, "button");
    check!(b.len() == 2, "{} buttons", b.len());
    let (undo, redo) = (&b[0], &b[1]);
    let mut m = M { cs: vec![], selected: None, ops: vec![], cursor: 0 };
    for _ in 0..cx.scaled(3, 50) {
        let (x, y) = if !m.cs.is_empty() && cx.rng.chance(1, 2) {
            let c = cx.rng.pick(&m.cs);
            (c.x + cx.rng.below(15) as i32 - 7, c.y + cx.rng.below(15) as i32 - 7)
        } else {
            (cx.rng.below(600) as i32, cx.rng.below(400) as i32)
        };
        match cx.rng.below(9) {
            0..=2 => {
                tr!("click at {x},{y}");
                mouse(&area, "click", x, y);
                m.add(Op::Create(x, y));
                m.cs.push(C { x, y, scale: 1.0, selected: false });
                m.track(x, y);
            }
            3 | 4 => {
                tr!("mouse at {x},{y}");
                mouse(&area, "mousemove", x, y);
                m.track(x, y);
            }
            5 if m.cursor > 0 => {
                tr!("undo");
                check!(!flag(undo, "disabled"), "undo is disabled after {} operations", m.cursor);
                click(undo);
                m.cursor -= 1;
                match m.ops[m.cursor] {
                    Op::Create(..) => {
                        m.cs.pop();
                        // the example keeps its idea of what is selected until the mouse moves
                    }
                    Op::Scale { which, from, .. } => m.cs[which].scale = from,
                }
                cov(|c| c.hit("undone"));
            }
            6 if m.cursor < m.ops.len() => {
                tr!("redo");
                check!(!flag(redo, "disabled"), "redo is disabled with {} operations undone", m.ops.len() - m.cursor);
                click(redo);
                match m.ops[m.cursor] {
                    Op::Create(x, y) => m.cs.push(C { x, y, scale: 1.0, selected: false }),
                    Op::Scale { which, to, .. } => m.cs[which].scale = to,
                }
                m.cursor += 1;
                cov(|c| c.hit("redone"));
            }
            7 | 8 => {
                // a right click where the mouse is
                mouse(&area, "mousemove", x, y);
                m.track(x, y);
                settle();
                tr!("context menu at {x},{y} on {:?}", m.selected);
                let ok = mouse(&area, "contextmenu", x, y);
                check!(!ok, "the browser's own context menu opens as well");
                settle();
                no_errors("opening the menu")?;
                let back = by_class(&area, "backdrop");
                let Some(which) = m.selected else {
                    check!(back.is_empty(), "a menu opened where there is no circle");
                    continue;
                };
                let back = one(back, "menus")?;
                let pop = one(by_class(&back, "popup"), "popups")?;
                check!(by_tag(&pop, "input").is_empty(), "the slider is there before the menu entry was chosen");
                let from = m.cs[which].scale;
                let mut to = None;
                if cx.rng.chance(3, 4) {
                    click(&one(by_tag(&pop, "button"), "buttons in the menu")?);
                    settle();
                    check!(by_tag(&pop, "button").is_empty(), "the menu entry stays when the slider is shown");
                    let s = one(by_tag(&pop, "input"), "sliders")?;
                    check!(value(&s) == from.to_string(), "the slider starts at {:?}, expected {from}", value(&s));
                    for _ in 0..cx.rng.below(4) {
                        let v = cx.rng.range(1, 40) as f64 / 8.0;
                        type_in(&s, &v.to_string(), "input");
                        settle();
                        to = Some(v);
                        let e = &by_class(&area, "circle")[which];
                        let shown = native::to_string(&native::style_of(e).prop("--circle-scale"));
                        check!(shown == v.to_string(), "circle {which} is shown at scale {shown:?} when the slider is at {v}");
                    }
                    click(&s);
                    settle();
                    check!(!by_class(&area, "backdrop").is_empty(), "a click on the slider closed the menu");
                }
                // while the menu is open the mouse moves over it
                let mut moved = None;
                for _ in 0..cx.rng.below(3) {
                    let p = (cx.rng.below(600) as i32, cx.rng.below(400) as i32);
                    mouse(&back, "mousemove", p.0, p.1);
                    moved = Some(p);
                }
                mouse(&back, "click", x, y);
                if let Some(to) = to {
                    m.add(Op::Scale { which, from, to });
                    m.cs[which].scale = to;
                    cov(|c| c.hit("scaled"));
                }
                if let Some((x, y)) = moved {
                    m.track(x, y);
                }
                settle();
                check!(by_class(&area, "backdrop").is_empty(), "a click outside the menu did not close it");
            }
            _ => continue,
        }
        settle();
        no_errors("the user's action")?;
        let got: Vec<(String, String, String, bool)> = by_class(&area, "circle")
            .iter()
            .map(|e| {
                let s = native::style_of(e);
                let p = |k: &str| native::to_string(&s.prop(k));
                (p("left"), p("top"), p("--circle-scale"), has(e, "circle-selected"))
            })
            .collect();
        let want: Vec<_> = m
            .cs
            .iter()
            .map(|c| (format!("{}px", c.x), format!("{}px", c.y), c.scale.to_string(), c.selected))
            .collect();
        let same = got.len() == want.len()
            && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && g.1 == w.1 && (g.2 == w.2 || (g.2.is_empty() && w.2 == "1")) && g.3 == w.3);
        check!(same, "the circles (left, top, scale, selected) are {got:?}, expected {want:?}");
        check!(flag(undo, "disabled") == (m.cursor == 0), "undo is disabled: {}, {} operations to undo", flag(undo, "disabled"), m.cursor);
        check!(flag(redo, "disabled") == (m.cursor == m.ops.len()), "redo is disabled: {}, {} operations to redo", flag(redo, "disabled"), m.ops.len() - m.cursor);
        cov(|c| c.hit("checks"));
        cov(|c| c.sig(("circles", m.cursor, m.ops.len(), m.selected, m.cs.len())));
    }
    mt.unmount()
}
