//! The simple examples: counter, temperature converter, timer, crud, cells, flight booker.
use crate::driver::*;
use crate::ex;
use crate::page::*;
use std::collections::BTreeMap;
use wasm_bindgen::native;

pub fn counter(cx: &mut Cx) -> CaseResult {
    let m = mount(ex::counter::counter());
    let b = by_tag(&root(), "button");
    check!(b.len() == 2, "{} buttons", b.len());
    let mut v = 0i64;
    for _ in 0..cx.scaled(2, 60) {
        let up = cx.rng.chance(1, 2);
        v += if up { 1 } else { -1 };
        click(&b[!up as usize]);
        settle();
        let t = body_text();
        check!(t == format!("{v}+1-1"), "the page reads {t:?} when the count is {v}");
        no_errors("a click")?;
        cov(|c| c.hit("checks"));
    }
    cov(|c| c.sig(("counter", v)));
    m.unmount()
}
pub fn converter(cx: &mut Cx) -> CaseResult {
    let m = mount(ex::temp_converter::converter());
    let i = by_tag(&root(), "input");
    check!(i.len() == 2, "{} inputs", i.len());
    let mut want = [String::new(), String::new()];
    for _ in 0..cx.scaled(2, 40) {
        let which = cx.rng.below(2);
        let s = match cx.rng.below(6) {
            0 => "".to_string(),
            1 => "abc".into(),
            2 => format!("{}.5", cx.rng.below(100)),
            3 => format!("-{}", cx.rng.below(100)),
            _ => format!("{}", cx.rng.below(300)),
        };
        type_in(&i[which], &s, "input");
        want[which] = s.clone();
        if let Ok(v) = s.parse::<f32>() {
            let r = if which == 0 { v / 5.0 * 9.0 + 32.0 } else { (v - 32.0) / 9.0 * 5.0 };
            want[1 - which] = (r.round() as i32).to_string();
        }
        settle();
        let got = [value(&i[0]), value(&i[1])];
        check!(got == want, "the fields hold {got:?}, expected {want:?}");
        no_errors("typing")?;
        cov(|c| c.hit("checks"));
        cov(|c| c.sig(("conv", &got)));
    }
    m.unmount()
}
pub fn timer(cx: &mut Cx) -> CaseResult {
    let m = mount(ex::timer::timer());
    let body = root();
    let meter = one(by_tag(&body, "meter"), "meters")?;
    let slider = one(by_tag(&body, "input"), "sliders")?;
    let reset = one(by_tag(&body, "button"), "buttons")?;
    let (mut elapsed, mut total) = (0.0f64, 15.0f64);
    let mut clock = 0u64;
    for _ in 0..cx.scaled(2, 30) {
        match cx.rng.below(6) {
            0 => {
                total = *cx.rng.pick(&[0.1, 0.25, 1.0, 2.0, 30.0]);
                tr!("duration {total}");
                type_in(&slider, &total.to_string(), "input");
                settle();
            }
            1 => {
                tr!("reset");
                elapsed = 0.0;
                click(&reset);
                settle();
            }
            _ => {
                let d = cx.rng.below(1500) as u64;
                tr!("{d} ms pass");
                native::advance(d as f64);
                for _ in (clock / 50)..((clock + d) / 50) {
                    if elapsed < total {
                        elapsed += 0.05;
                    }
                }
                clock += d;
            }
        }
        let t = body_text();
        let want = format!("Elapsed time: {elapsed:.2}Duration: Reset");
        check!(t == want, "the page reads {t:?}, expected {want:?}");
        let v = meter.prop("value").as_f64().unwrap_or(f64::NAN);
        check!((v - elapsed / total).abs() < 1e-9, "the meter shows {v}, expected {}", elapsed / total);
        no_errors("the timer")?;
        cov(|c| c.hit("checks"));
        cov(|c| c.sig(("timer", &t, total.to_bits())));
    }
    m.unmount()
}
pub fn crud(cx: &mut Cx) -> CaseResult {
    struct P {
        id: i32,
        name: String,
        hidden: bool,
    }
    let m = mount(ex::crud::crud());
    let body = root();
    let sel = one(by_tag(&body, "select"), "selects")?;
    let i = by_tag(&body, "input");
    let b = by_tag(&body, "button");
    check!(i.len() == 3 && b.len() == 3, "{} inputs and {} buttons", i.len(), b.len());
    let mut people: Vec<P> = vec![];
    let mut chosen: Option<i32> = None;
    let mut next = 0;
    let names = ["Ann", "Bo", "Abel", "", "Zoë"];
    for _ in 0..cx.scaled(3, 60) {
        match cx.rng.below(8) {
            0..=2 => {
                let (n, s) = (*cx.rng.pick(&names), *cx.rng.pick(&names));
                i[1].set_prop("value", n.into());
                i[2].set_prop("value", s.into());
                tr!("create {s}, {n}");
                click(&b[0]);
                next += 1;
                people.push(P { id: next, name: format!("{s}, {n}"), hidden: false });
            }
            3 | 4 => {
                let vis: Vec<usize> = (0..people.len()).filter(|k| !people[*k].hidden).collect();
                if !vis.is_empty() {
                    let k = *cx.rng.pick(&vis);
                    tr!("select {}", people[k].name);
                    chosen = Some(people[k].id);
                    native::user_select(&sel, k);
                }
            }
            5 => {
                if let Some(id) = chosen {
                    check!(!flag(&b[1], "disabled"), "a person is selected but Update is disabled");
                    let (n, s) = (*cx.rng.pick(&names), *cx.rng.pick(&names));
                    i[1].set_prop("value", n.into());
                    i[2].set_prop("value", s.into());
                    tr!("update to {s}, {n}");
                    click(&b[1]);
                    people.iter_mut().find(|p| p.id == id).unwrap().name = format!("{s}, {n}");
                }
            }
            6 => {
                if let Some(id) = chosen.take() {
                    check!(!flag(&b[2], "disabled"), "a person is selected but Delete is disabled");
                    tr!("delete {id}");
                    click(&b[2]);
                    people.retain(|p| p.id != id);
                }
            }
            _ => {
                let f = *cx.rng.pick(&["", "A", "An", "Zo", "nobody"]);
                tr!("filter {f:?}");
                type_in(&i[0], f, "input");
                for p in &mut people {
                    p.hidden = !p.name.starts_with(f);
                }
            }
        }
        settle();
        no_errors("the user's action")?;
        let opts = elements(&sel);
        let got: Vec<(String, String, bool)> = opts.iter().map(|o| (native::option_value(o), text(o), flag(o, "hidden"))).collect();
        let want: Vec<_> = people.iter().map(|p| (p.id.to_string(), p.name.clone(), p.hidden)).collect();
        check!(got == want, "the list offers {got:?}, expected {want:?}");
        cov(|c| c.hit("checks"));
        cov(|c| c.sig(("crud", &got)));
    }
    m.unmount()
}
pub fn cells(cx: &mut Cx) -> CaseResult {
    const R: usize = 100;
    #[derive(Clone)]
    enum F {
        Lit(f64),
        /// columns and rows
        Sum(usize, usize, usize, usize),
        Unknown,
    }
    let m = mount(ex::cells::cells());
    let rows = by_tag(&root(), "tr");
    check!(rows.len() == R + 1, "{} rows", rows.len());
    let head: Vec<String> = elements(&rows[0]).iter().map(text).collect();
    check!(head.len() == 27 && head[0] == "Cells" && head[1] == "A" && head[26] == "Z", "the table head is {head:?}");
    // only some of the cells, so that sums meet them
    let (nc, nr) = (1 + cx.rng.below(4), 2 + cx.rng.below(5));
    let at = |c: usize, r: usize| -> (O, O) {
        let td = elements(&rows[r + 1])[c + 1].clone();
        let k = elements(&td);
        (k[0].clone(), k[1].clone())
    };
    for (r, row) in rows.iter().enumerate().skip(1) {
        let n = elements(row).len();
        check!(n == 27, "row {r} has {n} cells");
    }
    let mut fs: BTreeMap<(usize, usize), F> = BTreeMap::new();
    for _ in 0..cx.scaled(3, 25) {
        let (c, r) = (cx.rng.below(nc), cx.rng.below(nr));
        // sums only over later cells of the sheet: the example does not stop at circular sums
        let (f, s) = match cx.rng.below(5) {
            0 | 1 if r + 1 < nr => {
                let c1 = cx.rng.range(c, nc - 1);
                let c0 = cx.rng.below(c1 + 1);
                let r0 = cx.rng.range(r + 1, nr - 1);
                let r1 = cx.rng.range(r0, nr - 1);
                let l = |c: usize| (b'A' + c as u8) as char;
                (F::Sum(c0, c1, r0, r1), format!("=SUM({}{r0}:{}{r1})", l(c0), l(c1)))
            }
            2 if cx.rng.chance(1, 3) => (F::Unknown, "nothing".into()),
            _ => {
                let v = cx.rng.below(2000) as f64 / 8.0;
                (F::Lit(v), format!("{v}"))
            }
        };
        tr!("cell {c},{r}: {s}");
        fs.insert((c, r), f);
        type_in(&at(c, r).0, &s, "change");
        settle();
        no_errors("editing a cell")?;
        // values, from the last row up
        let mut vals: BTreeMap<(usize, usize), f64> = BTreeMap::new();
        for r in (0..nr).rev() {
            for c in 0..nc {
                let v = match fs.get(&(c, r)) {
                    Some(F::Lit(v)) => *v,
                    Some(F::Sum(c0, c1, r0, r1)) => {
                        let mut t = 0.0;
                        for c in *c0..=*c1 {
                            for r in *r0..=*r1 {
                                t += vals.get(&(c, r)).copied().unwrap_or(f64::NAN);
                            }
                        }
                        t
                    }
                    _ => f64::NAN,
                };
                vals.insert((c, r), v);
            }
        }
        for ((c, r), v) in &vals {
            let got = text(&at(*c, *r).1);
            let want = if v.is_finite() { format!("={v:.3}") } else { String::new() };
            check!(got == want, "the cell in column {c}, row {r} shows {got:?}, expected {want:?}");
        }
        cov(|c| c.hit("checks"));
        cov(|c| c.sig(("cells", vals.values().map(|v| v.to_bits()).collect::<Vec<_>>())));
    }
    m.unmount()
}
fn date(s: &str) -> Option<(u32, u32, u32)> {
    let p: Vec<&str> = s.split('-').collect();
    if p.len() != 3 || p[0].len() != 4 || p[1].len() != 2 || p[2].len() != 2 {
        return None;
    }
    let n = |s: &str| s.parse::<u32>().ok();
    let (y, m, d) = (n(p[0])?, n(p[1])?, n(p[2])?);
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let last = match m {
        2 => 28 + leap as u32,
        4 | 6 | 9 | 11 => 30,
        1..=12 => 31,
        _ => return None,
    };
    (1..=last).contains(&d).then_some((y, m, d))
}
pub fn flight(cx: &mut Cx) -> CaseResult {
    let m = mount(ex::flight::flight());
    let body = root();
    let sel = one(by_tag(&body, "select"), "selects")?;
    let i = by_tag(&body, "input");
    let book = one(by_tag(&body, "button"), "buttons")?;
    check!(i.len() == 2, "{} inputs", i.len());
    let mut two = false;
    let mut d = [String::new(), String::new()];
    let dates = ["2024-02-29", "2023-02-29", "2024-03-01", "2024-01-31", "2024-13-01", "1999-12-31", "", "tomorrow", "2024-02-28"];
    for step in 0..cx.scaled(3, 30) {
        if step > 0 {
            match cx.rng.below(3) {
                0 => {
                    let k = cx.rng.below(2);
                    two = k == 1;
                    native::user_select(&sel, k);
                }
                1 => {
                    d[0] = cx.rng.pick(&dates).to_string();
                    type_in(&i[0], &d[0], "input");
                }
                _ if two => {
                    d[1] = cx.rng.pick(&dates).to_string();
                    type_in(&i[1], &d[1], "input");
                }
                _ => {}
            }
            settle();
            no_errors("the user's action")?;
            let (a, b) = (date(&d[0]), date(&d[1]));
            check!(flag(&i[1], "disabled") == !two, "the return date is {}", if two { "disabled for a return flight" } else { "enabled for a one-way flight" });
            let can = match (two, a, b) {
                (true, Some(a), Some(b)) => b > a,
                (false, Some(_), _) => true,
                _ => false,
            };
            check!(flag(&book, "disabled") != can, "booking is possible: {}, expected {can} (return flight: {two}, dates {d:?})", !flag(&book, "disabled"));
            for (k, ok) in [(0, a.is_some()), (1, b.is_some())] {
                check!(has(&i[k], "invalid") != ok, "date {:?} is marked invalid: {}", d[k], has(&i[k], "invalid"));
            }
            cov(|c| c.hit("checks"));
            cov(|c| c.sig(("flight", two, &d)));
        }
    }
    m.unmount()
}
