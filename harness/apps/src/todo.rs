//! TodoMVC.
use crate::driver::*;
use crate::ex;
use crate::page::*;

struct T {
    id: usize,
    text: String,
    done: bool,
    /// what has been typed in its editor
    editing: Option<String>,
}
pub fn run(cx: &mut Cx) -> CaseResult {
    let m = mount(ex::todomvc::app());
    let body = root();
    let new = one(by_class(&body, "new-todo"), "fields for new todos")?;
    let main = one(by_class(&body, "main"), "main parts")?;
    let toggle_all = one(by_class(&body, "toggle-all"), "toggle-all boxes")?;
    let ul = one(by_class(&body, "todo-list"), "todo lists")?;
    let count = one(by_class(&body, "todo-count"), "counters")?;
    let clear = one(by_class(&body, "clear-completed"), "clear buttons")?;
    let filters = by_tag(&one(by_class(&body, "filters"), "filter bars")?, "a");
    check!(filters.len() == 3, "{} filters", filters.len());
    let mut ts: Vec<T> = vec![];
    let mut filter = 0;
    let mut all = false;
    let mut next = 0;
    let mut rows: Vec<(usize, O)> = vec![];
    let words = ["milk", "  spaced out ", "a", "buy milk", "ünï", "<b>"];
    let shows = |f: usize, done: bool| f == 0 || (f == 1) != done;
    for _ in 0..cx.scaled(3, 60) {
        // what the user can see
        let vis: Vec<usize> = (0..ts.len()).filter(|k| shows(filter, ts[*k].done)).collect();
        let some = (!vis.is_empty()).then(|| *cx.rng.pick(&vis));
        let lis = elements(&ul);
        check!(lis.len() == ts.len(), "{} todos on the page, expected {}", lis.len(), ts.len());
        match (cx.rng.below(14), some) {
            (0..=3, _) => {
                let s = if cx.rng.chance(1, 8) { "  ".into() } else { format!("{}{next}", cx.rng.pick(&words)) };
                tr!("new todo {s:?}");
                type_in(&new, &s, "change");
                if !s.trim().is_empty() {
                    check!(value(&new).is_empty(), "the field for new todos still holds {:?}", value(&new));
                    ts.push(T { id: next, text: s.trim().into(), done: false, editing: None });
                    all = false;
                    next += 1;
                }
            }
            (4..=6, Some(k)) => {
                let b = one(by_class(&lis[k], "toggle"), "check boxes in a todo")?;
                ts[k].done = !ts[k].done;
                tr!("todo {k} is done: {}", ts[k].done);
                b.set_prop("checked", ts[k].done.into());
                fire(&b, "Event", "input", true, &[]);
                fire(&b, "Event", "change", true, &[]);
                all = ts.iter().all(|t| t.done);
            }
            (7, Some(k)) if ts[k].editing.is_none() => {
                tr!("delete todo {k}");
                click(&one(by_class(&lis[k], "destroy"), "delete buttons in a todo")?);
                ts.remove(k);
                all = ts.iter().all(|t| t.done);
            }
            (8 | 9, Some(k)) => match ts[k].editing.take() {
                None => {
                    tr!("edit todo {k}");
                    ts[k].editing = Some(ts[k].text.clone());
                    fire(&one(by_tag(&lis[k], "label"), "labels in a todo")?, "MouseEvent", "dblclick", true, &[]);
                }
                Some(_) => {
                    let s = format!("{}{}", cx.rng.pick(&words), cx.rng.below(9));
                    let ed = one(by_class(&lis[k], "edit"), "editors in a todo that is being edited")?;
                    let blur = cx.rng.chance(1, 2);
                    tr!("todo {k} now reads {s:?} (blur: {blur})");
                    ed.set_prop("value", s.as_str().into());
                    ts[k].text = s.trim().into();
                    if blur {
                        fire(&ed, "FocusEvent", "blur", false, &[]);
                    } else {
                        fire(&ed, "Event", "change", true, &[]);
                    }
                }
            },
            (10, _) if !ts.is_empty() => {
                all = !all;
                tr!("toggle all: {all}");
                toggle_all.set_prop("checked", all.into());
                fire(&toggle_all, "Event", "change", true, &[]);
                for t in &mut ts {
                    t.done = all;
                }
            }
            (11, _) if ts.iter().any(|t| t.done) => {
                tr!("clear completed");
                click(&clear);
                ts.retain(|t| !t.done);
                all = ts.is_empty();
            }
            (12, _) => {
                filter = cx.rng.below(3);
                tr!("filter {filter}");
                click(&filters[filter]);
            }
            _ => continue,
        }
        settle();
        no_errors("the user's action")?;
        // what the page must show
        let lis = elements(&ul);
        let got: Vec<(String, bool, bool)> = lis
            .iter()
            .map(|l| (by_tag(l, "label").iter().map(text).collect::<Vec<_>>().join("|"), has(l, "completed"), has(l, "hidden")))
            .collect();
        let want: Vec<_> = ts.iter().map(|t| (t.text.clone(), t.done, !shows(filter, t.done))).collect();
        check!(got == want, "the list shows (text, completed, hidden) {got:?}, expected {want:?}");
        for (l, t) in lis.iter().zip(&ts) {
            let b = one(by_class(l, "toggle"), "check boxes in a todo")?;
            check!(flag(&b, "checked") == t.done, "the box of {:?} is checked: {}", t.text, flag(&b, "checked"));
            let eds = by_class(l, "edit");
            check!(has(l, "editing") == t.editing.is_some() && eds.len() == t.editing.is_some() as usize, "{:?} is being edited: {}, editors: {}", t.text, has(l, "editing"), eds.len());
            if let (Some(e), Some(s)) = (eds.first(), &t.editing) {
                check!(value(e) == *s, "the editor of {s:?} holds {:?}", value(e));
            }
            // the same elements all along
            match rows.iter().find(|r| r.0 == t.id) {
                Some(r) => check!(std::rc::Rc::ptr_eq(&r.1, l), "the element of {:?} was made anew", t.text),
                None => rows.push((t.id, l.clone())),
            }
        }
        rows.retain(|r| ts.iter().any(|t| t.id == r.0));
        let left = ts.iter().filter(|t| !t.done).count();
        let want = if left == 1 { "1 item left".to_string() } else { format!("{left} items left") };
        check!(text(&count) == want, "the counter reads {:?}, expected {want:?}", text(&count));
        check!(has(&main, "hidden") == ts.is_empty(), "the main part is hidden: {} with {} todos", has(&main, "hidden"), ts.len());
        check!(has(&clear, "hidden") == (left == ts.len()), "the clear button is hidden: {} with {} completed", has(&clear, "hidden"), ts.len() - left);
        if !ts.is_empty() {
            check!(flag(&toggle_all, "checked") == all, "toggle-all is checked: {}, expected {all}", flag(&toggle_all, "checked"));
        }
        for (k, f) in filters.iter().enumerate() {
            check!(has(f, "selected") == (k == filter), "filter {k} is marked as selected: {}", has(f, "selected"));
        }
        cov(|c| c.hit("checks"));
        cov(|c| c.max("todos", ts.len() as u64));
        cov(|c| c.sig(("todo", filter, ts.iter().map(|t| (t.done, t.editing.is_some(), t.id)).collect::<Vec<_>>())));
    }
    m.unmount()
}
