//! Programs around select!: every branch shape, pattern, control flow and number of
//! branches.  In each, `c.c(g, i, value)` is the future of branch `i` of select! number
//! `g`, and the body of that branch starts with `c.b(g, i)`.
#![allow(unused_parens, clippy::all)]
use super::{Child, Ctl, Key, Shape};
use async_ui_web::{html, join, race, select};
use async_ui_web::prelude_traits::*;
use std::future::Future;
use std::pin::{pin, Pin};

/// lower precedence than a block, usable anywhere as an expression
macro_rules! shapes {
    ($($name:ident ($c:ident) [$(($g:literal, $i:literal)),* $(,)?] $body:block => |$bs:ident| $want:expr;)*) => {
        pub fn all() -> Vec<Shape> {
            let mut v: Vec<Shape> = vec![$({
                fn run($c: Ctl) -> super::Fut {
                    Box::pin(async move $body)
                }
                fn expect($bs: &[Key]) -> String {
                    $want
                }
                Shape { name: stringify!($name), run, expect, keys: &[$(($g, $i)),*] }
            }),*];
            v.extend(numbered());
            v
        }
    };
}
fn last(b: &[Key]) -> u32 {
    b.last().unwrap().1
}
#[derive(Debug, Clone, PartialEq)]
struct Pt {
    x: u32,
    y: String,
}
enum Only {
    One(u8, char),
}
async fn named(c: Ctl, g: u32, i: u32) -> u32 {
    c.c(g, i, i * 10).await
}
trait Ext: Future + Sized {
    fn plus(self, n: u32) -> impl Future<Output = u32>
    where
        Self: Future<Output = u32>,
    {
        async move { self.await + n }
    }
}
impl<F: Future> Ext for F {}
macro_rules! make_it {
    ($c:ident, $g:literal, $i:literal) => {
        $c.c($g, $i, 7u32)
    };
}
struct Holder {
    fut: Child<u32>,
    other: u32,
}
/// adds up to select! by reference
async fn use_mut(c: Ctl, g: u32, i: u32, n: &mut Vec<u32>) -> u32 {
    n.push(100 + i);
    c.c(g, i, i).await
}
fn unwrap2<T>(v: T) -> T {
    v
}

shapes! {
    expr_commas(c) [(0, 0), (0, 1), (0, 2)] {
        let v = select! {
            x = c.c(0, 0, 5u32) => (c.b(0, 0), x).1,
            x = c.c(0, 1, 6u32) => (c.b(0, 1), x + 1).1,
            _ = c.c(0, 2, "s") => (c.b(0, 2), 9).1,
        };
        v.to_string()
    } => |b| ["5", "7", "9"][last(b) as usize].into();
    expr_no_last_comma(c) [(0, 0), (0, 1)] {
        select! {
            x = c.c(0, 0, "a") => { c.b(0, 0); x.to_string() },
            x = c.c(0, 1, 'b') => [c.b(0, 1)].map(|_| x.to_string()).concat()
        }
    } => |b| ["a", "b"][last(b) as usize].into();
    blocks_no_commas(c) [(0, 0), (0, 1), (0, 2)] {
        let mut n = 1;
        select! {
            x = c.c(0, 0, 5) => {
                c.b(0, 0);
                n += x;
            }
            _ = c.c(0, 1, ()) => {
                c.b(0, 1);
                n += 50;
            }
            (x, y) = c.c(0, 2, (3, 4)) => {
                c.b(0, 2);
                n += x * y;
            }
        }
        n.to_string()
    } => |b| ["6", "51", "13"][last(b) as usize].into();
    blocks_mixed_commas(c) [(0, 0), (0, 1), (0, 2), (0, 3)] {
        select! {
            _ = c.c(0, 0, ()) => { c.b(0, 0); "0" }
            _ = c.c(0, 1, ()) => { c.b(0, 1); "1" },
            s = c.c(0, 2, "2") => unwrap2((c.b(0, 2), s)).1,
            s = c.c(0, 3, "3") => { c.b(0, 3); let t = s; t }
        }.to_string()
    } => |b| last(b).to_string();
    one_branch_expr(c) [(0, 0)] {
        select! { x = c.c(0, 0, 4u8) => { c.b(0, 0); x.to_string() } }
    } => |_b| "4".into();
    one_branch_bare(c) [(0, 0)] {
        let c2 = c.clone();
        select!(x = c.c(0, 0, move || c2.b(0, 0)) => x());
        "done".into()
    } => |_b| "done".into();
    brackets(c) [(0, 0), (0, 1)] {
        select![
            x = c.c(0, 0, 1) => { c.b(0, 0); format!("{x}") },
            x = c.c(0, 1, 2.5) => { c.b(0, 1); format!("{x:?}") },
        ]
    } => |b| ["1", "2.5"][last(b) as usize].into();
    control_expressions(c) [(0, 0), (0, 1), (0, 2), (0, 3), (0, 4)] {
        let r: u32 = select! {
            x = c.c(0, 0, 1) => if { c.b(0, 0); x > 0 } { 10 } else { 20 },
            x = c.c(0, 1, 2u32) => match { c.b(0, 1); x } { 2 => 30, _ => 40 },
            x = c.c(0, 2, 3u32) => loop { c.b(0, 2); break x * 20 },
            x = c.c(0, 3, 3u32) => unsafe { c.b(0, 3); std::mem::transmute::<u32, u32>(x) },
            x = c.c(0, 4, 3u32) => async { c.b(0, 4); x + 1 }.await,
        };
        r.to_string()
    } => |b| ["10", "30", "60", "3", "4"][last(b) as usize].into();
    control_expressions_no_commas(c) [(0, 0), (0, 1), (0, 2)] {
        let mut r = 0;
        select! {
            x = c.c(0, 0, 1) => { if { c.b(0, 0); x > 0 } { r = 10 } else { r = 20 } }
            x = c.c(0, 1, 2u32) => { match { c.b(0, 1); x } { 2 => r = 30, _ => r = 40 } }
            mut x = c.c(0, 2, 3u32) => { c.b(0, 2); while x > 0 { x -= 1; r += 1 } }
        }
        r.to_string()
    } => |b| ["10", "30", "3"][last(b) as usize].into();
    assignments(c) [(0, 0), (0, 1), (0, 2)] {
        let (mut n, mut s, mut a) = (1, String::new(), [0, 0]);
        select! {
            x = c.c(0, 0, (c.clone(), 5)) => n += { x.0.b(0, 0); x.1 },
            x = c.c(0, 1, "word") => s = { c.b(0, 1); x.to_string() },
            x = c.c(0, 2, 1usize) => a[{ c.b(0, 2); x }] = 4,
        }
        format!("{n}{s}{a:?}")
    } => |b| ["6[0, 0]", "1word[0, 0]", "1[0, 4]"][last(b) as usize].into();
    structs_and_macros(c) [(0, 0), (0, 1), (0, 2), (0, 3)] {
        let p: Pt = select! {
            x = c.c(0, 0, 5) => Pt { x: { c.b(0, 0); x }, y: "a".into() },
            p = c.c(0, 1, Pt { x: 1, y: "b".into() }) => { c.b(0, 1); Pt { y: "q".into(), ..p } }
            Pt { x, .. } = c.c(0, 2, Pt { x: 8, y: "b".into() }) => Pt { x: x + { c.b(0, 2); 1 }, y: format!("z") },
            Pt { x: n @ 0..=u32::MAX, y: ref s } = c.c(0, 3, Pt { x: 8, y: "b".into() }) => { c.b(0, 3); Pt { x: n, y: s.repeat(2) } },
        };
        format!("{}{}", p.x, p.y)
    } => |b| ["5a", "1q", "9z", "8bb"][last(b) as usize].into();
    patterns(c) [(0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7)] {
        select! {
            ((a, b), [x, .., y]) = c.c(0, 0, ((1, 'c'), [7, 8, 9])) => { c.b(0, 0); format!("{a}{b}{x}{y}") },
            mut v = c.c(0, 1, vec![1, 2]) => { c.b(0, 1); v.push(3); format!("{v:?}") },
            Only::One(a, b) = c.c(0, 2, Only::One(3, 'z')) => { c.b(0, 2); format!("{a}{b}") },
            whole @ (_, n) = c.c(0, 3, (1, 2)) => { c.b(0, 3); format!("{whole:?}{n}") },
            &n = c.c(0, 4, &5) => { c.b(0, 4); format!("{n}") },
            (ref s, _) = c.c(0, 5, (String::from("own"), 1)) => { c.b(0, 5); s.clone() },
            () = c.c(0, 6, ()) => { c.b(0, 6); String::from("unit") },
            (Ok(n) | Err(n)) = c.c(0, 7, Err::<i32, i32>(8)) => { c.b(0, 7); format!("{n}") },
        }
    } => |b| ["1c79", "[1, 2, 3]", "3z", "(1, 2)2", "5", "own", "unit", "8"][last(b) as usize].into();
    results_of_many_types(c) [(0, 0), (0, 1), (0, 2), (0, 3), (0, 4)] {
        select! {
            r = c.c(0, 0, Ok::<u8, String>(1)) => { c.b(0, 0); format!("{r:?}") }
            r = c.c(0, 1, Some(Box::new(3))) => { c.b(0, 1); format!("{r:?}") }
            r = c.c(0, 2, Box::new(4) as Box<dyn std::fmt::Debug>) => { c.b(0, 2); format!("{r:?}") }
            r = c.c(0, 3, [0u8; 300]) => { c.b(0, 3); format!("{}", r.len()) }
            r = c.c(0, 4, (|| 6) as fn() -> i32) => { c.b(0, 4); format!("{}", r()) }
        }
    } => |b| ["Ok(1)", "Some(3)", "4", "300", "6"][last(b) as usize].into();
    from_return(c) [(0, 0), (0, 1)] {
        let n = select! {
            n = c.c(0, 0, 2) => { c.b(0, 0); n }
            _ = c.c(0, 1, ()) => { c.b(0, 1); return "returned".into() }
        };
        format!("fell {n}")
    } => |b| ["fell 2", "returned"][last(b) as usize].into();
    bare_return(c) [(0, 0), (0, 1)] {
        let n = select! {
            s = c.c(0, 0, (c.clone(), String::from("r"))) => return { s.0.b(0, 0); s.1 },
            n = c.c(0, 1, 2) => { c.b(0, 1); n }
        };
        format!("fell {n}")
    } => |b| ["r", "fell 2"][last(b) as usize].into();
    question_mark(c) [(0, 0), (0, 1), (0, 2)] {
        async fn inner(c: Ctl) -> Result<u32, String> {
            let n = select! {
                r = c.c(0, 0, Ok::<u32, String>(1)) => { c.b(0, 0); r? + 1 }
                r = c.c(0, 1, Err::<u32, &str>("bad")) => { c.b(0, 1); r? }
                r = c.c(0, 2, (c.clone(), Ok::<u32, String>(7))) => (r.0.b(0, 2), r.1?).1,
            };
            Ok(n * 10)
        }
        format!("{:?}", inner(c).await)
    } => |b| ["Ok(20)", "Err(\"bad\")", "Ok(70)"][last(b) as usize].into();
    loops(c) [(0, 0), (0, 1), (0, 2), (0, 3)] {
        let mut out = String::new();
        let mut n = 0;
        let word = loop {
            n += 1;
            if n > 6 {
                break "many";
            }
            out.push('.');
            select! {
                _ = c.c(0, 0, ()) => { c.b(0, 0); out.push('a'); }
                _ = c.c(0, 1, ()) => { c.b(0, 1); out.push('b'); continue }
                w = c.c(0, 2, "broke") => { c.b(0, 2); break w }
                x = c.c(0, 3, (c.clone(), 'd')) => out.push({ x.0.b(0, 3); x.1 }),
            }
            out.push('_');
        };
        out + word
    } => |b| {
        let mut out = String::new();
        for k in b {
            out.push_str([".a_", ".b", ".", ".d_"][k.1 as usize]);
            if k.1 == 2 {
                return out + "broke";
            }
        }
        out + "many"
    };
    labels(c) [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2)] {
        let mut out = String::new();
        'a: for i in 0..3 {
            'b: for j in 0..2 {
                out.push_str(&format!("{i}{j}"));
                select! {
                    _ = c.c(0, 0, ()) => { c.b(0, 0); }
                    _ = c.c(0, 1, ()) => { c.b(0, 1); continue 'a }
                }
                select! {
                    _ = c.c(1, 0, ()) => { c.b(1, 0); break 'a; }
                    _ = c.c(1, 1, ()) => { c.b(1, 1); break 'b; }
                    _ = c.c(1, 2, ()) => { c.b(1, 2); continue 'b; }
                }
            }
            out.push(';');
        }
        out
    } => |b| {
        let mut it = b.iter();
        let mut out = String::new();
        'a: for i in 0..3 {
            'b: for j in 0..2 {
                out.push_str(&format!("{i}{j}"));
                if it.next() == Some(&(0, 1)) {
                    continue 'a;
                }
                match it.next() {
                    Some((1, 0)) => break 'a,
                    Some((1, 1)) => break 'b,
                    _ => {}
                }
            }
            out.push(';');
        }
        out
    };
    block_labels(c) [(0, 0), (0, 1)] {
        let v = 'out: {
            select! {
                n = c.c(0, 0, 5) => { c.b(0, 0); break 'out n }
                _ = c.c(0, 1, ()) => c.b(0, 1),
            }
            77
        };
        v.to_string()
    } => |b| ["5", "77"][last(b) as usize].into();
    await_in_body(c) [(0, 0), (0, 1), (1, 0), (2, 0), (2, 1)] {
        select! {
            n = c.c(0, 0, 5) => {
                c.b(0, 0);
                n + c.c(1, 0, 100).await
            }
            n = c.c(0, 1, 6) => {
                c.b(0, 1);
                select! {
                    m = c.c(2, 0, 7) => { c.b(2, 0); n * m }
                    m = c.c(2, 1, 8) => { c.b(2, 1); n * m }
                }
            }
        }.to_string()
    } => |b| match last(b) {
        _ if b[0].1 == 0 => "105".into(),
        0 => "42".into(),
        _ => "48".into(),
    };
    nested_in_future(c) [(1, 0), (1, 1), (2, 0), (2, 1), (0, 2)] {
        let c2 = c.clone();
        let r = select! {
            s = async { select! {
                n = c2.c(1, 0, 1) => { c2.b(1, 0); format!("x{n}") }
                n = c2.c(1, 1, 2) => { c2.b(1, 1); format!("x{n}") }
            } } => { s }
            s = async { select! {
                n = c.c(2, 0, 3) => { c.b(2, 0); format!("y{n}") },
                n = c.c(2, 1, 4) => { c.b(2, 1); format!("y{n}") },
            } } => s,
            n = c.c(0, 2, 5) => format!("z{n}"),
        };
        r
    } => |b| match b.last() {
        None => "z5".into(),
        Some((1, i)) => format!("x{}", i + 1),
        Some((_, i)) => format!("y{}", i + 3),
    };
    captures(c) [(0, 0), (0, 1), (0, 2)] {
        // what the futures borrowed is free again in the bodies
        let mut log = vec![1u32];
        let mut other = vec![0u32];
        let shared = String::from("shared");
        select! {
            n = use_mut(c.clone(), 0, 0, &mut log) => { c.b(0, 0); log.push(n); other.push(9); }
            n = use_mut(c.clone(), 0, 1, &mut other) => { c.b(0, 1); log.push(n); other.push(n); drop(shared); }
            n = async { c.c(0, 2, shared.len() as u32).await } => { c.b(0, 2); log.push(n); other = vec![]; let _s: String = shared; }
        }
        let _ = other;
        format!("{}", log.last().unwrap())
    } => |b| match last(b) {
        2 => "6".into(),
        n => n.to_string(),
    };
    by_reference(c) [(0, 0), (0, 1), (0, 2), (0, 3)] {
        // futures kept by the program and lent to the select!
        let mut a = c.own(0, 0, 1u32);
        let mut boxed = Box::pin(c.own(0, 1, 2u32));
        let mut pinned = pin!(c.own(0, 2, 3u32));
        let mut h = Holder { fut: c.own(0, 3, 4u32), other: 5 };
        let n = select! {
            n = &mut a => { c.b(0, 0); n }
            n = &mut boxed => { c.b(0, 1); n }
            n = pinned.as_mut() => { c.b(0, 2); n }
            n = &mut h.fut => { c.b(0, 3); n + h.other }
        };
        drop((a, boxed, h));
        n.to_string()
    } => |b| ["1", "2", "3", "9"][last(b) as usize].into();
    lent_in_a_loop(c) [(0, 0), (0, 1), (0, 2)] {
        let mut a = c.own(0, 0, 'a');
        let mut b = c.own(0, 1, 'b');
        let (mut left_a, mut left_b) = (true, true);
        let mut out = String::new();
        while left_a || left_b {
            if left_a && left_b {
                select! {
                    x = &mut a => { c.b(0, 0); out.push(x); left_a = false; }
                    x = &mut b => { c.b(0, 1); out.push(x); left_b = false; }
                }
            } else if left_a {
                select! { x = &mut a => { c.b(0, 0); out.push(x); left_a = false; } }
            } else {
                select! { x = &mut b => { c.b(0, 1); out.push(x); left_b = false; } }
            }
        }
        out
    } => |b| b.iter().map(|k| ['a', 'b'][k.1 as usize]).collect();
    future_expressions(c) [(0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7), (0, 8), (0, 9), (0, 10), (0, 11)] {
        let var = c.c(0, 0, 1u32);
        let f = |n: u32| named(c.clone(), 0, n);
        let h = Holder { fut: c.c(0, 5, 50), other: 0 };
        let boxed: Pin<Box<dyn Future<Output = u32>>> = Box::pin(named(c.clone(), 0, 6));
        let yes = h.other == 0;
        let n = select! {
            n = var => { c.b(0, 0); n }
            n = named(c.clone(), 0, 1) => { c.b(0, 1); n }
            n = f(2) => { c.b(0, 2); n }
            n = make_it!(c, 0, 3) => { c.b(0, 3); n }
            n = (c.c(0, 4, 40u32)) => { c.b(0, 4); n }
            n = h.fut => { c.b(0, 5); n }
            n = boxed => { c.b(0, 6); n }
            n = async { c.c(0, 7, 1u32).await + 69 } => { c.b(0, 7); n }
            n = c.c(0, 8, 8u32).plus(1).plus(2) => { c.b(0, 8); n }
            n = if yes { c.c(0, 9, 90u32) } else { c.c(9, 9, 0) } => { c.b(0, 9); n }
            n = match yes { true => c.c(0, 10, 100u32), false => c.c(9, 9, 0) } => { c.b(0, 10); n }
            n = { let x = 109; let y = c.c(0, 11, x + 1u32); y } => { c.b(0, 11); n }
        };
        n.to_string()
    } => |b| ["1", "10", "20", "7", "40", "50", "60", "70", "11", "90", "100", "110"][last(b) as usize].into();
    tail_and_argument(c) [(0, 0), (0, 1), (1, 0), (1, 1)] {
        let a = unwrap2(select! {
            n = c.c(0, 0, 1) => { c.b(0, 0); n }
            n = c.c(0, 1, 2) => { c.b(0, 1); n }
        }) + select! {
            n = c.c(1, 0, 10) => { c.b(1, 0); n }
            n = c.c(1, 1, 20) => { c.b(1, 1); n }
        };
        a.to_string()
    } => |b| (b[0].1 + 1 + (b[1].1 + 1) * 10).to_string();
    in_closures(c) [(0, 0), (0, 1)] {
        let go = |k: u32| {
            let c = c.clone();
            async move {
                select! {
                    n = c.c(0, 0, k) => { c.b(0, 0); n }
                    n = c.c(0, 1, k + 1) => { c.b(0, 1); n }
                }
            }
        };
        go(4).await.to_string()
    } => |b| ["4", "5"][last(b) as usize].into();
    with_ui(c) [(0, 0), (0, 1), (0, 2)] {
        let d = html::Div::new();
        let n = select! {
            n = d.render(c.c(0, 0, 1)) => { c.b(0, 0); n }
            n = async { join((c.c(0, 1, 2), html::Span::new().render(async {}))).await.0 } => { c.b(0, 1); n }
            n = race((c.c(0, 2, 3), "text<0,".render().pipe_never())) => { c.b(0, 2); n }
        };
        n.to_string()
    } => |b| (last(b) + 1).to_string();
    values_dropped_once(c) [(0, 0), (0, 1)] {
        use std::rc::Rc;
        let r = Rc::new(());
        let (a, b) = (r.clone(), r.clone());
        let n = select! {
            x = c.c(0, 0, a) => { c.b(0, 0); Rc::strong_count(&x) }
            _ = c.c(0, 1, b) => { c.b(0, 1); Rc::strong_count(&r) + 10 }
        };
        format!("{n} {}", Rc::strong_count(&r))
    } => |b| ["2 1", "12 1"][last(b) as usize].into();
    one_after_another(c) [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)] {
        let mut out = String::new();
        select! {
            _ = c.c(0, 0, ()) => { c.b(0, 0); out.push('a') }
            _ = c.c(0, 1, ()) => { c.b(0, 1); out.push('b') }
        }
        select! {
            _ = c.c(1, 0, ()) => { c.b(1, 0); out.push('a') }
            _ = c.c(1, 1, ()) => { c.b(1, 1); out.push('b') }
        }
        select! {
            _ = c.c(2, 0, ()) => { c.b(2, 0); out.push('a') }
            _ = c.c(2, 1, ()) => { c.b(2, 1); out.push('b') }
        }
        out
    } => |b| b.iter().map(|k| ['a', 'b'][k.1 as usize]).collect();
    two_at_once(c) [(0, 0), (0, 1), (1, 0), (1, 1)] {
        let (a, b) = join((
            async { select! {
                n = c.c(0, 0, 1) => { c.b(0, 0); n }
                n = c.c(0, 1, 2) => { c.b(0, 1); n }
            } },
            async { select! {
                n = c.c(1, 0, 10) => { c.b(1, 0); n }
                n = c.c(1, 1, 20) => { c.b(1, 1); n }
            } },
        )).await;
        (a + b).to_string()
    } => |b| b.iter().map(|k| (k.1 + 1) * if k.0 == 0 { 1 } else { 10 }).sum::<u32>().to_string();
}
trait PipeNever: Future + Sized {
    fn pipe_never(self) -> impl Future<Output = i32> {
        async move {
            self.await;
            unreachable!()
        }
    }
}
impl<F: Future> PipeNever for F {}

macro_rules! numbered {
    ($($name:ident: $($i:literal)*;)*) => {
        fn numbered() -> Vec<Shape> {
            vec![$({
                fn run(c: Ctl) -> super::Fut {
                    Box::pin(async move {
                        let mut sum = 0u32;
                        for _ in 0..2 {
                            sum += select! {
                                $(v = c.c(0, $i, [$i as u16; $i + 1]) => {
                                    c.b(0, $i);
                                    v.iter().map(|x| *x as u32).sum::<u32>() + v.len() as u32
                                })*
                            };
                        }
                        sum.to_string()
                    })
                }
                fn expect(b: &[Key]) -> String {
                    b.iter().map(|k| k.1 * (k.1 + 1) + k.1 + 1).sum::<u32>().to_string()
                }
                Shape { name: stringify!($name), run, expect, keys: &[$((0, $i)),*] }
            }),*]
        }
    };
}
numbered! {
    n2: 0 1;
    n3: 0 1 2;
    n4: 0 1 2 3;
    n5: 0 1 2 3 4;
    n6: 0 1 2 3 4 5;
    n7: 0 1 2 3 4 5 6;
    n8: 0 1 2 3 4 5 6 7;
    n9: 0 1 2 3 4 5 6 7 8;
    n10: 0 1 2 3 4 5 6 7 8 9;
    n11: 0 1 2 3 4 5 6 7 8 9 10;
    n12: 0 1 2 3 4 5 6 7 8 9 10 11;
}
