//! Shared driver: runs generated cases of one property in worker processes, watches
//! for oracle failures, panics and crashes, and reports what was observed.
//!
//! Verdicts are three-valued: `violations` (an oracle fired, or the code under test
//! panicked / crashed), `errors` (the harness or the simulated browser could not give an
//! answer), or clean. The Python front end turns these into exit codes.
#![allow(dead_code)]
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ rng
#[derive(Clone, Debug)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0xD1B54A32D192ED03))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

// ------------------------------------------------------------------ coverage + trace
#[derive(Default, Clone)]
pub struct Cov {
    pub counters: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
}
const MAX_SIGS: usize = 400_000;
impl Cov {
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn hit(&mut self, name: &str) {
        self.add(name, 1)
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let name = format!("max:{name}");
        let e = self.counters.entry(name).or_insert(0);
        *e = (*e).max(n);
    }
    /// record a distinct observed situation
    pub fn sig<H: Hash>(&mut self, h: H) {
        if self.sigs.len() < MAX_SIGS {
            let mut s = std::collections::hash_map::DefaultHasher::new();
            h.hash(&mut s);
            self.sigs.insert(s.finish());
        }
    }
}
thread_local! {
    static TRACE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static COV: RefCell<Cov> = RefCell::new(Cov::default());
    static PANICS: RefCell<Vec<(String, String)>> = const { RefCell::new(Vec::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
pub fn trace(s: String) {
    static LIVE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    if *LIVE.get_or_init(|| std::env::var_os("VERIF_TRACE_LIVE").is_some()) {
        eprintln!("trace: {s}");
    }
    TRACE.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() < 4000 {
            t.push(s)
        }
    })
}
#[macro_export]
macro_rules! tr {
    ($($a:tt)*) => { $crate::driver::trace(format!($($a)*)) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub fn cov<R>(f: impl FnOnce(&mut Cov) -> R) -> R {
    COV.with(|c| f(&mut c.borrow_mut()))
}
pub fn panics_so_far() -> usize {
    PANICS.with(|p| p.borrow().len())
}
/// panics recorded on this thread (message, location) since the case began
pub fn recorded_panics() -> Vec<(String, String)> {
    PANICS.with(|p| p.borrow().clone())
}
/// a deliberate panic raised by a harness future; never a finding by itself
pub struct Deliberate(pub u64);

// ------------------------------------------------------------------ properties
pub type CaseResult = Result<(), String>;
pub struct Cx {
    pub rng: Rng,
    pub seed: u64,
    /// grows from 0 to 100 over a run: small cases first
    pub size: usize,
    pub thorough: bool,
}
impl Cx {
    pub fn scaled(&mut self, lo: usize, hi: usize) -> usize {
        let top = lo + (hi - lo) * self.size / 100;
        self.rng.range(lo, top.max(lo))
    }
}
pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Cx) -> CaseResult,
    /// directed scenarios, run before the generated cases
    pub directed: &'static [(&'static str, fn(&mut Cx) -> CaseResult)],
    pub quick: u64,
    pub thorough: u64,
}

#[derive(Debug, Clone)]
enum Verdict {
    Ok,
    Violation(String),
    Error(String),
}

fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if p.is::<Deliberate>() {
        "deliberate panic of a harness future".into()
    } else {
        "non-string panic payload".into()
    }
}
fn is_harness_trouble(msg: &str) -> bool {
    msg.contains("FAKEDOM-UNSUPPORTED") || msg.contains("HARNESS:")
}

struct Job<'a> {
    prop: &'a Prop,
    base: u64,
    total: u64,
    thorough: bool,
}
impl Job<'_> {
    fn seed_of(&self, ix: u64) -> u64 {
        let mut h = 0u64;
        for b in self.prop.id.bytes() {
            h = mix(h ^ b as u64);
        }
        mix(self.base ^ mix(h ^ ix.wrapping_mul(0x2545F4914F6CDD1D)))
    }
    fn run_case(&self, ix: u64, file: Option<&std::fs::File>) -> (Verdict, Vec<String>, Cov) {
        let nd = self.prop.directed.len() as u64;
        let seed = self.seed_of(ix);
        let size = if self.total <= nd {
            100
        } else {
            // ramp up over the first 60 % of the run, then stay at full size
            ((ix.saturating_sub(nd)) * 100 / ((self.total - nd) * 6 / 10).max(1)).min(100) as usize
        };
        let thorough = self.thorough;
        let run = self.prop.run;
        let directed = self.prop.directed;
        let file = file.map(|f| f.try_clone().unwrap());
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                if let Some(f) = file {
                    PANIC_FILE.with(|p| *p.borrow_mut() = Some(f));
                }
                let mut cx = Cx {
                    rng: Rng::new(seed),
                    seed,
                    size,
                    thorough,
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if ix < nd {
                        let (name, f) = directed[ix as usize];
                        trace(format!("directed scenario: {name}"));
                        cov(|c| c.hit(&format!("directed:{name}")));
                        f(&mut cx).map_err(|e| format!("[{name}] {e}"))
                    } else {
                        run(&mut cx)
                    }
                }));
                let panics = recorded_panics();
                let v = match r {
                    Ok(Ok(())) => match panics.iter().find(|p| is_harness_trouble(&p.0)) {
                        Some(p) => Verdict::Error(p.0.clone()),
                        None => Verdict::Ok,
                    },
                    Ok(Err(e)) => match panics.iter().find(|p| is_harness_trouble(&p.0)) {
                        Some(p) => Verdict::Error(p.0.clone()),
                        None if is_harness_trouble(&e) => Verdict::Error(e),
                        None => {
                            let mut e = e;
                            if let Some(p) = panics.first() {
                                e.push_str(&format!(" [panic seen: {} at {}]", p.0, p.1));
                            }
                            Verdict::Violation(e)
                        }
                    },
                    Err(p) => {
                        let m = payload_str(&*p);
                        let first = panics
                            .iter()
                            .map(|(m, l)| format!("{m} at {l}"))
                            .take(3)
                            .collect::<Vec<_>>()
                            .join(" ; then ");
                        if panics.iter().any(|p| is_harness_trouble(&p.0)) || is_harness_trouble(&m) {
                            Verdict::Error(format!("{m} ({first})"))
                        } else {
                            Verdict::Violation(format!("unexpected panic: {first}"))
                        }
                    }
                };
                let t = TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()));
                let c = COV.with(|t| std::mem::take(&mut *t.borrow_mut()));
                (v, t, c)
            })
            .unwrap();
        match h.join() {
            Ok(x) => x,
            // a panic outside catch_unwind: thread-local destructors
            Err(p) => (
                Verdict::Error(format!("HARNESS: case thread died: {}", payload_str(&*p))),
                vec![],
                Cov::default(),
            ),
        }
    }
}
thread_local! {
    static PANIC_FILE: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
}
fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let deliberate = info.payload().is::<Deliberate>();
        let _ = PANIC_FILE.try_with(|f| {
            if let Ok(f) = f.try_borrow() {
                if let Some(f) = f.as_ref() {
                    if !deliberate {
                        let line = format!("{msg} at {loc}\n");
                        let pos = f.metadata().map(|m| m.len().max(64)).unwrap_or(64);
                        if pos < 4096 {
                            let _ = f.write_at(line.as_bytes(), pos);
                        }
                    }
                }
            }
        });
        if std::env::var_os("VERIF_SHOW_PANICS").is_some() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if !deliberate {
            let _ = PANICS.try_with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    p.push((msg, loc))
                }
            });
        }
    }));
}

// ------------------------------------------------------------------ result files
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

pub fn main(props: &[Prop]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
    };
    let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    };
    install_hook();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let total = num("--cases", if thorough { prop.thorough } else { prop.quick });
    let job = Job {
        prop,
        base: num("--seed", 1),
        total,
        thorough,
    };
    if let Some(ix) = get("--one") {
        // replay one case and print what happened
        let ix: u64 = ix.parse().unwrap();
        let (v, t, _) = job.run_case(ix, None);
        for l in t {
            println!("  {l}");
        }
        match v {
            Verdict::Ok => {
                println!("OK");
                std::process::exit(0)
            }
            Verdict::Violation(m) => {
                println!("VIOLATED {m}");
                std::process::exit(1)
            }
            Verdict::Error(m) => {
                println!("ERROR {m}");
                std::process::exit(2)
            }
        }
    }
    if let Some(out) = get("--inline") {
        // single process, no workers (Miri)
        run_inline(&job, num("--from", 0), total, num("--secs", 1_000_000), &out);
    }
    if get("--worker").is_some() {
        worker(&job, &args);
    }
    parent(&job, &args);
}

fn run_inline(job: &Job, from: u64, total: u64, secs: u64, out: &str) -> ! {
    let start = Instant::now();
    let mut sum = Cov::default();
    let mut done = 0;
    let mut viol = None;
    let mut err = None;
    for ix in from..total {
        if start.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let (v, t, c) = job.run_case(ix, None);
        done += 1;
        merge(&mut sum, c);
        match v {
            Verdict::Ok => {}
            Verdict::Violation(m) => {
                viol = Some((ix, m, t));
                break;
            }
            Verdict::Error(m) => {
                err = Some(format!("case {ix}: {m}"));
                break;
            }
        }
    }
    let s = format!(
        "{}\n",
        result_json(job, done, &sum, viol.into_iter().collect(), err.into_iter().collect(), start)
    );
    if out == "-" {
        println!("RESULT {s}");
    } else {
        std::fs::write(out, s).unwrap();
    }
    std::process::exit(0)
}
fn merge(a: &mut Cov, b: Cov) {
    for (k, v) in b.counters {
        let e = a.counters.entry(k.clone()).or_insert(0);
        if k.starts_with("max:") {
            *e = (*e).max(v)
        } else {
            *e += v
        }
    }
    if a.sigs.len() < MAX_SIGS {
        a.sigs.extend(b.sigs);
    }
    for s in b.samples {
        if a.samples.len() < 6 {
            a.samples.push(s)
        }
    }
    a.known.extend(b.known);
}
fn result_json(
    job: &Job,
    done: u64,
    sum: &Cov,
    viol: Vec<(u64, String, Vec<String>)>,
    errs: Vec<String>,
    start: Instant,
) -> String {
    let v = viol
        .iter()
        .map(|(ix, m, t)| {
            format!(
                "{{\"case\":{ix},\"case_seed\":{},\"message\":{},\"trace\":{}}}",
                job.seed_of(*ix),
                esc(m),
                strs(t)
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    let counters = sum
        .counters
        .iter()
        .map(|(k, v)| format!("{}:{v}", esc(k)))
        .collect::<Vec<_>>()
        .join(",");
    let known = sum
        .known
        .iter()
        .map(|(k, v)| format!("{}:{}", esc(k), esc(v)))
        .collect::<Vec<_>>()
        .join(",");
    format!(
        "{{\"property\":{},\"cases\":{done},\"planned\":{},\"base_seed\":{},\"distinct\":{},\"counters\":{{{counters}}},\"samples\":{},\"known\":{{{known}}},\"violations\":[{v}],\"errors\":{},\"wall_s\":{:.2}}}",
        esc(job.prop.id),
        job.total,
        job.base,
        sum.sigs.len(),
        strs(&sum.samples),
        strs(&errs),
        start.elapsed().as_secs_f64()
    )
}

// ------------------------------------------------------------------ worker
// cur file: bytes 0..8 current case index, from byte 64 on the panic messages
fn worker(job: &Job, args: &[String]) -> ! {
    let get = |k: &str| -> String {
        let i = args.iter().position(|a| a == k).unwrap();
        args[i + 1].clone()
    };
    let from: u64 = get("--from").parse().unwrap();
    let step: u64 = get("--step").parse().unwrap();
    let until: u64 = get("--until").parse().unwrap();
    let secs: f64 = get("--secs").parse().unwrap();
    let out = get("--out");
    let cur = std::fs::OpenOptions::new()
        .create(true)
        .read(true)
        .write(true)
        .truncate(true)
        .open(get("--cur"))
        .unwrap();
    let start = Instant::now();
    let mut sum = Cov::default();
    let mut done = 0u64;
    let mut ix = from;
    let mut tail = String::new();
    while ix < until && start.elapsed().as_secs_f64() < secs {
        cur.set_len(64).unwrap();
        cur.write_at(&ix.to_le_bytes(), 0).unwrap();
        let (v, t, c) = job.run_case(ix, Some(&cur));
        done += 1;
        if sum.samples.len() < 2 && (done == 3 || (done > 20 && t.len() > 8)) {
            let mut s = t.iter().take(14).cloned().collect::<Vec<_>>().join(" | ");
            if t.len() > 14 {
                s.push_str(&format!(" | ... {} more", t.len() - 14));
            }
            s.truncate(s.char_indices().nth(1200).map(|x| x.0).unwrap_or(s.len()));
            sum.samples.push(format!("case {ix}: {s}"));
        }
        merge(&mut sum, c);
        match v {
            Verdict::Ok => {}
            Verdict::Violation(m) => {
                tail = format!("V\t{ix}\t{}\t{}\n", enc(&m), enc(&t.join("\n")));
                break;
            }
            Verdict::Error(m) => {
                tail = format!("E\t{}\n", enc(&format!("case {ix}: {m}")));
                break;
            }
        }
        ix += step;
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    writeln!(f, "D\t{done}\t{ix}").unwrap();
    for (k, v) in &sum.counters {
        writeln!(f, "C\t{}\t{v}", enc(k)).unwrap();
    }
    for s in &sum.sigs {
        writeln!(f, "S\t{s}").unwrap();
    }
    for s in &sum.samples {
        writeln!(f, "X\t{}", enc(s)).unwrap();
    }
    for (k, s) in &sum.known {
        writeln!(f, "K\t{}\t{}", enc(k), enc(s)).unwrap();
    }
    f.write_all(tail.as_bytes()).unwrap();
    writeln!(f, "END").unwrap();
    f.flush().unwrap();
    drop(f);
    // skip thread-local and static destructors
    unsafe { libc_exit(0) }
}
extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}
fn enc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n")
}
fn dec(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => o.push('\t'),
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

// ------------------------------------------------------------------ parent
struct Slot {
    child: std::process::Child,
    out: String,
    cur: String,
    err: String,
    from: u64,
    until: u64,
    last_ix: u64,
    last_change: Instant,
}
fn parent(job: &Job, args: &[String]) -> ! {
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
    };
    let start = Instant::now();
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let jobs: u64 = get("--jobs")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4));
    let scratch = get("--scratch").unwrap_or_else(|| format!("/tmp/verif-drv-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let out = get("--result").unwrap_or_else(|| "-".into());
    let exe = std::env::current_exe().unwrap();
    // chunks: each worker process handles a bounded number of cases (leaked executors
    // of finished case threads go away with the process)
    let chunk = num_chunk(job.total, jobs);
    let mut queue: Vec<(u64, u64, u64)> = vec![];
    {
        // interleave so that every worker sees small and large cases
        let per = jobs * chunk;
        let mut base = 0;
        while base < job.total {
            let top = (base + per).min(job.total);
            for j in 0..jobs {
                if base + j < top {
                    queue.push((base + j, jobs, top));
                }
            }
            base = top;
        }
        queue.reverse();
    }
    let mut slots: Vec<Option<Slot>> = (0..jobs).map(|_| None).collect();
    let mut sum = Cov::default();
    let mut done = 0u64;
    let mut viol: Vec<(u64, String, Vec<String>)> = vec![];
    let mut errs: Vec<String> = vec![];
    let mut n = 0;
    let mut stop = false;
    loop {
        let mut busy = false;
        for s in slots.iter_mut() {
            if s.is_none() && !stop && start.elapsed().as_secs_f64() < secs {
                if let Some((from, step, until)) = queue.pop() {
                    n += 1;
                    let (o, c, e) = (
                        format!("{scratch}/out{n}"),
                        format!("{scratch}/cur{n}"),
                        format!("{scratch}/err{n}"),
                    );
                    let left = (secs - start.elapsed().as_secs_f64()).max(1.0);
                    let child = std::process::Command::new(&exe)
                        .args([job.prop.id, "--worker", "1"])
                        .args(["--tier", if job.thorough { "thorough" } else { "quick" }])
                        .args(["--cases", &job.total.to_string()])
                        .args(["--seed", &job.base.to_string()])
                        .args(["--from", &from.to_string(), "--step", &step.to_string()])
                        .args(["--until", &until.to_string(), "--secs", &left.to_string()])
                        .args(["--out", &o, "--cur", &c])
                        .stdout(std::process::Stdio::null())
                        .stderr(std::fs::File::create(&e).unwrap())
                        .spawn()
                        .unwrap();
                    *s = Some(Slot {
                        child,
                        out: o,
                        cur: c,
                        err: e,
                        from,
                        until,
                        last_ix: u64::MAX,
                        last_change: Instant::now(),
                    });
                }
            }
            if let Some(sl) = s {
                busy = true;
                match sl.child.try_wait().unwrap() {
                    None => {
                        let ix = read_cur(&sl.cur).0;
                        if ix != sl.last_ix {
                            sl.last_ix = ix;
                            sl.last_change = Instant::now();
                        } else if sl.last_change.elapsed() > Duration::from_secs(150) {
                            let _ = sl.child.kill();
                            let _ = sl.child.wait();
                            errs.push(format!("case {ix} did not finish within 150 s (no verdict)"));
                            stop = true;
                            *s = None;
                        }
                    }
                    Some(status) => {
                        let body = std::fs::read_to_string(&sl.out).unwrap_or_default();
                        if body.ends_with("END\n") {
                            for l in body.lines() {
                                let f: Vec<&str> = l.split('\t').collect();
                                match f[0] {
                                    "D" => done += f[1].parse::<u64>().unwrap(),
                                    "C" => {
                                        let k = dec(f[1]);
                                        let v: u64 = f[2].parse().unwrap();
                                        let mut c = Cov::default();
                                        c.counters.insert(k, v);
                                        merge(&mut sum, c);
                                    }
                                    "S" => {
                                        if sum.sigs.len() < MAX_SIGS {
                                            sum.sigs.insert(f[1].parse().unwrap());
                                        }
                                    }
                                    "X" => {
                                        if sum.samples.len() < 6 {
                                            sum.samples.push(dec(f[1]))
                                        }
                                    }
                                    "K" => {
                                        sum.known.insert(dec(f[1]), dec(f[2]));
                                    }
                                    "V" => {
                                        viol.push((
                                            f[1].parse().unwrap(),
                                            dec(f[2]),
                                            dec(f[3]).lines().map(|s| s.to_string()).collect(),
                                        ));
                                        stop = true;
                                    }
                                    "E" => {
                                        errs.push(dec(f[1]));
                                        stop = true;
                                    }
                                    _ => {}
                                }
                            }
                        } else {
                            use std::os::unix::process::ExitStatusExt;
                            let (ix, panics) = read_cur(&sl.cur);
                            let stderr = std::fs::read_to_string(&sl.err).unwrap_or_default();
                            let tail: String = stderr.chars().rev().take(3000).collect::<Vec<_>>().into_iter().rev().collect();
                            let sig = status.signal();
                            let msg = format!(
                                "the process died ({}) in case {ix}; panics before: {}; stderr: {}",
                                match sig {
                                    Some(s) => format!("signal {s}"),
                                    None => format!("exit {:?}", status.code()),
                                },
                                panics.trim(),
                                tail.trim()
                            );
                            if is_harness_trouble(&msg)
                                || sig == Some(9)
                                || ix == u64::MAX
                                || tail.contains("memory allocation of")
                            {
                                errs.push(msg);
                            } else {
                                done += 1;
                                viol.push((ix, msg, vec![]));
                            }
                            stop = true;
                        }
                        let _ = std::fs::remove_file(&sl.out);
                        let _ = std::fs::remove_file(&sl.cur);
                        let _ = std::fs::remove_file(&sl.err);
                        *s = None;
                    }
                }
            }
        }
        if stop {
            // let the others finish their current report quickly: kill them
            for s in slots.iter_mut() {
                if let Some(sl) = s {
                    let _ = sl.child.kill();
                    let _ = sl.child.wait();
                    let _ = std::fs::remove_file(&sl.out);
                    let _ = std::fs::remove_file(&sl.cur);
                    let _ = std::fs::remove_file(&sl.err);
                }
                *s = None;
            }
            break;
        }
        if !busy && (queue.is_empty() || start.elapsed().as_secs_f64() >= secs) {
            break;
        }
        std::thread::sleep(Duration::from_millis(4));
    }
    viol.sort_by_key(|v| v.0);
    let s = result_json(job, done, &sum, viol, errs, start);
    let _ = std::fs::remove_dir(&scratch);
    if out == "-" {
        println!("{s}");
    } else {
        std::fs::write(&out, s + "\n").unwrap();
    }
    std::process::exit(0)
}
fn num_chunk(total: u64, jobs: u64) -> u64 {
    (total / jobs / 4).clamp(1, 4000)
}
fn read_cur(p: &str) -> (u64, String) {
    let b = std::fs::read(p).unwrap_or_default();
    if b.len() < 8 {
        return (u64::MAX, String::new());
    }
    let ix = u64::from_le_bytes(b[0..8].try_into().unwrap());
    let s = if b.len() > 64 {
        String::from_utf8_lossy(&b[64..]).into_owned()
    } else {
        String::new()
    };
    (ix, s)
}
