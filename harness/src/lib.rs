//! Core of the runtime-monitoring harness: a recorded source of choices, the monitors'
//! verdicts, a worker loop that runs numbered cases, and replay/shrinking of violations.

pub mod alloc;
pub mod geo;
pub mod gens;
pub mod ledger;
pub mod lex;
pub mod src;
pub mod vo;
pub mod world;

pub use src::Src;

#[cfg(feature = "watch")]
#[global_allocator]
static WATCH: alloc::Watch = alloc::Watch;


use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

/// A property violation seen by a monitor.
#[derive(Debug, Clone)]
pub struct Viol(pub String);
pub type Res = Result<(), Viol>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::Viol(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::Viol(format!($($a)*))); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Plain,
    Asan,
    Miri,
    Tsan,
    Valgrind,
}

/// What one case reports about itself.
pub struct Ctx {
    /// 0 = tiny (interpreters), 1 = quick, 2 = thorough
    pub scale: u32,
    pub mode: Mode,
    pub idx: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
    fp: u64,
    nontrivial: bool,
    want_sample: bool,
    sample: Option<String>,
}

impl Ctx {
    fn new(scale: u32, mode: Mode) -> Self {
        Ctx {
            scale,
            mode,
            idx: 0,
            stats: BTreeMap::new(),
            maxes: BTreeMap::new(),
            fp: 0,
            nontrivial: false,
            want_sample: false,
            sample: None,
        }
    }
    /// A throw-away context, for running one part of a case without recording it.
    pub fn scratch(&self) -> Ctx {
        Ctx::new(self.scale, self.mode)
    }
    /// Counts monitored events.
    pub fn ev(&mut self, name: &'static str, n: u64) {
        *self.stats.entry(name).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &'static str, n: u64) {
        let e = self.maxes.entry(name).or_insert(0);
        *e = (*e).max(n);
    }
    /// Adds to the fingerprint by which distinct cases are counted.
    pub fn fp(&mut self, x: u64) {
        self.fp = mix(self.fp ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    }
    pub fn fp_str(&mut self, s: &str) {
        for b in s.as_bytes() {
            self.fp(*b as u64);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 700 {
                let mut cut = 700;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
    /// A few cases of a size that would be too dear for every run of the workload.
    pub fn giant(&self) -> bool {
        self.scale >= 3
    }
    /// Picks by scale: tiny, quick or thorough bound.
    pub fn by_scale<T: Copy>(&self, tiny: T, quick: T, thorough: T) -> T {
        match self.scale {
            0 => tiny,
            1 => quick,
            _ => thorough,
        }
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static IN_CUT: Cell<u32> = Cell::new(0);
}

/// Payload of a panic that the harness injects on purpose.
pub struct Injected;

pub fn inject() -> ! {
    std::panic::panic_any(Injected)
}

/// How a call into the code under test ended, if it did not return.
#[derive(Debug, Clone)]
pub enum Unwound {
    Panicked(String),
    Injected,
}

impl std::fmt::Display for Unwound {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Unwound::Panicked(m) => write!(f, "panicked: {}", m),
            Unwound::Injected => write!(f, "injected panic"),
        }
    }
}

/// Runs code under test; a panic in it is an observation, not an error of the harness.
pub fn cut<T, F: FnOnce() -> T>(f: F) -> Result<T, Unwound> {
    IN_CUT.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CUT.with(|c| c.set(c.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Injected>() {
                Err(Unwound::Injected)
            } else {
                let m = LAST_PANIC
                    .with(|l| l.borrow_mut().take())
                    .unwrap_or_else(|| "?".to_string());
                Err(Unwound::Panicked(m))
            }
        }
    }
}

/// Runs code under test that must not panic on this input.
pub fn must<T, F: FnOnce() -> T>(what: &str, f: F) -> Result<T, Viol> {
    cut(f).map_err(|u| Viol(format!("{} {}", what, u)))
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        let _ = LAST_PANIC.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = Some(text);
            }
        });
    }));
}

enum Outcome {
    Ok,
    Viol(String),
    Harness(String),
}

fn one(run: fn(&mut Src, &mut Ctx) -> Res, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    ctx.fp = 0;
    ctx.nontrivial = false;
    match catch_unwind(AssertUnwindSafe(|| run(src, ctx))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(v)) => Outcome::Viol(v.0),
        Err(p) => {
            if p.is::<Injected>() {
                Outcome::Harness("injected panic left the monitored call".to_string())
            } else {
                let m = LAST_PANIC
                    .with(|l| l.borrow_mut().take())
                    .unwrap_or_else(|| "?".to_string());
                Outcome::Harness(m)
            }
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arg(name: &str) -> Option<String> {
    let mut it = std::env::args();
    while let Some(a) = it.next() {
        if a == name {
            return it.next();
        }
    }
    None
}
fn arg_u64(name: &str, default: u64) -> u64 {
    arg(name).map(|s| s.parse().expect(name)).unwrap_or(default)
}

fn commas(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn lists(v: &[Vec<u64>]) -> String {
    v.iter().map(|x| format!("[{}]", commas(x))).collect::<Vec<_>>().join(",")
}

fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(seed ^ 0xA5A5_5A5A_1234_4321);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(idx))
}

/// Makes the failing case smaller, as far as a bounded number of runs allows.
fn shrink(
    run: fn(&mut Src, &mut Ctx) -> Res,
    ctx: &mut Ctx,
    rec: Vec<u64>,
    msg: String,
) -> (Vec<u64>, String, u64) {
    let mut best = rec;
    let mut best_msg = msg;
    let mut runs = 0u64;
    let t0 = Instant::now();
    let limit = 1500;
    let mut progress = true;
    while progress && runs < limit && t0.elapsed().as_secs() < 6 {
        progress = false;
        // delete blocks
        let mut block = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() && runs < limit && t0.elapsed().as_secs() < 6 {
                let mut cand = best.clone();
                let end = (at + block).min(cand.len());
                cand.drain(at..end);
                runs += 1;
                let mut s = Src::replay(cand);
                if let Outcome::Viol(m) = one(run, &mut s, ctx) {
                    let used = s.into_record();
                    if used.len() < best.len() {
                        best = used;
                        best_msg = m;
                        progress = true;
                        continue;
                    }
                }
                at += block;
            }
            if block == 1 {
                break;
            }
            block /= 2;
        }
        // lower values
        for i in 0..best.len() {
            if runs >= limit || t0.elapsed().as_secs() >= 6 {
                break;
            }
            if i >= best.len() {
                break;
            }
            for v in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if i >= best.len() || v >= best[i] {
                    continue;
                }
                let mut cand = best.clone();
                cand[i] = v;
                runs += 1;
                let mut s = Src::replay(cand);
                if let Outcome::Viol(m) = one(run, &mut s, ctx) {
                    best = s.into_record();
                    best_msg = m;
                    progress = true;
                    break;
                }
            }
        }
    }
    (best, best_msg, runs)
}

/// Entry point of every property binary.
pub fn worker(prop: &'static str, run: fn(&mut Src, &mut Ctx) -> Res) {
    worker_with(prop, run, |_| {})
}

pub fn worker_with(
    prop: &'static str,
    run: fn(&mut Src, &mut Ctx) -> Res,
    finish: fn(&mut Ctx),
) {
    install_hook();
    let mode = match arg("--mode").as_deref() {
        Some("asan") => Mode::Asan,
        Some("miri") => Mode::Miri,
        Some("tsan") => Mode::Tsan,
        Some("valgrind") => Mode::Valgrind,
        _ => Mode::Plain,
    };
    let scale = arg_u64("--scale", 1) as u32;
    let out = arg("--out");
    let mut ctx = Ctx::new(scale, mode);

    if let Some(list) = arg("--choices") {
        // replay one recorded case
        // several, separated by semicolons, run one after the other
        let mut o = Outcome::Ok;
        ctx.idx = arg_u64("--idx", 0);
        ctx.want_sample = true;
        for one_list in list.split(';') {
            let choices: Vec<u64> =
                one_list.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("choice")).collect();
            ctx.sample = None;
            let mut s = Src::replay(choices);
            o = one(run, &mut s, &mut ctx);
            if !matches!(o, Outcome::Ok) {
                break;
            }
        }
        if let Some(smp) = &ctx.sample {
            eprintln!("case: {}", smp);
        }
        match o {
            Outcome::Ok => {
                eprintln!("replay: property held");
                std::process::exit(0)
            }
            Outcome::Viol(m) => {
                eprintln!("replay: VIOLATED: {}", m);
                std::process::exit(1)
            }
            Outcome::Harness(m) => {
                eprintln!("replay: harness error: {}", m);
                std::process::exit(2)
            }
        }
    }

    let seed = arg_u64("--seed", 1);
    let start = arg_u64("--start", 0);
    let stride = arg_u64("--stride", 1);
    let count = arg_u64("--count", 1000);
    let secs = arg_u64("--secs", 60);
    let samples_wanted = arg_u64("--samples", 2) as usize;
    let sanitize_only = arg("--sanitize-only").is_some();
    let mut progress = arg("--progress").map(|p| {
        std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(p)
            .expect("progress file")
    });

    let t0 = Instant::now();
    let mut evaluations = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut viols: Vec<(u64, Vec<u64>, String, String, u64, String)> = Vec::new();
    let mut functional = 0u64;
    let mut harness_error: Option<String> = None;
    let mut idx = start;
    let mut done = 0u64;
    let mut capped = false;
    'cases: while done < count {
        if done > 0 && t0.elapsed().as_secs() >= secs {
            capped = true;
            break;
        }
        if let Some(f) = progress.as_mut() {
            use std::os::unix::fs::FileExt;
            let b = format!("{:020}", idx);
            let _ = f.write_at(b.as_bytes(), 0);
        }
        ctx.idx = idx;
        ctx.want_sample = samples.len() < samples_wanted && (done % 7 == 3 || done < 1);
        ctx.sample = None;
        let cs = case_seed(seed, prop, idx);
        // Now and then the case is followed by a neighbour of it and by itself again: what the code
        // remembers from one call to the next, if anything, must not show.
        let group = if matches!(mode, Mode::Plain | Mode::Asan) && scale < 3 && mix(cs) % 8 == 0 { 3 } else { 1 };
        let mut before: Vec<Vec<u64>> = Vec::new();
        for member in 0..group {
            let mut s = match member {
                0 => Src::new(cs),
                1 => Src::neighbour(&before[0], cs),
                _ => Src::replay(before[0].clone()),
            };
            if member > 0 {
                ctx.want_sample = false;
            }
            match one(run, &mut s, &mut ctx) {
                Outcome::Ok => {
                    evaluations += 1;
                    if ctx.nontrivial {
                        // counted up to a limit, so that long runs stay small
                        if distinct.len() < 200_000 {
                            distinct.insert(ctx.fp);
                        }
                        if let Some(smp) = ctx.sample.take() {
                            samples.push(smp);
                        }
                    }
                }
                Outcome::Viol(_) if sanitize_only => {
                    // another property's business; only memory errors count here
                    evaluations += 1;
                    functional += 1;
                }
                Outcome::Viol(m) => {
                    evaluations += 1;
                    let rec = s.into_record();
                    ctx.want_sample = false;
                    let prior = lists(&before);
                    if let Some(p) = &out {
                        // kept in case making the case smaller hangs or crashes
                        let _ = std::fs::write(
                            format!("{}.first", p),
                            format!(
                                "{{\"idx\":{},\"choices\":[{}],\"before\":[{}],\"message\":{},\"case\":\"\",\"after\":{}}}",
                                idx,
                                commas(&rec),
                                prior,
                                json_str(&m),
                                evaluations
                            ),
                        );
                    }
                    let (small, small_msg, _runs) = if mode == Mode::Miri {
                        (rec, m.clone(), 0)
                    } else {
                        shrink(run, &mut ctx, rec, m.clone())
                    };
                    // describe the smallest case
                    ctx.want_sample = true;
                    ctx.sample = None;
                    let mut s2 = Src::replay(small.clone());
                    let _ = one(run, &mut s2, &mut ctx);
                    let desc = ctx.sample.take().unwrap_or_default();
                    viols.push((idx, small, small_msg, desc, evaluations, prior));
                    break 'cases;
                }
                Outcome::Harness(m) => {
                    harness_error = Some(format!("case {}: {}", idx, m));
                    break 'cases;
                }
            }
            if group > 1 {
                before.push(s.into_record());
                if member == 1 {
                    ctx.ev("neighbouring cases", 1);
                }
            }
        }
        idx += stride;
        done += 1;
    }
    finish(&mut ctx);

    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"prop\":{},\"evaluations\":{},\"capped\":{},\"functional\":{},\"wall\":{:.3},",
        json_str(prop),
        evaluations,
        capped,
        functional,
        t0.elapsed().as_secs_f64()
    );
    if let Some(h) = &harness_error {
        let _ = write!(j, "\"harness_error\":{},", json_str(h));
    }
    let _ = write!(
        j,
        "\"distinct\":[{}],",
        distinct
            .iter()
            .map(|d| format!("\"{:x}\"", d))
            .collect::<Vec<_>>()
            .join(",")
    );
    let st = |m: &BTreeMap<&'static str, u64>| {
        m.iter()
            .map(|(k, v)| format!("{}:{}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(",")
    };
    let _ = write!(
        j,
        "\"stats\":{{{}}},\"maxes\":{{{}}},",
        st(&ctx.stats),
        st(&ctx.maxes)
    );
    let _ = write!(
        j,
        "\"samples\":[{}],",
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        j,
        "\"violations\":[{}]}}",
        viols
            .iter()
            .map(|(i, c, m, d, n, prior)| format!(
                "{{\"idx\":{},\"choices\":[{}],\"before\":[{}],\"message\":{},\"case\":{},\"after\":{}}}",
                i,
                commas(c),
                prior,
                json_str(m),
                json_str(d),
                n
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    match out {
        Some(p) => {
            let tmp = format!("{}.tmp", p);
            let mut f = std::fs::File::create(&tmp).expect("out file");
            f.write_all(j.as_bytes()).expect("write");
            drop(f);
            std::fs::rename(&tmp, &p).expect("rename");
        }
        None => eprintln!("{}", j),
    }
    let code = if harness_error.is_some() {
        2
    } else if !viols.is_empty() {
        1
    } else {
        0
    };
    std::process::exit(code);
}
