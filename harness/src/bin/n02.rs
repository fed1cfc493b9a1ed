//! A logger at any level changes no result, and the library itself stays silent.

use log::{LevelFilter, Log, Metadata, Record};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::OnceLock;
use vh::world::{call, World, CALLS};
use vh::{ensure, mix, must, worker, Ctx, Mode, Res, Src};

struct Tap {
    records: AtomicU64,
    bytes: AtomicU64,
    /// panics at this record (counted down)
    fuse: AtomicI64,
    /// uses the library while it is being called
    nested: AtomicBool,
    inside: AtomicBool,
    /// the call made by the logger that went wrong, plus one
    wrong: AtomicU64,
    /// the call being made, messages since it began, calls made by the logger
    outer: AtomicU64,
    turn: AtomicU64,
    used: AtomicU64,
}

/// Inputs and results for the logger that uses the library itself.
static INNER: OnceLock<(World, Vec<String>)> = OnceLock::new();

static TAP: Tap = Tap {
    records: AtomicU64::new(0),
    bytes: AtomicU64::new(0),
    fuse: AtomicI64::new(-1),
    nested: AtomicBool::new(false),
    inside: AtomicBool::new(false),
    wrong: AtomicU64::new(0),
    outer: AtomicU64::new(0),
    turn: AtomicU64::new(0),
    used: AtomicU64::new(0),
};

impl Log for Tap {
    fn enabled(&self, _: &Metadata) -> bool {
        true
    }
    fn log(&self, r: &Record) {
        self.records.fetch_add(1, Ordering::Relaxed);
        // the message is made up only here
        let text = format!("{} {} {}", r.level(), r.target(), r.args());
        self.bytes.fetch_add(text.len() as u64, Ordering::Relaxed);
        if self.fuse.load(Ordering::Relaxed) >= 0 && self.fuse.fetch_sub(1, Ordering::Relaxed) == 0 {
            panic!("the logger gives up");
        }
        if self.nested.load(Ordering::Relaxed) && !self.inside.swap(true, Ordering::Relaxed) {
            // first the call that is being made, then the others in turn; after a while only now and then
            let k = self.turn.fetch_add(1, Ordering::Relaxed);
            if k < 2 * CALLS.len() as u64 || k % 64 == 0 {
                let (w, base) = INNER.get().expect("inputs for the logger");
                let i = if k % 2 == 0 { self.outer.load(Ordering::Relaxed) } else { k / 2 } as usize % CALLS.len();
                if call(w, i) != base[i] {
                    self.wrong.store(1 + i as u64, Ordering::Relaxed);
                }
                self.used.fetch_add(1, Ordering::Relaxed);
            }
            self.inside.store(false, Ordering::Relaxed);
        }
    }
    fn flush(&self) {}
}

const LEVELS: [LevelFilter; 6] = [
    LevelFilter::Off,
    LevelFilter::Error,
    LevelFilter::Warn,
    LevelFilter::Info,
    LevelFilter::Debug,
    LevelFilter::Trace,
];

fn world(seed: u64, scale: u32) -> World {
    let s = &mut Src::new(seed);
    let mut w = World::gen(s, scale);
    if s.chance(1, 3) {
        // a point outside, for the messages that say so
        let i = s.us(2);
        w.eps[i].x += s.real(-4000.0, 4000.0);
    }
    w
}

fn short(t: &str) -> String {
    t.chars().take(300).collect()
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    log::set_max_level(LevelFilter::Off);
    TAP.fuse.store(-1, Ordering::Relaxed);
    TAP.nested.store(false, Ordering::Relaxed);
    TAP.inside.store(false, Ordering::Relaxed);
    let seed = s.below(1 << 60);
    let w = world(seed, ctx.scale);
    ctx.fp(seed);
    ctx.sample(|| format!("a graph of {} vertices, text {:?}, {} calls at six levels", w.any.n, short(&w.text), CALLS.len()));
    INNER.get_or_init(|| {
        let w = World::gen(&mut Src::new(5), 1);
        let base = (0..CALLS.len()).map(|i| call(&w, i)).collect();
        (w, base)
    });
    let before = w.inputs();
    let base: Vec<String> = (0..CALLS.len()).map(|i| call(&w, i)).collect();
    let mut levels = LEVELS.to_vec();
    s.shuffle(&mut levels);
    for l in levels {
        let nested = s.chance(1, 3);
        TAP.nested.store(nested, Ordering::Relaxed);
        for i in 0..CALLS.len() {
            let (n, u) = (TAP.records.load(Ordering::Relaxed), TAP.used.load(Ordering::Relaxed));
            TAP.outer.store(i as u64, Ordering::Relaxed);
            TAP.turn.store(0, Ordering::Relaxed);
            log::set_max_level(l);
            let t = call(&w, i);
            log::set_max_level(LevelFilter::Off);
            ensure!(
                t == base[i],
                "{} gives {} with the logger at level {}, {} without",
                CALLS[i].0,
                short(&t),
                l,
                short(&base[i])
            );
            let n = TAP.records.load(Ordering::Relaxed) - n;
            ctx.ev("calls compared", 1);
            ctx.ev("messages made up", n);
            ctx.ev("calls made by the logger", TAP.used.load(Ordering::Relaxed) - u);
            let wrong = TAP.wrong.swap(0, Ordering::Relaxed) as usize;
            ensure!(wrong == 0, "{} went wrong when called by the logger during {}", CALLS[wrong - 1].0, CALLS[i].0);
        }
        TAP.nested.store(false, Ordering::Relaxed);
    }
    // a logger that panics leaves nothing behind
    if ctx.mode != Mode::Miri || s.chance(1, 4) {
        for _ in 0..s.urange(1, 6) {
            let i = s.us(CALLS.len());
            TAP.fuse.store(s.size(40) as i64, Ordering::Relaxed);
            log::set_max_level(LevelFilter::Trace);
            let _ = call(&w, i);
            log::set_max_level(LevelFilter::Off);
            if TAP.fuse.swap(-1, Ordering::Relaxed) < 0 {
                ctx.ev("calls broken off by the logger", 1);
            }
            if s.chance(1, 2) {
                log::set_max_level(LevelFilter::Trace);
            }
            let t = call(&w, i);
            log::set_max_level(LevelFilter::Off);
            ensure!(
                t == base[i],
                "{} gives {} after a logger panicked in it, {} before",
                CALLS[i].0,
                short(&t),
                short(&base[i])
            );
        }
    }
    ensure!(must("inputs", || w.inputs())? == before, "an input that was lent for reading has changed");
    // nothing on the standard streams, and nothing left behind
    if ctx.mode == Mode::Plain && s.chance(1, 40) {
        let exe = std::env::current_exe().expect("own path");
        let o = std::process::Command::new(exe)
            .args(["--silent", &format!("{},{},{}", seed, ctx.scale, 12)])
            .env("RUST_LOG", "trace")
            .env("RUST_BACKTRACE", "1")
            .output()
            .expect("silent process");
        assert!(o.status.code() == Some(0) || o.status.code() == Some(77), "silent process failed: {:?}", o.status);
        let show = |b: &[u8]| short(&String::from_utf8_lossy(b));
        ensure!(o.stdout.is_empty(), "the calls write to the standard output: {:?}", show(&o.stdout));
        ensure!(
            o.status.code() == Some(0) && o.stderr.is_empty(),
            "the calls write to the standard error, or leave something behind: {:?}",
            show(&o.stderr)
        );
        ctx.ev("silent processes of 12 bundles", 1);
    }
    ctx.nontrivial();
    Ok(())
}

/// What a process can leave lying about: files, threads, environment, place, stack of signal handlers.
fn surroundings() -> String {
    let list = |p: &str| {
        let mut l: Vec<String> = std::fs::read_dir(p)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect())
            .unwrap_or_default();
        l.sort();
        l
    };
    let status = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    let signals: Vec<&str> = status.lines().filter(|l| l.starts_with("Sig") && !l.starts_with("SigQ")).collect();
    let mut env: Vec<_> = std::env::vars_os().collect();
    env.sort();
    format!("files {} threads {} env {:?} place {:?} {:?}", list("/proc/self/fd").len(), list("/proc/self/task").len(), env, std::env::current_dir().ok(), signals)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--silent" {
        vh::install_hook();
        let p: Vec<u64> = a[2].split(',').map(|x| x.parse().unwrap()).collect();
        let before = surroundings();
        let mut sum = 0;
        for k in 0..p[2] {
            let w = world(if k == 0 { p[0] } else { mix(p[0] ^ k) >> 4 }, p[1] as u32);
            for i in 0..CALLS.len() {
                sum = mix(sum ^ call(&w, i).len() as u64);
            }
        }
        std::hint::black_box(sum);
        let after = surroundings();
        if before != after {
            eprintln!("before: {}\nafter: {}", before, after);
            std::process::exit(77);
        }
        return;
    }
    log::set_logger(&TAP).expect("the only logger");
    worker("N02", run)
}
