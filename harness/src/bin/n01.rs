//! The same call gives the same result: again, in any order, on any thread, in a fresh process.

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;
use vh::world::{call, World, CALLS};
use vh::{ensure, mix, viol, worker, Ctx, Mode, Res, Src};

fn digest(t: &str) -> u64 {
    t.bytes().fold(7, |h, b| mix(h ^ b as u64))
}

fn worlds(seed: u64, like: u64, scale: u32) -> (World, World) {
    let a = World::gen(&mut Src::new(seed), scale);
    let b = if like == u64::MAX {
        World::gen(&mut Src::new(mix(seed)), scale)
    } else {
        World::like(&a, &mut Src::new(like), scale)
    };
    (a, b)
}

fn short(t: &str) -> &str {
    let mut n = t.len().min(400);
    while !t.is_char_boundary(n) {
        n -= 1;
    }
    &t[..n]
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = s.below(1 << 60);
    let like = if s.chance(2, 3) { s.below(1 << 60) } else { u64::MAX };
    let scale = ctx.scale;
    let (a, b) = worlds(seed, like, scale);
    let ws = [&a, &b];
    ctx.fp(seed);
    ctx.sample(|| {
        format!("graphs of {} and {} vertices, text {:?}, {} calls over two bundles of inputs", a.any.n, b.any.n, a.text, CALLS.len())
    });
    let before = [a.inputs(), b.inputs()];
    let k = CALLS.len();
    // once, in order
    let base: Vec<Vec<String>> = ws.iter().map(|w| (0..k).map(|i| call(w, i)).collect()).collect();
    // again, shuffled, on this thread
    let mut order: Vec<(usize, usize)> = (0..2 * k).map(|i| (i / k, i % k)).collect();
    s.shuffle(&mut order);
    for &(w, i) in &order {
        let t = call(ws[w], i);
        ensure!(
            t == base[w][i],
            "{} gives {} the second time, {} the first time",
            CALLS[i].0,
            short(&t),
            short(&base[w][i])
        );
        ctx.ev("repeated calls compared", 1);
    }
    // one bundle of memory that holds the first inputs, then the second ones, and so on
    let (mut stage, _) = worlds(seed, like, scale);
    let mut holds = 0;
    for _ in 0..s.urange(2, 4) {
        holds = 1 - holds;
        stage.become_like(ws[holds]);
        s.shuffle(&mut order);
        for &(w, i) in order.iter().filter(|o| o.0 == holds) {
            let t = call(&stage, i);
            ensure!(
                t == base[w][i],
                "{} gives {} when the same memory has held other inputs, {} at first",
                CALLS[i].0,
                short(&t),
                short(&base[w][i])
            );
            ctx.ev("calls compared over reused memory", 1);
        }
    }
    // many threads at once over the same inputs
    let threads = match ctx.mode {
        Mode::Miri => 2,
        Mode::Tsan => s.urange(2, 4),
        _ => s.urange(2, 6),
    };
    let plans: Vec<(Vec<(usize, usize)>, u64)> = (0..threads)
        .map(|t| {
            let mut o = order.clone();
            if t % 3 == 0 {
                // everybody on the same call at the same time, one bundle after the other
                o.sort_by_key(|&(w, i)| (i, if t % 2 == 0 { w } else { 1 - w }));
            } else {
                s.shuffle(&mut o);
            }
            (o, s.below(1 << 30))
        })
        .collect();
    let gate = Barrier::new(threads);
    let inside = AtomicUsize::new(0);
    let most = AtomicUsize::new(0);
    let out: Vec<Result<usize, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .map(|(plan, delay)| {
                let (gate, inside, most, base) = (&gate, &inside, &most, &base);
                sc.spawn(move || {
                    gate.wait();
                    let mut d = *delay;
                    let mut n = 0;
                    for &(w, i) in plan {
                        d = mix(d);
                        match d % 16 {
                            0 => std::thread::yield_now(),
                            1 => {
                                for _ in 0..d % 3000 {
                                    std::hint::spin_loop();
                                }
                            }
                            _ => {}
                        }
                        let now = inside.fetch_add(1, Ordering::Relaxed) + 1;
                        most.fetch_max(now, Ordering::Relaxed);
                        let t = call(ws[w], i);
                        inside.fetch_sub(1, Ordering::Relaxed);
                        if t != base[w][i] {
                            return Err(format!(
                                "{} gives {} on another thread, {} at first",
                                CALLS[i].0,
                                short(&t),
                                short(&base[w][i])
                            ));
                        }
                        n += 1;
                    }
                    Ok(n)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
    });
    for r in out {
        match r {
            Ok(n) => ctx.ev("concurrent calls compared", n as u64),
            Err(m) => viol!("{}", m),
        }
    }
    ctx.ev("threads", threads as u64);
    ctx.max("most calls under way at once", most.load(Ordering::Relaxed) as u64);
    // many more threads than there are cores, all in the same function
    if ctx.mode == Mode::Plain && s.chance(1, 6) {
        crowd(s, ctx, &ws, &base)?;
    }
    for w in 0..2 {
        ensure!(ws[w].inputs() == before[w], "an input that was lent for reading has changed");
    }
    // a process that has computed nothing before, and takes the second bundle first
    if ctx.mode == Mode::Plain && s.chance(1, 8) {
        let exe = std::env::current_exe().expect("own path");
        let o = std::process::Command::new(exe)
            .args(["--fresh", &format!("{},{},{}", seed, like, scale)])
            .output()
            .expect("fresh process");
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let got: Vec<u64> = text.lines().filter_map(|l| l.strip_prefix("fresh-digest ")).map(|x| x.parse().expect("digest")).collect();
        assert!(o.status.success() && got.len() == 2 * k, "fresh process failed: {:?}", o);
        for (j, (w, i)) in fresh_order(k).into_iter().enumerate() {
            ensure!(
                got[j] == digest(&base[w][i]),
                "{} gives something else in a fresh process; here {}",
                CALLS[i].0,
                short(&base[w][i])
            );
            ctx.ev("calls compared with a fresh process", 1);
        }
    }
    ctx.nontrivial();
    Ok(())
}

/// Many threads that call the same function many times.
fn crowd(s: &mut Src, ctx: &mut Ctx, ws: &[&World; 2], base: &[Vec<String>]) -> Res {
    let threads = s.urange(16, 48);
    let calls: Vec<usize> = (0..3).map(|_| s.us(CALLS.len())).collect();
    let times = s.urange(4, 12);
    let gate = Barrier::new(threads);
    let out: Vec<Option<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (gate, calls) = (&gate, &calls);
                sc.spawn(move || {
                    for (at, &i) in calls.iter().enumerate() {
                        gate.wait();
                        for k in 0..times {
                            let w = (t + k) % 2;
                            let r = call(ws[w], i);
                            if r != base[w][i] {
                                // the others still come to the gate
                                for _ in at + 1..calls.len() {
                                    gate.wait();
                                }
                                return Some(format!("{} gives {} among {} threads that call it, {} at first", CALLS[i].0, short(&r), threads, short(&base[w][i])));
                            }
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("a thread died".into()))).collect()
    });
    if let Some(m) = out.into_iter().flatten().next() {
        viol!("{}", m);
    }
    ctx.ev("calls compared in a crowd of threads", (threads * times * calls.len()) as u64);
    ctx.max("threads in a crowd", threads as u64);
    Ok(())
}

fn fresh_order(k: usize) -> Vec<(usize, usize)> {
    (0..k).rev().flat_map(|i| [(1, i), (0, i)]).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--fresh" {
        vh::install_hook();
        let p: Vec<u64> = a[2].split(',').map(|x| x.parse().unwrap()).collect();
        let (x, y) = worlds(p[0], p[1], p[2] as u32);
        let ws = [&x, &y];
        for (w, i) in fresh_order(CALLS.len()) {
            println!("\nfresh-digest {}", digest(&call(ws[w], i)));
        }
        return;
    }
    worker("N01", run)
}
