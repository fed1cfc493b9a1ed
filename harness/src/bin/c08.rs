//! Runs: partitions of slices, and stretches of present entries.

#[cfg(verif_hooks)]
use trellis::verif_hooks::{iter_runs, iter_runs_by_key};
use vh::vo::{make_any, runs_of, Elem, Model};
use vh::{ensure, must, viol, worker, Ctx, Res, Src};

/// The slices must lie one after the other in `items`, none empty, and cover all of it.
fn partition<'a, X>(items: &'a [X], runs: &[&'a [X]]) -> Result<Vec<(usize, usize)>, vh::Viol> {
    let mut at = 0;
    let mut out = Vec::new();
    for r in runs {
        ensure!(!r.is_empty(), "an empty run at {}", at);
        ensure!(at + r.len() <= items.len(), "the runs are longer than the slice");
        ensure!(
            std::ptr::eq(r.as_ptr(), items[at..].as_ptr()),
            "a run does not start where the one before it ended ({})",
            at
        );
        out.push((at, at + r.len()));
        at += r.len();
    }
    ensure!(at == items.len(), "the runs cover {} of {} items", at, items.len());
    Ok(out)
}

#[cfg(verif_hooks)]
fn slices(s: &mut Src, ctx: &mut Ctx) -> Res {
    let huge = ctx.scale > 0 && s.chance(1, 3000);
    let n = if huge { s.urange(3000, 70_000) } else { s.size(ctx.by_scale(40, 200, 2000)) };
    let span = *s.pick(&[1u64, 2, 3, 8]);
    let items: Vec<(u64, usize)> = {
        let mut cur = s.below(span);
        (0..n)
            .map(|i| {
                if s.chance(1, if huge { 20_000 } else { 3 }) {
                    cur = s.below(span);
                }
                (cur, i)
            })
            .collect()
    };
    let rel = s.below(7);
    let test = move |a: &(u64, usize), b: &(u64, usize)| match rel {
        0 => a.0 == b.0,
        1 => a.0 <= b.0,
        2 => a.0.abs_diff(b.0) <= 1,
        3 => (a.0 + b.0) % 2 == 0,
        4 => b.1.wrapping_sub(a.1) < 3,
        // two tests that no item passes with itself
        5 => a.0 < b.0,
        _ => a.0 != b.0,
    };
    for i in &items {
        ctx.fp(i.0);
    }
    ctx.fp(rel);
    ctx.sample(|| format!("relation #{} on {:?}", rel, items.iter().map(|x| x.0).collect::<Vec<_>>()));
    let by_key = s.chance(1, 2);
    if by_key {
        let k = s.urange(1, 3) as u64;
        let key = move |x: &(u64, usize)| x.0 / k;
        let (runs, more) = must("iter_runs_by_key", || {
            let mut it = iter_runs_by_key(&items, key);
            let mut v: Vec<&[(u64, usize)]> = Vec::new();
            while let Some(r) = it.next() {
                v.push(r);
                if v.len() > n {
                    break;
                }
            }
            let more = it.next().is_some();
            (v, more)
        })?;
        ensure!(!more, "the iterator goes on after its end");
        for (a, b) in partition(&items, &runs)? {
            for i in a..b {
                ensure!(key(&items[i]) == key(&items[a]), "item {} has another key than its run", i);
            }
            ensure!(b == n || key(&items[b]) != key(&items[a]), "the run {}..{} ends too early", a, b);
            ctx.ev("runs by key", 1);
        }
        // keys that may differ from themselves
        let odd = move |x: &(u64, usize)| if x.0 % (k + 1) == 0 { f64::NAN } else { (x.0 / k) as f64 };
        let runs = must("iter_runs_by_key", || iter_runs_by_key(&items, odd).take(n + 1).collect::<Vec<_>>())?;
        for (a, b) in partition(&items, &runs)? {
            for i in a + 1..b {
                ensure!(odd(&items[i]) == odd(&items[a]), "item {} has another key than its run", i);
            }
            ensure!(b == n || !(odd(&items[b]) == odd(&items[a])), "the run {}..{} ends too early", a, b);
        }
        // by value
        let (runs, _) = must("iter_runs_by_key", || (iter_runs_by_key(&items, |x| x.0).collect::<Vec<_>>(), ()))?;
        let parts = partition(&items, &runs)?;
        let lens: usize = parts.iter().map(|(a, b)| b - a).sum();
        ensure!(lens == n, "the runs cover {} of {} items", lens, n);
        for w in parts.windows(2) {
            ensure!(items[w[0].0].0 != items[w[1].0].0, "two neighbouring runs have the same key");
        }
    } else {
        let (runs, more) = must("iter_runs", || {
            let mut it = iter_runs(&items, test);
            let mut v: Vec<&[(u64, usize)]> = Vec::new();
            while let Some(r) = it.next() {
                v.push(r);
                if v.len() > n {
                    break;
                }
            }
            let more = it.next().is_some();
            (v, more)
        })?;
        ensure!(!more, "the iterator goes on after its end");
        for (a, b) in partition(&items, &runs)? {
            for i in a + 1..b {
                ensure!(test(&items[a], &items[i]), "item {} does not match the first of its run, {}", i, a);
            }
            ensure!(b == n || !test(&items[a], &items[b]), "the run {}..{} ends too early", a, b);
            ctx.ev("runs by test", 1);
        }
    }
    if n >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn stretches<E: Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let huge = ctx.scale > 0 && s.chance(1, 3000);
    let n = if huge { s.urange(3000, 70_000) } else { s.size(ctx.by_scale(70, 200, 2000)) };
    let style = s.below(4);
    let mut on = s.chance(1, 2);
    let m: Model = (0..n)
        .map(|i| {
            on = match style {
                0 => s.chance(1, 2),
                1 => {
                    if s.chance(1, if huge { 4000 } else { 8 }) {
                        !on
                    } else {
                        on
                    }
                }
                2 => i % 32 != 31 && i % 32 != 0,
                _ => s.chance(29, 30),
            };
            if on {
                Some(i as u64 + 1)
            } else {
                None
            }
        })
        .collect();
    for (i, o) in m.iter().enumerate() {
        if o.is_some() {
            ctx.fp(i as u64);
        }
    }
    ctx.fp(n as u64);
    ctx.fp_str(E::NAME);
    ctx.sample(|| {
        format!("{} entries {}", E::NAME, m.iter().map(|o| if o.is_some() { '1' } else { '0' }).collect::<String>())
    });
    let mut v = make_any::<E>(s, &m);
    let want = runs_of(&m);
    let addr: Vec<Option<usize>> =
        must("iter", || v.iter().map(|o| o.map(|e| e as *const E as usize)).collect())?;
    let check = |got: &[(usize, Vec<Option<u64>>)], what: &str| -> Res {
        for (k, (p, ids)) in got.iter().enumerate() {
            let (a, b) = match want.get(k) {
                Some(w) => *w,
                None => viol!("{} yields more than {} runs", what, want.len()),
            };
            let w: Vec<Option<u64>> = m[a..b].iter().map(|o| o.map(E::fold)).collect();
            ensure!(*ids == w, "{}: run {} is {:?}, expected {:?}", what, k, ids, w);
            ensure!(Some(*p) == addr[a], "{}: run {} does not lie in the collection", what, k);
        }
        ensure!(got.len() == want.len(), "{} yields {} of {} runs", what, got.len(), want.len());
        Ok(())
    };
    let got: Vec<(usize, Vec<Option<u64>>)> = must("iter_runs", || {
        v.iter_runs().take(n + 1).map(|r| (r.as_ptr() as usize, r.iter().map(|e| e.id()).collect())).collect()
    })?;
    check(&got, "iter_runs")?;
    let more = must("iter_runs", || {
        let mut it = v.iter_runs();
        for _ in 0..want.len() {
            it.next();
        }
        it.next().is_some() || it.next().is_some()
    })?;
    ensure!(!more, "iter_runs goes on after its end");
    let got: Vec<(usize, Vec<Option<u64>>)> = must("iter_runs_mut", || {
        // all slices are held at once: they must not overlap
        let all: Vec<&mut [E]> = v.iter_runs_mut().take(n + 1).collect();
        all.into_iter().map(|r| (r.as_ptr() as usize, r.iter().map(|e| e.id()).collect())).collect()
    })?;
    check(&got, "iter_runs_mut")?;
    // writing through one run changes these entries only
    if !want.is_empty() {
        let k = s.us(want.len());
        let (a, b) = want[k];
        must("writing through a run", || {
            let r = v.iter_runs_mut().nth(k).unwrap();
            for (i, e) in r.iter_mut().enumerate() {
                *e = E::mk((a + i) as u64 + 100);
            }
        })?;
        must("iter", || {
            for (i, o) in v.iter().enumerate() {
                let w = m[i].map(|x| if i >= a && i < b { i as u64 + 100 } else { x });
                ensure!(o.map(|e| e.id()) == w.map(|x| Some(E::fold(x))), "entry {} is wrong after writing a run", i);
            }
            Ok(())
        })??;
    }
    ctx.ev("stretches compared", want.len() as u64);
    if want.len() >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    #[cfg(verif_hooks)]
    if s.chance(1, 2) {
        return slices(s, ctx);
    }
    match s.below(5) {
        0 => stretches::<u64>(s, ctx),
        1 => stretches::<String>(s, ctx),
        2 => stretches::<u8>(s, ctx),
        3 => stretches::<(u16, Vec<u32>)>(s, ctx),
        _ => stretches::<bool>(s, ctx),
    }
}

fn main() {
    let _ = partition::<u8>;
    worker("C08", run)
}
