//! Keyed tables built from unordered pairs.

use trellis::ramp_table::RampTableBuilder;
use vh::{ensure, must, worker, Ctx, Res, Src};

/// Few values, but keys of millions.
fn far(s: &mut Src, ctx: &mut Ctx) -> Res {
    let base = *s.pick(&[70_000usize, 1 << 20, 5_000_000, 1 << 24, 20_000_000, 36_000_000]) + s.us(1000);
    let n = s.urange(2, 60);
    let near = s.urange(2, 40);
    let keys: Vec<u32> = (0..n)
        .map(|_| match s.below(8) {
            0 => s.us(base),
            1 => s.us(300),
            _ => base + s.us(near),
        } as u32)
        .collect();
    let mut b: RampTableBuilder<u32> = RampTableBuilder::new();
    let mut want: std::collections::BTreeMap<u32, Vec<u32>> = Default::default();
    for (i, &k) in keys.iter().enumerate() {
        must("push", || b.push(k, i as u32))?;
        want.entry(k).or_default().push(i as u32);
        ctx.fp(k as u64);
    }
    ctx.sample(|| format!("far keys in the order given: {:?}", keys));
    let t = must("finish", || b.finish())?;
    let top = *keys.iter().max().unwrap() as usize + 1;
    ensure!(t.len() == top, "{} keys instead of {} (keys given: {:?})", t.len(), top, keys);
    ensure!(t.num_values() == n, "{} values instead of {}", t.num_values(), n);
    must("reading the table", || {
        let mut left = want.iter().peekable();
        for (k, got) in t.iter().enumerate() {
            let w: &[u32] = match left.peek() {
                Some((&x, _)) if x as usize == k => left.next().unwrap().1,
                _ => &[],
            };
            ensure!(got == w, "key {} has {:?}, expected {:?} (keys given: {:?})", k, got, w, keys);
        }
        Ok(())
    })??;
    ctx.ev("pairs", n as u64);
    ctx.ev("keys compared", top as u64);
    ctx.max("largest key", top as u64);
    ctx.nontrivial();
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    if ctx.giant() {
        return far(s, ctx);
    }
    let huge = ctx.scale > 0 && s.chance(1, 2000);
    let n = match s.below(5) {
        _ if huge => s.urange(1000, 70_000),
        0 => s.us(3),
        1 | 2 => s.size(60),
        3 => s.size(ctx.by_scale(60, 400, 2000)),
        _ => s.urange(0, ctx.by_scale(40, 300, 3000)),
    };
    let span = match s.below(5) {
        0 => 1,
        1 => 2,
        2 => s.urange(1, 12),
        3 => s.urange(1, 2 * n + 2),
        _ => {
            let wide = ctx.scale > 0 && s.chance(1, 200);
            s.urange(1, if wide { 300_000 } else { ctx.by_scale(200, 20_000, 20_000) })
        }
    };
    let shape = s.below(5);
    let mut keys: Vec<u32> = (0..n)
        .map(|i| match shape {
            0 => (i % span) as u32,
            1 => ((n - 1 - i) % span) as u32,
            2 => (i * span / n) as u32,
            _ => s.us(span) as u32,
        })
        .collect();
    if shape == 3 && n > 1 {
        // the largest key first
        let at = (0..n).max_by_key(|&i| keys[i]).unwrap();
        keys.swap(0, at);
    }
    let pairs: Vec<(u32, u64)> = keys.iter().enumerate().map(|(i, &k)| (k, i as u64 * 10 + 1)).collect();
    let top = keys.iter().max().map_or(0, |&k| k as usize + 1);
    let mut want: Vec<Vec<u64>> = vec![Vec::new(); top];
    for &(k, v) in &pairs {
        want[k as usize].push(v);
    }
    let mut b: RampTableBuilder<u64> = if s.chance(1, 2) {
        RampTableBuilder::new()
    } else {
        RampTableBuilder::with_capacity(s.us(n + 4))
    };
    let mut i = 0;
    while i < n {
        if s.chance(1, 3) {
            let k = s.urange(1, n - i);
            must("extend", || b.extend(pairs[i..i + k].iter().copied()))?;
            i += k;
        } else {
            let (k, v) = pairs[i];
            must("push", || b.push(k, v))?;
            i += 1;
        }
    }
    let t = must("finish", || b.finish())?;
    for &(k, _) in &pairs {
        ctx.fp(k as u64);
    }
    ctx.fp(n as u64);
    ctx.sample(|| format!("keys in the order given: {:?}", keys));
    ensure!(t.len() == top, "{} keys instead of {}", t.len(), top);
    ensure!(t.num_values() == n, "{} values instead of {}", t.num_values(), n);
    must("reading the table", || {
        for (k, w) in want.iter().enumerate() {
            let got = t.entry_values(k);
            ensure!(got == &w[..], "key {} has {:?}, expected {:?} (keys given: {:?})", k, got, w, keys);
        }
        Ok(())
    })??;
    ctx.ev("pairs", n as u64);
    ctx.ev("keys compared", top as u64);
    ctx.max("largest key", top as u64);
    if keys.windows(2).any(|w| w[0] > w[1]) {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("C06", run)
}
