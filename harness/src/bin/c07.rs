//! The priority queue against a sorted multiset, with every item in a ledger.

use std::collections::BTreeMap;
use trellis::priority_queue::PQ;
use vh::ledger::{self, T};
use vh::{ensure, must, viol, worker, Ctx, Res, Src};

/// A queue of plain numbers, larger than the ledger can afford.
fn plain(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.urange(40_000, 75_000);
    let span = *s.pick(&[3u64, 1000, 1 << 40]);
    let rising = s.chance(1, 2);
    let mut q: PQ<u64> = PQ::new();
    let mut inside: BTreeMap<u64, u64> = BTreeMap::new();
    must("insert", || {
        for i in 0..n as u64 {
            // mostly in falling order, which is cheap to insert
            let p = if rising { i * span / n as u64 } else { (n as u64 - i) * 3 } + if i % 16 == 0 { s.below(span) } else { 0 };
            q.insert(p);
            *inside.entry(p).or_insert(0) += 1;
        }
    })?;
    ctx.max("most items inside", n as u64);
    ctx.fp(n as u64);
    ctx.fp(span);
    ctx.sample(|| format!("{} numbers below {}", n, span));
    if s.chance(1, 2) {
        must("clear", || q.clear())?;
        let got = must("remove", || q.remove())?;
        ensure!(got.is_none(), "{:?} came out after clear() of {} items", got, n);
        q.insert(7);
        ensure!(must("remove", || q.remove())? == Some(7), "the item inserted after clear() did not come out");
        ensure!(must("remove", || q.remove())?.is_none(), "an item came out after the last one");
    } else {
        let some = s.urange(200, 3000);
        for k in 0..some {
            let got = must("remove", || q.remove())?;
            let top = inside.keys().next_back().copied();
            ensure!(got == top, "item {} that came out of {} is {:?} instead of {:?}", k, n, got, top);
            let t = top.unwrap();
            let left = inside.get_mut(&t).unwrap();
            *left -= 1;
            if *left == 0 {
                inside.remove(&t);
            }
        }
        ctx.ev("removals", some as u64);
    }
    ctx.ev("inserts", n as u64);
    ctx.nontrivial();
    Ok(())
}

/// What is shown of a queue is what is in it.
fn text(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut q: PQ<u32> = PQ::new();
    let mut inside: Vec<u32> = Vec::new();
    let span = *s.pick(&[2u64, 10, 100_000]);
    for _ in 0..s.size(ctx.by_scale(20, 400, 1000)) {
        if s.chance(1, 3) {
            let got = must("remove", || q.remove())?;
            inside.sort();
            let want = inside.pop();
            ensure!(got == want, "{:?} came out instead of {:?}", got, want);
        } else {
            let x = s.below(span) as u32;
            must("insert", || q.insert(x))?;
            inside.push(x);
        }
        if s.chance(1, 300) {
            must("clear", || q.clear())?;
            inside.clear();
        }
        ctx.fp(inside.len() as u64);
    }
    let shown = must("debug output", || format!("{:?}", q))?;
    let mut numbers: Vec<u32> = shown.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect();
    numbers.sort();
    inside.sort();
    ensure!(numbers == inside, "a queue of {:?} is shown as {:?}", inside, shown);
    ctx.sample(|| shown.clone());
    ctx.ev("queues shown as text", 1);
    if inside.len() > 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(1, 12) {
        return text(s, ctx);
    }
    if ctx.giant() && s.chance(1, 2) {
        return plain(s, ctx);
    }
    ledger::reset();
    let mut q: PQ<T> = if s.chance(1, 2) {
        must("new", PQ::new)?
    } else {
        let c = s.us(20);
        must("with_capacity", || PQ::with_capacity(c))?
    };
    let mut inside: BTreeMap<u64, Vec<u64>> = BTreeMap::new(); // priority -> ids
    let mut count = 0usize;
    let mut out: Vec<T> = Vec::new();
    let span = *s.pick(&[1u64, 2, 5, 50, 1 << 40]);
    let phases = if ctx.giant() { s.urange(2, 4) } else { s.urange(1, ctx.by_scale(3, 6, 12)) };
    let mut log: Vec<String> = Vec::new();
    let mut removed = 0u64;
    let mut pattern = 0u64;
    for _ in 0..phases {
        // (an insertion looks at the whole queue, so large queues are dear)
        let huge = ctx.giant() || ctx.scale > 0 && s.chance(1, 6000);
        let len = if ctx.giant() { s.urange(3_000, 8_000) } else if huge { s.urange(1000, 2600) } else { s.size(ctx.by_scale(10, 120, 600)) };
        let bias = if huge { *s.pick(&[4u64, 4, 3]) } else { *s.pick(&[0u64, 1, 2, 3, 4]) }; // of 4 inserts
        let shape = s.below(5);
        let mut level = s.below(span);
        log.push(format!("{} steps, {}/4 inserts, priorities #{}", len, bias, shape));
        for step in 0..len {
            let insert = match bias {
                0 => false,
                4 => true,
                b => s.below(4) < b,
            };
            if insert {
                let p = match shape {
                    0 => s.below(span),
                    1 => {
                        level = level.wrapping_add(1) % span.max(2);
                        level
                    }
                    2 => {
                        level = level.saturating_sub(1);
                        level
                    }
                    3 => {
                        if step % 2 == 0 {
                            s.below(span)
                        } else {
                            level
                        }
                    }
                    _ => (step as u64) ^ 5,
                };
                let t = T::new(p);
                let id = t.check().unwrap();
                inside.entry(p).or_default().push(id);
                count += 1;
                pattern = vh::mix(pattern ^ p);
                must("insert", || q.insert(t))?;
                ctx.ev("inserts", 1);
            } else {
                pattern = vh::mix(pattern ^ 0xABCDEF);
                let got = must("remove", || q.remove())?;
                ctx.ev("removals", 1);
                match (got, inside.iter_mut().next_back()) {
                    (None, None) => ctx.ev("removals from an empty queue", 1),
                    (None, Some(_)) => viol!("remove() gave nothing with {} items inside", count),
                    (Some(t), None) => viol!("remove() gave {:?} from an empty queue", t),
                    (Some(t), Some((&p, ids))) => {
                        let id = match t.check() {
                            Some(id) => id,
                            None => viol!("remove() gave something that is not a live item"),
                        };
                        ensure!(
                            t.key() == p,
                            "remove() gave priority {}, but an item with priority {} is inside",
                            t.key(),
                            p
                        );
                        match ids.iter().position(|x| *x == id) {
                            Some(i) => {
                                ids.swap_remove(i);
                            }
                            None => viol!("remove() gave an item that is not inside"),
                        }
                        if ids.is_empty() {
                            inside.remove(&p);
                        }
                        count -= 1;
                        removed += 1;
                        out.push(t);
                    }
                }
            }
        }
        ctx.max("most items inside", count as u64);
        if s.chance(1, 8) {
            log.push("clear".into());
            must("clear", || q.clear())?;
            inside.clear();
            count = 0;
        }
        // nobody lost, nobody kept: the live items are those inside and those returned
        let live = ledger::live();
        ensure!(
            live.len() == count + out.len(),
            "{} items are alive, but {} are inside and {} were returned",
            live.len(),
            count,
            out.len()
        );
        ctx.ev("conservation audits", 1);
        if s.chance(1, 3) {
            out.clear();
        }
    }
    // empty it
    let mut last = u64::MAX;
    while let Some(t) = must("remove", || q.remove())? {
        ensure!(count > 0, "more items came out than were put in");
        ensure!(t.key() <= last, "priority {} came out after {}", t.key(), last);
        last = t.key();
        let top = inside.iter().next_back().map(|(p, _)| *p);
        ensure!(top == Some(last), "priority {} came out while {:?} was inside", last, top);
        let ids = inside.get_mut(&last).unwrap();
        let id = t.check().unwrap_or(u64::MAX);
        match ids.iter().position(|x| *x == id) {
            Some(i) => {
                ids.swap_remove(i);
            }
            None => viol!("an item came out that is not inside"),
        }
        if ids.is_empty() {
            inside.remove(&last);
        }
        count -= 1;
        removed += 1;
    }
    ensure!(count == 0, "{} items never came out", count);
    drop(q);
    out.clear();
    let f = ledger::faults();
    ensure!(f.is_empty(), "{}", f.join("; "));
    ensure!(ledger::live().is_empty(), "{} items were never destroyed", ledger::live().len());
    ctx.fp(pattern);
    ctx.ev("items removed", removed);
    ctx.sample(|| log.join("; "));
    if removed >= 3 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("C07", run)
}
