//! The keyed table against a list of lists.

use trellis::ramp_table::RampTable;
use vh::{cut, ensure, must, worker, Ctx, Res, Src};

trait Val: Clone + PartialEq + std::fmt::Debug + 'static {
    fn mk(i: u64) -> Self;
    fn push_copy(t: &mut RampTable<Self>, v: &[Self]) {
        t.push_entry_clone(v)
    }
}
impl Val for u64 {
    fn mk(i: u64) -> u64 {
        i
    }
    fn push_copy(t: &mut RampTable<u64>, v: &[u64]) {
        t.push_entry_copy(v)
    }
}
impl Val for String {
    fn mk(i: u64) -> String {
        format!("v{}", i)
    }
}

#[derive(Clone, PartialEq, Debug)]
struct M<T> {
    keys: Vec<Vec<T>>,
    rest: Vec<T>,
}

fn look<T: Val>(s: &mut Src, t: &mut RampTable<T>, m: &M<T>) -> Res {
    let n = m.keys.len();
    let all: Vec<T> = m.keys.iter().flatten().chain(m.rest.iter()).cloned().collect();
    must("accessors", || {
        ensure!(t.len() == n, "len() is {}, expected {}", t.len(), n);
        ensure!(t.is_empty() == (n == 0), "is_empty() is wrong with {} keys", n);
        #[allow(deprecated)]
        let nk = t.num_keys();
        ensure!(nk == n, "num_keys() is {}, expected {}", nk, n);
        ensure!(t.num_values() == all.len(), "num_values() is {}, expected {}", t.num_values(), all.len());
        ensure!(t.all_values() == &all[..], "all_values() is {:?}, expected {:?}", t.all_values(), all);
        ensure!(t.all_values_mut() == &all[..], "all_values_mut() differs");
        let mut at = 0;
        for k in 0..n {
            let w = &m.keys[k];
            let r = t.entry_values_range(k);
            ensure!(r == (at..at + w.len()), "entry_values_range({}) is {:?}", k, r);
            at += w.len();
            ensure!(t.entry_values(k) == &w[..], "entry_values({}) is {:?}, expected {:?}", k, t.entry_values(k), w);
            ensure!(&t[k] == &w[..], "[{}] is {:?}, expected {:?}", k, &t[k], w);
            ensure!(t.entry_values_mut(k) == &w[..], "entry_values_mut({}) differs", k);
            ensure!(&mut t[k] == &w[..], "[{}] (mutable) differs", k);
        }
        let got: Vec<&[T]> = t.iter().collect();
        ensure!(got == m.keys.iter().map(|v| &v[..]).collect::<Vec<_>>(), "iter() is {:?}, expected {:?}", got, m.keys);
        let got: Vec<&[T]> = t.iter().rev().collect();
        ensure!(
            got == m.keys.iter().rev().map(|v| &v[..]).collect::<Vec<_>>(),
            "iter().rev() is {:?}, expected the reverse of {:?}",
            got,
            m.keys
        );
        let got: Vec<Vec<T>> = t.iter_mut().map(|v| v.to_vec()).collect();
        ensure!(got == m.keys, "iter_mut() is {:?}, expected {:?}", got, m.keys);
        let pairs: Vec<(usize, T)> = m
            .keys
            .iter()
            .enumerate()
            .flat_map(|(k, v)| v.iter().map(move |x| (k, x.clone())))
            .collect();
        let got: Vec<(usize, T)> = t.iter_pairs().map(|(k, v)| (k, v.clone())).collect();
        ensure!(got == pairs, "iter_pairs() is {:?}, expected {:?}", got, pairs);
        let got: Vec<(usize, T)> = t.iter_pairs_manual().map(|(k, v)| (k, v.clone())).collect();
        ensure!(got == pairs, "iter_pairs_manual() is {:?}, expected {:?}", got, pairs);
        let want = format!(
            "{:?}",
            m.keys.iter().enumerate().filter(|(_, v)| !v.is_empty()).collect::<std::collections::BTreeMap<_, _>>()
        );
        let got = format!("{:?}", t);
        ensure!(got == want, "the debug output is {}, expected {}", got, want);
        Ok(())
    })??;
    // from both ends at once, with the exact size all the way
    let script: Vec<u64> = (0..n + 2).map(|_| s.below(3)).collect();
    must("iter from both ends", || {
        let mut it = t.iter();
        let (mut lo, mut hi) = (0, n);
        for c in &script {
            ensure!(it.len() == hi - lo, "iter().len() is {}, expected {}", it.len(), hi - lo);
            ensure!(it.size_hint() == (hi - lo, Some(hi - lo)), "iter().size_hint() is {:?}", it.size_hint());
            let (got, want) = match c {
                0 => {
                    let w = if lo < hi { Some(&m.keys[lo][..]) } else { None };
                    lo = (lo + 1).min(hi);
                    (it.next(), w)
                }
                1 => {
                    let w = if lo < hi { Some(&m.keys[hi - 1][..]) } else { None };
                    hi = hi.saturating_sub(1).max(lo);
                    (it.next_back(), w)
                }
                _ => {
                    let w = if lo + 1 < hi { Some(&m.keys[lo + 1][..]) } else { None };
                    lo = (lo + 2).min(hi);
                    (it.nth(1), w)
                }
            };
            ensure!(got == want, "iterating from both ends gave {:?}, expected {:?}", got, want);
        }
        Ok(())
    })??;
    Ok(())
}

fn go<T: Val>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut next = 0u64;
    let mut fresh = |s: &mut Src, max: usize| -> Vec<T> {
        let n = if s.chance(1, 3) { 0 } else { s.size(max) };
        (0..n)
            .map(|_| {
                next += 1;
                T::mk(next)
            })
            .collect()
    };
    let mut log: Vec<String> = Vec::new();
    let mut t: RampTable<T> = match s.below(3) {
        0 => must("new", RampTable::new)?,
        1 => must("default", RampTable::default)?,
        _ => {
            let (a, b) = (s.us(20), s.us(20));
            must("with_capacity", || RampTable::with_capacity(a, b))?
        }
    };
    let mut m: M<T> = M { keys: Vec::new(), rest: Vec::new() };
    look(s, &mut t, &m)?;
    let mut other: Option<(RampTable<T>, M<T>)> = None;
    let ops = s.urange(1, ctx.by_scale(8, 50, 150));
    let many_empty = s.chance(1, 3);
    for _ in 0..ops {
        let n = m.keys.len();
        match s.below(14) {
            0 | 1 => {
                let v = fresh(s, 2);
                log.push(format!("push_value x{}", v.len()));
                for x in v {
                    m.rest.push(x.clone());
                    must("push_value", || t.push_value(x))?;
                }
            }
            2 | 3 => {
                let times = if many_empty { s.urange(1, 4) } else { 1 };
                log.push(format!("finish_key x{}", times));
                for _ in 0..times {
                    let k = must("finish_key", || t.finish_key())?;
                    ensure!(k == m.keys.len(), "finish_key() returned {}, expected {}", k, m.keys.len());
                    let rest = std::mem::take(&mut m.rest);
                    m.keys.push(rest);
                }
            }
            4 | 5 | 6 => {
                let v = fresh(s, 8);
                let how = s.below(3);
                log.push(format!("push_entry #{} of {}", how, v.len()));
                match how {
                    0 => must("push_entry_copy", || T::push_copy(&mut t, &v))?,
                    1 => must("push_entry_clone", || t.push_entry_clone(&v))?,
                    _ => must("push_entry_extend", || t.push_entry_extend(v.iter().cloned()))?,
                }
                let mut e = std::mem::take(&mut m.rest);
                e.extend(v);
                m.keys.push(e);
            }
            7 if n > 0 => {
                let k = s.us(n);
                if !m.keys[k].is_empty() {
                    let i = s.us(m.keys[k].len());
                    let v = fresh(s, 1).pop().unwrap_or_else(|| T::mk(5));
                    let how = s.below(4);
                    log.push(format!("edit [{}][{}] #{}", k, i, how));
                    let at = m.keys[..k].iter().map(|x| x.len()).sum::<usize>() + i;
                    let x = v.clone();
                    must("editing in place", || match how {
                        0 => t[k][i] = x,
                        1 => t.entry_values_mut(k)[i] = x,
                        2 => t.all_values_mut()[at] = x,
                        _ => t.iter_mut().nth(k).unwrap()[i] = x,
                    })?;
                    m.keys[k][i] = v;
                }
            }
            8 => {
                log.push("reverse every entry".into());
                must("iter_mut", || t.iter_mut().for_each(|e| e.reverse()))?;
                m.keys.iter_mut().for_each(|e| e.reverse());
            }
            9 if s.chance(1, 6) => {
                log.push("clear".into());
                must("clear", || t.clear())?;
                m.keys.clear();
                m.rest.clear();
            }
            10 => {
                let c = match other.take() {
                    Some((mut c, _)) => {
                        log.push("clone_from".into());
                        must("clone_from", || c.clone_from(&t))?;
                        c
                    }
                    None => {
                        log.push("clone".into());
                        must("clone", || t.clone())?
                    }
                };
                ensure!(must("==", || c == t)?, "a clone differs from its original");
                other = Some((std::mem::replace(&mut t, c), m.clone()));
            }
            11 => {
                if let Some((o, om)) = &other {
                    let eq = must("==", || *o == t)?;
                    ensure!(eq == (*om == m), "== is {} for {:?} and {:?}", eq, om, m);
                    log.push(format!("compare: {}", eq));
                }
            }
            12 => {
                log.push("out of range".into());
                let k = n + s.us(2);
                ensure!(cut(|| t.entry_values(k).len()).is_err(), "entry_values({}) was accepted with {} keys", k, n);
                ensure!(cut(|| t[k].len()).is_err(), "[{}] was accepted with {} keys", k, n);
            }
            _ => {
                // the same content, built by other calls, is equal
                let mut o: RampTable<T> = RampTable::new();
                must("building again", || {
                    for k in &m.keys {
                        o.push_entry_extend(k.iter().cloned());
                    }
                    for v in &m.rest {
                        o.push_value(v.clone());
                    }
                })?;
                ensure!(must("==", || o == t)?, "tables with the same content differ: {:?}", m);
                log.push("rebuilt".into());
            }
        }
        look(s, &mut t, &m)?;
        ctx.ev("operations with a full comparison", 1);
    }
    if let Some((mut o, om)) = other {
        // later edits must not show in the one that was cloned from
        look(s, &mut o, &om)?;
    }
    for k in &m.keys {
        ctx.fp(k.len() as u64);
    }
    for l in &log {
        ctx.fp_str(l);
    }
    ctx.sample(|| log.join("; "));
    ctx.max("most keys", m.keys.len() as u64);
    if m.keys.len() >= 2 && m.keys.iter().any(|k| !k.is_empty()) {
        ctx.nontrivial();
    }
    Ok(())
}

/// A few entries of every length, among many keys without values.
fn bulk(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut t: RampTable<u64> = RampTable::new();
    let mut m: M<u64> = M { keys: Vec::new(), rest: Vec::new() };
    let mut next = 0u64;
    if s.chance(1, 2) {
        // many entries, all of them short
        let n = *s.pick(&[255usize, 256, 257, 300, 1023, 1025, 5_000]) + s.us(3);
        let span = *s.pick(&[1u64, 2, 2, 4]);
        for _ in 0..n {
            let k = if span == 1 { 1 } else { s.below(span) };
            let v: Vec<u64> = (next..next + k).collect();
            next += k;
            must("push_entry_copy", || t.push_entry_copy(&v))?;
            m.keys.push(v);
        }
        let f = |v: &[(usize, &Vec<u64>)]| {
            v.iter().map(|(k, v)| format!("{}: {:?}", k, v)).collect::<Vec<_>>().join(", ")
        };
        let some: Vec<(usize, &Vec<u64>)> = m.keys.iter().enumerate().filter(|(_, v)| !v.is_empty()).collect();
        let got = must("debug output", || format!("{:?}", t))?;
        ensure!(
            got == format!("{{{}}}", f(&some)),
            "the debug output of {} entries, {} of them not empty, has {} characters and ends {:?}",
            n,
            some.len(),
            got.len(),
            got.chars().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect::<String>()
        );
    }
    for _ in 0..s.urange(2, 8) {
        let k = match s.below(5) {
            0 => s.urange(0, 3),
            1 => s.urange(250, 260),
            2 => s.urange(0, 5_000),
            3 => *s.pick(&[65_535usize, 65_536, 65_537, 32_768]),
            _ => s.urange(0, 70_000),
        };
        if s.chance(1, 2) {
            must("finish_key", || (0..k).for_each(|_| {
                t.finish_key();
            }))?;
            m.keys.extend((0..k).map(|_| Vec::new()));
        } else {
            let v: Vec<u64> = (next..next + k as u64).collect();
            next += k as u64;
            must("push_entry", || match next % 3 {
                0 => t.push_entry_copy(&v),
                1 => t.push_entry_clone(&v),
                _ => t.push_entry_extend(v.iter().copied()),
            })?;
            m.keys.push(v);
        }
        ctx.fp(k as u64);
    }
    if s.chance(1, 3) {
        must("push_value", || t.push_value(7))?;
        m.rest.push(7);
    }
    ctx.sample(|| format!("entries of lengths {:?}", m.keys.iter().map(|k| k.len()).filter(|&l| l > 0).collect::<Vec<_>>()));
    let n = m.keys.len();
    let all: Vec<u64> = m.keys.iter().flatten().chain(&m.rest).copied().collect();
    let pairs: Vec<(usize, u64)> =
        m.keys.iter().enumerate().flat_map(|(k, v)| v.iter().map(move |x| (k, *x))).collect();
    must("views of a large table", || {
        ensure!(t.len() == n, "len() is {}, expected {}", t.len(), n);
        ensure!(t.num_values() == all.len(), "num_values() is {}, expected {}", t.num_values(), all.len());
        ensure!(t.all_values() == &all[..], "all_values() differs");
        for (k, w) in m.keys.iter().enumerate() {
            ensure!(t.entry_values(k) == &w[..], "entry_values({}) differs ({} values)", k, w.len());
        }
        ensure!(t.iter().eq(m.keys.iter().map(|v| &v[..])), "iter() differs");
        ensure!(t.iter().rev().eq(m.keys.iter().rev().map(|v| &v[..])), "iter().rev() differs");
        ensure!(t.iter().len() == n, "iter().len() is {}", t.iter().len());
        ensure!(t.iter_pairs().map(|(k, v)| (k, *v)).eq(pairs.iter().copied()), "iter_pairs() differs");
        ensure!(t.iter_pairs_manual().map(|(k, v)| (k, *v)).eq(pairs.iter().copied()), "iter_pairs_manual() differs");
        let got: Vec<Vec<u64>> = t.iter_mut().map(|v| v.to_vec()).collect();
        ensure!(got == m.keys, "iter_mut() differs: lengths {:?}", got.iter().map(|v| v.len()).filter(|&l| l > 0).collect::<Vec<_>>());
        Ok(())
    })??;
    ctx.ev("large tables compared", 1);
    ctx.max("most keys", n as u64);
    ctx.nontrivial();
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    if ctx.scale > 0 && s.chance(1, 400) {
        return bulk(s, ctx);
    }
    if s.chance(1, 2) {
        go::<u64>(s, ctx)
    } else {
        go::<String>(s, ctx)
    }
}

fn main() {
    worker("C05", run)
}
