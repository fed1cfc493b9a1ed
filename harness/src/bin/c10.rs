//! Every iterator the library hands out, held against the laws of iterators: whichever way it
//! is consumed, the same items come out as by stepping, the announced sizes are right at every
//! point, and after the end nothing comes any more.

use std::fmt::Debug;
use dot_parser::lexer::{Lexer, Token};
use trellis::graph::Graph;
use trellis::ramp_table::RampTable;
use trellis::traverse_depth_first_preorder;
use trellis::vec_option::VecOption;
#[cfg(verif_hooks)]
use trellis::verif_hooks::{iter_runs, iter_runs_by_key};
use vh::gens::gen_dag;
use vh::ledger::{self, T};
use vh::{ensure, must, worker, Ctx, Res, Src, Viol};

/// How the consumption goes, chosen beforehand so that it can be told.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Next,
    Nth(usize),
    Find(usize),
    Position(usize),
    Any(usize),
    All(usize),
    Take(usize),
    Hint,
    Back,
    NthBack(usize),
    Len,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Step,
    Count,
    Last,
    Fold,
    ForEach,
    Collect,
    Skip(usize),
    StepBy(usize),
    Chain,
    Zip,
    Abandon,
    Rev,
    RFold,
}

#[derive(Clone, Debug)]
struct Plan {
    steps: Vec<Step>,
    end: End,
}

fn plan(s: &mut Src, n: usize, both: bool) -> Plan {
    let jump = |s: &mut Src| if s.chance(1, 12) { s.us(n + 3) } else { s.us(4) };
    let count = s.us(10);
    let steps = (0..count)
        .map(|_| match s.below(if both { 13 } else { 9 }) {
            0 | 1 => Step::Next,
            2 => Step::Nth(jump(s)),
            3 => Step::Find(jump(s)),
            4 => Step::Position(jump(s)),
            5 => Step::Any(jump(s)),
            6 => Step::All(jump(s)),
            7 => Step::Take(jump(s)),
            8 => Step::Hint,
            9 | 10 => Step::Back,
            11 => Step::NthBack(jump(s)),
            _ => Step::Len,
        })
        .collect();
    let end = match s.below(if both { 15 } else { 12 }) {
        0 | 1 => End::Step,
        2 => End::Count,
        3 => End::Last,
        4 => End::Fold,
        5 => End::ForEach,
        6 => End::Collect,
        7 => End::Skip(jump(s)),
        8 => End::StepBy(s.urange(1, 4)),
        9 => End::Chain,
        10 => End::Zip,
        11 => End::Abandon,
        12 => End::Rev,
        _ => End::RFold,
    };
    Plan { steps, end }
}

fn hint<I: Iterator>(what: &str, it: &I, left: usize, p: &Plan) -> Res {
    let (lo, hi) = it.size_hint();
    ensure!(
        lo <= left && hi.map_or(true, |h| h >= left),
        "{}: size_hint() is ({}, {:?}) with {} items to come, at some point of {:?}",
        what,
        lo,
        hi,
        left,
        p
    );
    Ok(())
}

/// One step that works on any iterator. `a` is the place of the first item still to come.
fn step<I: Iterator, K: PartialEq + Debug + Clone>(
    what: &str,
    it: &mut I,
    want: &[K],
    a: &mut usize,
    b: usize,
    key: &dyn Fn(I::Item) -> K,
    st: Step,
    p: &Plan,
) -> Res {
    let left = b - *a;
    let at = |k: usize| if k < left { Some(want[*a + k].clone()) } else { None };
    match st {
        Step::Next => {
            let got = must(what, || it.next().map(key))?;
            ensure!(got == at(0), "{}: next() is {:?} instead of {:?} in {:?}", what, got, at(0), p);
            *a += 1.min(left);
        }
        Step::Nth(k) => {
            let got = must(what, || it.nth(k).map(key))?;
            ensure!(got == at(k), "{}: nth({}) is {:?} instead of {:?} in {:?}", what, k, got, at(k), p);
            *a += (k + 1).min(left);
        }
        Step::Find(k) => {
            let mut i = 0;
            let got = must(what, || {
                it.find(|_| {
                    i += 1;
                    i > k
                })
                .map(key)
            })?;
            ensure!(got == at(k), "{}: find() of item {} is {:?} instead of {:?} in {:?}", what, k, got, at(k), p);
            *a += (k + 1).min(left);
        }
        Step::Position(k) => {
            let mut i = 0;
            let got = must(what, || {
                it.position(|_| {
                    i += 1;
                    i > k
                })
            })?;
            ensure!(got == if k < left { Some(k) } else { None }, "{}: position() is {:?} with {} left", what, got, left);
            *a += (k + 1).min(left);
        }
        Step::Any(k) => {
            let mut i = 0;
            let got = must(what, || {
                it.any(|_| {
                    i += 1;
                    i > k
                })
            })?;
            ensure!(got == (k < left), "{}: any() is {} with {} left", what, got, left);
            *a += (k + 1).min(left);
        }
        Step::All(k) => {
            let mut i = 0;
            let got = must(what, || {
                it.all(|_| {
                    i += 1;
                    i <= k
                })
            })?;
            ensure!(got == (k >= left), "{}: all() is {} with {} left", what, got, left);
            *a += (k + 1).min(left);
        }
        Step::Take(k) => {
            let got: Vec<K> = must(what, || it.by_ref().take(k).map(key).collect())?;
            let e = *a + k.min(left);
            ensure!(got[..] == want[*a..e], "{}: take({}) gives {:?} instead of {:?}", what, k, got, &want[*a..e]);
            *a = e;
        }
        _ => (),
    }
    hint(what, it, b - *a, p)
}

fn finish<I: Iterator, K: PartialEq + Debug + Clone>(
    what: &str,
    mut it: I,
    rest: &[K],
    key: &dyn Fn(I::Item) -> K,
    p: &Plan,
) -> Res {
    hint(what, &it, rest.len(), p)?;
    match p.end {
        End::Step | End::Rev | End::RFold => {
            for (i, w) in rest.iter().enumerate() {
                let got = must(what, || it.next().map(key))?;
                ensure!(got.as_ref() == Some(w), "{}: next() is {:?} instead of {:?} after {:?}", what, got, w, p);
                hint(what, &it, rest.len() - i - 1, p)?;
            }
            for _ in 0..3 {
                let got = must(what, || it.next().map(key))?;
                ensure!(got.is_none(), "{}: {:?} comes after the end of {:?}", what, got, rest);
                hint(what, &it, 0, p)?;
            }
            ensure!(must(what, || it.nth(1).is_none())?, "{}: nth(1) gives something after the end", what);
        }
        End::Count => {
            let n = must(what, || it.count())?;
            ensure!(n == rest.len(), "{}: count() is {} instead of {} after {:?}", what, n, rest.len(), p.steps);
        }
        End::Last => {
            let l = must(what, || it.last().map(key))?;
            ensure!(l.as_ref() == rest.last(), "{}: last() is {:?} instead of {:?}", what, l, rest.last());
        }
        End::Fold => {
            let l = must(what, || {
                it.fold(Vec::new(), |mut v, x| {
                    v.push(key(x));
                    v
                })
            })?;
            ensure!(l[..] == *rest, "{}: fold() sees {:?} instead of {:?} after {:?}", what, l, rest, p.steps);
        }
        End::ForEach => {
            let mut l = Vec::new();
            must(what, || it.for_each(|x| l.push(key(x))))?;
            ensure!(l[..] == *rest, "{}: for_each() sees {:?} instead of {:?} after {:?}", what, l, rest, p.steps);
        }
        End::Collect => {
            let l: Vec<K> = must(what, || it.map(key).collect())?;
            ensure!(l[..] == *rest, "{}: collect() sees {:?} instead of {:?} after {:?}", what, l, rest, p.steps);
        }
        End::Skip(k) => {
            let l: Vec<K> = must(what, || it.skip(k).map(key).collect())?;
            ensure!(l[..] == rest[k.min(rest.len())..], "{}: skip({}) leaves {:?} of {:?}", what, k, l, rest);
        }
        End::StepBy(k) => {
            let l: Vec<K> = must(what, || it.step_by(k).map(key).collect())?;
            let w: Vec<K> = rest.iter().step_by(k).cloned().collect();
            ensure!(l == w, "{}: step_by({}) sees {:?} instead of {:?}", what, k, l, w);
        }
        End::Chain => {
            let mut e = it.map(key).map(Some).chain(std::iter::once(None));
            let l: Vec<Option<K>> = must(what, || e.by_ref().collect())?;
            ensure!(
                l.len() == rest.len() + 1 && l.last() == Some(&None),
                "{}: chained with one item it has {} items instead of {}",
                what,
                l.len(),
                rest.len() + 1
            );
        }
        End::Zip => {
            let l: Vec<(K, usize)> = must(what, || it.map(key).zip(0..).collect())?;
            ensure!(
                l.len() == rest.len() && l.iter().enumerate().all(|(i, x)| x.1 == i && x.0 == rest[i]),
                "{}: zipped with numbers it is {:?} instead of {:?}",
                what,
                l,
                rest
            );
        }
        End::Abandon => must(what, || drop(it))?,
    }
    Ok(())
}

fn drive<I: Iterator, K: PartialEq + Debug + Clone>(
    what: &str,
    mut it: I,
    want: &[K],
    key: &dyn Fn(I::Item) -> K,
    p: &Plan,
) -> Res {
    let mut a = 0;
    hint(what, &it, want.len(), p)?;
    for &st in &p.steps {
        step(what, &mut it, want, &mut a, want.len(), key, st, p)?;
    }
    finish(what, it, &want[a..], key, p)
}

/// The same from both ends.
fn drive2<I: DoubleEndedIterator + ExactSizeIterator, K: PartialEq + Debug + Clone>(
    what: &str,
    mut it: I,
    want: &[K],
    key: &dyn Fn(I::Item) -> K,
    p: &Plan,
) -> Res {
    let (mut a, mut b) = (0, want.len());
    for &st in &p.steps {
        match st {
            Step::Back => {
                let got = must(what, || it.next_back().map(key))?;
                let w = if a < b { Some(want[b - 1].clone()) } else { None };
                ensure!(got == w, "{}: next_back() is {:?} instead of {:?} in {:?}", what, got, w, p);
                b -= 1.min(b - a);
            }
            Step::NthBack(k) => {
                let got = must(what, || it.nth_back(k).map(key))?;
                let w = if k < b - a { Some(want[b - 1 - k].clone()) } else { None };
                ensure!(got == w, "{}: nth_back({}) is {:?} instead of {:?} in {:?}", what, k, got, w, p);
                b -= (k + 1).min(b - a);
            }
            _ => step(what, &mut it, want, &mut a, b, key, st, p)?,
        }
        ensure!(it.len() == b - a, "{}: len() is {} with {} items to come in {:?}", what, it.len(), b - a, p);
        ensure!(it.size_hint() == (b - a, Some(b - a)), "{}: size_hint() is not exact: {:?}", what, it.size_hint());
    }
    match p.end {
        End::Rev => {
            let l: Vec<K> = must(what, || it.rev().map(key).collect())?;
            let w: Vec<K> = want[a..b].iter().rev().cloned().collect();
            ensure!(l == w, "{}: rev() sees {:?} instead of {:?} after {:?}", what, l, w, p.steps);
            Ok(())
        }
        End::RFold => {
            let l = must(what, || {
                it.rfold(Vec::new(), |mut v, x| {
                    v.push(key(x));
                    v
                })
            })?;
            let w: Vec<K> = want[a..b].iter().rev().cloned().collect();
            ensure!(l == w, "{}: rfold() sees {:?} instead of {:?} after {:?}", what, l, w, p.steps);
            Ok(())
        }
        _ => finish(what, it, &want[a..b], key, p),
    }
}

fn pattern(s: &mut Src, ctx: &Ctx) -> Vec<Option<u64>> {
    let n = if ctx.giant() { s.urange(2_000, 140_000) } else if ctx.scale > 0 && s.chance(1, 60) { s.us(700) } else { s.size(ctx.by_scale(8, 40, 90)) };
    let shape = s.below(5);
    let run = s.urange(1, 40);
    (0..n)
        .map(|i| {
            let some = match shape {
                0 => s.chance(1, 2),
                1 => s.chance(1, 8),
                2 => !s.chance(1, 8),
                3 => (i / run) % 2 == 0,
                _ => i % 32 != 31 && i % 32 != 0,
            };
            if some {
                Some(s.below(1000))
            } else {
                None
            }
        })
        .collect()
}

fn runs_of(m: &[Option<u64>]) -> Vec<Vec<u64>> {
    let mut out: Vec<Vec<u64>> = Vec::new();
    let mut open = false;
    for x in m {
        match x {
            Some(v) if open => out.last_mut().unwrap().push(*v),
            Some(v) => {
                out.push(vec![*v]);
                open = true;
            }
            None => open = false,
        }
    }
    out
}

fn note(ctx: &mut Ctx, what: &'static str, p: &Plan, n: usize) {
    ctx.ev(what, 1);
    ctx.fp_str(what);
    ctx.fp(n as u64);
    for st in &p.steps {
        ctx.fp_str(&format!("{:?}", st));
    }
    ctx.fp_str(&format!("{:?}", p.end));
    if n > 1 && (p.steps.len() > 1 || p.end != End::Abandon) {
        ctx.nontrivial();
    }
}

fn option_vector(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = pattern(s, ctx);
    if m.len() >= 2_000 {
        // every way of going over a long one
        for which in 0..9 {
            one_way(s, ctx, &m, which)?;
        }
        return Ok(());
    }
    let which = s.below(9);
    one_way(s, ctx, &m, which)
}

fn one_way(s: &mut Src, ctx: &mut Ctx, m: &[Option<u64>], which: u64) -> Res {
    ledger::reset();
    let n = m.len();
    let mut v: VecOption<T> = VecOption::new();
    for x in m {
        v.push(x.map(T::new));
    }
    let ind: Vec<(usize, u64)> = m.iter().enumerate().filter_map(|(i, x)| x.map(|k| (i, k))).collect();
    let opt = |o: Option<&T>| o.map(|t| t.key());
    let mut p = plan(s, n, false);
    if n >= 2_000 {
        p.steps.insert(0, Step::Hint);
    }
    ctx.sample(|| format!("iterator #{} of an option vector of {}, consumed by {:?}", which, n, p));
    let mut kept = true;
    match which {
        0 => {
            note(ctx, "iter", &p, n);
            drive("iter()", v.iter(), &m, &opt, &p)?;
        }
        1 => {
            note(ctx, "iter_mut", &p, n);
            drive("iter_mut()", v.iter_mut(), &m, &|o: Option<&mut T>| o.map(|t| t.key()), &p)?;
        }
        2 => {
            note(ctx, "iter_some_index", &p, n);
            drive("iter_some_index()", v.iter_some_index(), &ind, &|(i, t): (usize, &T)| (i, t.key()), &p)?;
        }
        3 => {
            note(ctx, "iter_some_index_mut", &p, n);
            drive("iter_some_index_mut()", v.iter_some_index_mut(), &ind, &|(i, t): (usize, &mut T)| (i, t.key()), &p)?;
        }
        4 => {
            note(ctx, "iter_runs", &p, n);
            let w = runs_of(&m);
            drive("iter_runs()", v.iter_runs(), &w, &|r: &[T]| r.iter().map(|t| t.key()).collect::<Vec<u64>>(), &p)?;
        }
        5 => {
            note(ctx, "iter_runs_mut", &p, n);
            let w = runs_of(&m);
            drive(
                "iter_runs_mut()",
                v.iter_runs_mut(),
                &w,
                &|r: &mut [T]| r.iter().map(|t| t.key()).collect::<Vec<u64>>(),
                &p,
            )?;
        }
        6 => {
            note(ctx, "drain", &p, n);
            let whole = n >= 2_000 && s.chance(1, 2);
            let a = if whole { s.us(3) } else { s.us(n + 1) };
            let b = if whole { n - s.us(3) } else { s.urange(a, n) };
            drive("drain()", v.drain(a..b), &m[a..b], &|o: Option<T>| o.map(|t| t.key()), &p)?;
            let after: Vec<Option<u64>> = m[..a].iter().chain(&m[b..]).copied().collect();
            let got: Vec<Option<u64>> = v.iter().map(opt).collect();
            ensure!(got == after, "after drain({}..{}), consumed by {:?}, {:?} is left of {:?}", a, b, p, got, m);
            ensure!(
                ledger::live().len() == after.iter().flatten().count(),
                "after drain({}..{}), consumed by {:?}, {} elements are alive and {} inside",
                a,
                b,
                p,
                ledger::live().len(),
                after.iter().flatten().count()
            );
        }
        7 => {
            note(ctx, "into_iter", &p, n);
            kept = false;
            drive("into_iter()", std::mem::replace(&mut v, VecOption::new()).into_iter(), &m, &|o: Option<T>| o.map(|t| t.key()), &p)?;
        }
        _ => {
            note(ctx, "into_some_iter", &p, n);
            kept = false;
            let w: Vec<u64> = m.iter().flatten().copied().collect();
            drive("into_some_iter()", std::mem::replace(&mut v, VecOption::new()).into_some_iter(), &w, &|t: T| t.key(), &p)?;
        }
    }
    if kept && which != 6 {
        let got: Vec<Option<u64>> = v.iter().map(opt).collect();
        ensure!(got == m, "iterator #{}, consumed by {:?}, changed {:?} to {:?}", which, p, m, got);
    }
    must("drop", || drop(v))?;
    let f = ledger::faults();
    ensure!(f.is_empty(), "iterator #{}, consumed by {:?}: {}", which, p, f.join("; "));
    ensure!(
        ledger::live().is_empty(),
        "iterator #{}, consumed by {:?}, left {} elements alive",
        which,
        p,
        ledger::live().len()
    );
    Ok(())
}

fn keyed_table(s: &mut Src, ctx: &mut Ctx) -> Res {
    let keys = if ctx.giant() { s.urange(2_000, 70_000) } else if ctx.scale > 0 && s.chance(1, 60) { s.us(500) } else { s.size(ctx.by_scale(6, 24, 60)) };
    let lists: Vec<Vec<u32>> =
        (0..keys).map(|_| (0..if s.chance(1, 3) { 0 } else { s.us(6) }).map(|_| s.below(keys as u64) as u32).collect()).collect();
    let mut t: RampTable<u32> = RampTable::new();
    for l in &lists {
        t.push_entry_copy(l);
    }
    // values that belong to no key yet
    let loose = if s.chance(1, 4) { s.us(4) } else { 0 };
    for i in 0..loose {
        t.push_value(i as u32);
    }
    let pairs: Vec<(usize, u32)> = lists.iter().enumerate().flat_map(|(k, l)| l.iter().map(move |&v| (k, v))).collect();
    let which = s.below(6);
    let p = plan(s, if which < 2 { keys } else { pairs.len() }, which == 0);
    ctx.sample(|| format!("iterator #{} of a table {:?} and {} loose, consumed by {:?}", which, lists, loose, p));
    for l in &lists {
        ctx.fp(l.len() as u64);
    }
    match which {
        0 => {
            note(ctx, "RampTable::iter", &p, keys);
            drive2("iter()", t.iter(), &lists, &|l: &[u32]| l.to_vec(), &p)?;
        }
        1 => {
            note(ctx, "RampTable::iter_mut", &p, keys);
            drive("iter_mut()", t.iter_mut(), &lists, &|l: &mut [u32]| l.to_vec(), &p)?;
        }
        2 => {
            note(ctx, "iter_pairs", &p, pairs.len());
            drive("iter_pairs()", t.iter_pairs(), &pairs, &|(k, v): (usize, &u32)| (k, *v), &p)?;
        }
        3 => {
            note(ctx, "iter_pairs_manual", &p, pairs.len());
            drive("iter_pairs_manual()", t.iter_pairs_manual(), &pairs, &|(k, v): (usize, &u32)| (k, *v), &p)?;
        }
        _ => {
            let g = Graph { edges: t };
            if which == 4 {
                note(ctx, "iter_edges_flattened", &p, pairs.len());
                let w: Vec<(u32, u32)> = pairs.iter().map(|&(k, v)| (k as u32, v)).collect();
                drive("iter_edges_flattened()", g.iter_edges_flattened(), &w, &|e: (u32, u32)| e, &p)?;
            } else {
                note(ctx, "iter_from_edges", &p, keys);
                let w: Vec<(u32, Vec<u32>)> = lists.iter().enumerate().map(|(k, l)| (k as u32, l.clone())).collect();
                drive("iter_from_edges()", g.iter_from_edges(), &w, &|(k, l): (u32, &[u32])| (k, l.to_vec()), &p)?;
            }
        }
    }
    Ok(())
}

fn others(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(4) {
        0 => {
            let g = gen_dag(s, ctx.by_scale(6, 14, 22));
            if g.n == 0 {
                return Ok(());
            }
            let from = s.us(g.n);
            // the walk tree, parents first
            let mut want: Vec<u32> = Vec::new();
            let mut stack: Vec<(usize, usize)> = vec![(from, 0)];
            while let Some((v, i)) = stack.pop() {
                if i < g.adj[v].len() {
                    stack.push((v, i + 1));
                    want.push(g.adj[v][i]);
                    stack.push((g.adj[v][i] as usize, 0));
                    if want.len() > 5000 {
                        return Ok(());
                    }
                }
            }
            let graph = g.build();
            let p = plan(s, want.len(), false);
            ctx.sample(|| format!("traversal of {} from {}, consumed by {:?}", g.short(), from, p));
            note(ctx, "traverse_depth_first_preorder", &p, want.len());
            ctx.fp(g.fingerprint());
            drive("traverse_depth_first_preorder", traverse_depth_first_preorder(&graph.edges, from as u32), &want, &|v| v, &p)
        }
        #[cfg(verif_hooks)]
        k @ (1 | 2) => {
            let n = s.size(ctx.by_scale(8, 50, 120));
            let span = s.urange(1, 5) as u64;
            let items: Vec<u64> = (0..n).map(|_| s.below(span)).collect();
            // the test need not be transitive or symmetric, and a key need not equal itself
            let style = s.below(4);
            let same = move |a: u64, b: u64| match style {
                0 => a == b,
                1 if k == 1 => a.max(b) - a.min(b) < 2,
                1 => a == b,
                2 if k == 1 => a <= b,
                2 => a / 2 == b / 2,
                _ => a == b && a != 0,
            };
            let mut want: Vec<Vec<u64>> = Vec::new();
            for &x in &items {
                match want.last_mut() {
                    Some(r) if same(r[0], x) => r.push(x),
                    _ => want.push(vec![x]),
                }
            }
            let p = plan(s, want.len(), false);
            ctx.sample(|| format!("runs of {:?}, consumed by {:?}", items, p));
            ctx.fp(items.iter().fold(7, |h, x| vh::mix(h ^ x)));
            if k == 1 {
                note(ctx, "iter_runs of a slice", &p, want.len());
                drive("iter_runs", iter_runs(&items, |a, b| same(*a, *b)), &want, &|r: &[u64]| r.to_vec(), &p)
            } else {
                note(ctx, "iter_runs_by_key", &p, want.len());
                let key = |a: &u64| match style {
                    2 => (a / 2) as f64,
                    3 if *a == 0 => f64::NAN,
                    _ => *a as f64,
                };
                drive("iter_runs_by_key", iter_runs_by_key(&items, key), &want, &|r: &[u64]| r.to_vec(), &p)
            }
        }
        _ => {
            let n = s.size(ctx.by_scale(8, 40, 100));
            let mut text = String::new();
            let mut want: Vec<Token> = Vec::new();
            for i in 0..n {
                match s.below(6) {
                    0 => {
                        text.push('{');
                        want.push(Token::LCurly);
                    }
                    1 => {
                        text.push_str("a1 ");
                        want.push(Token::Ident("a1".into()));
                    }
                    2 => {
                        text.push_str(&format!("{} ", i));
                        want.push(Token::Integer(i as i64));
                    }
                    3 => {
                        text.push_str("\"s\"");
                        want.push(Token::String("s".into()));
                    }
                    4 => {
                        text.push_str("->\n");
                        want.push(Token::Arrow);
                    }
                    _ => {
                        text.push(';');
                        want.push(Token::Semicolon);
                    }
                }
            }
            let p = plan(s, n, false);
            ctx.sample(|| format!("tokens of {:?}, consumed by {:?}", text, p));
            ctx.fp_str(&text);
            note(ctx, "Lexer", &p, n);
            drive("Lexer", Lexer::new(&text), &want, &|t| t, &p)
        }
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Result<(), Viol> {
    match s.below(8) {
        0..=3 => option_vector(s, ctx),
        4 | 5 => keyed_table(s, ctx),
        _ => others(s, ctx),
    }
}

fn main() {
    worker("C10", run)
}
