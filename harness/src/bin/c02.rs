//! Every element is destroyed exactly once, whatever happens half-way.

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use trellis::vec_option::VecOption;
use vh::ledger::{self, Cb, Z, T};
use vh::{cut, ensure, viol, worker, Ctx, Mode, Res, Src, Unwound};

/// An iterator of options that may panic, with a size hint that may be wrong.
struct Feed {
    items: std::vec::IntoIter<Option<T>>,
    lower: usize,
}
impl Iterator for Feed {
    type Item = Option<T>;
    fn next(&mut self) -> Option<Option<T>> {
        ledger::tick_next();
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lower, None)
    }
}

struct World {
    v: Vec<VecOption<T>>,
    /// what each collection holds, as ids
    m: Vec<Vec<Option<u64>>>,
    /// elements that the caller holds
    held: Vec<T>,
    /// ids that may never be destroyed, because somebody was told to forget them
    lost: Vec<u64>,
    faulted: bool,
}

fn entries(s: &mut Src, max: usize) -> Vec<Option<T>> {
    let n = s.size(max);
    let style = s.below(4);
    (0..n)
        .map(|_| match style {
            0 => Some(T::new(s.below(3))),
            1 => None,
            _ => {
                if s.chance(2, 3) {
                    Some(T::new(s.below(3)))
                } else {
                    None
                }
            }
        })
        .collect()
}

fn id(t: &T) -> u64 {
    t.check().unwrap_or(u64::MAX)
}
fn ids(e: &[Option<T>]) -> Vec<Option<u64>> {
    e.iter().map(|o| o.as_ref().map(id)).collect()
}

/// Reads a collection's contents, by reference only.
fn look(v: &VecOption<T>) -> Result<Vec<Option<u64>>, String> {
    let mut out = Vec::new();
    for (i, o) in v.iter().enumerate() {
        match o {
            None => out.push(None),
            Some(t) => match t.check() {
                Some(id) => out.push(Some(id)),
                None => return Err(format!("entry {} is not a live element", i)),
            },
        }
    }
    if out.len() != v.len() {
        return Err(format!("len() is {} but iter() yields {}", v.len(), out.len()));
    }
    Ok(out)
}

impl World {
    fn audit(&mut self, what: &str, after_fault: bool) -> Res {
        let f = ledger::faults();
        ensure!(f.is_empty(), "{}: {}", what, f.join("; "));
        let mut owned: Vec<u64> = Vec::new();
        for (k, v) in self.v.iter().enumerate() {
            let seen = match cut(|| look(v)) {
                Ok(Ok(s)) => s,
                Ok(Err(e)) => viol!("{}: collection {}: {}", what, k, e),
                Err(u) => viol!("{}: collection {} can no longer be inspected: {}", what, k, u),
            };
            if after_fault {
                self.m[k] = seen.clone();
            } else {
                ensure!(
                    seen == self.m[k],
                    "{}: collection {} holds {:?}, expected {:?}",
                    what,
                    k,
                    seen,
                    self.m[k]
                );
            }
            owned.extend(seen.iter().flatten());
        }
        for t in &self.held {
            match t.check() {
                Some(i) => owned.push(i),
                None => viol!("{}: an element that was handed out has been destroyed or moved", what),
            }
        }
        let mut sorted = owned.clone();
        sorted.sort();
        for w in sorted.windows(2) {
            ensure!(w[0] != w[1], "{}: element {} has two owners", what, w[0]);
        }
        let live = ledger::live();
        if after_fault {
            // what leaked because of the panic is nobody's any more
            self.lost = live.iter().copied().filter(|i| sorted.binary_search(i).is_err()).collect();
        } else {
            let mut want = sorted.clone();
            want.extend(&self.lost);
            want.sort();
            for i in &want {
                ensure!(live.binary_search(i).is_ok(), "{}: element {} was destroyed too early", what, i);
            }
            for i in &live {
                ensure!(want.binary_search(i).is_ok(), "{}: element {} leaked: nobody owns it", what, i);
            }
        }
        Ok(())
    }
}

fn history(s: &mut Src, ctx: &mut Ctx, log: &mut Vec<String>) -> Res {
    ledger::reset();
    ledger::really_free(ctx.mode != Mode::Plain);
    let max = if ctx.scale > 0 && s.chance(1, 3000) { 4000 } else { ctx.by_scale(10, 40, 80) };
    let mut w = World { v: Vec::new(), m: Vec::new(), held: Vec::new(), lost: Vec::new(), faulted: false };
    let e = entries(s, max);
    w.m.push(ids(&e));
    w.v.push(e.into_iter().collect());
    w.audit("start", false)?;
    let ops = s.urange(1, ctx.by_scale(6, 30, 60));
    let may_fault = s.chance(1, 2);
    let mut kinds = 0u64;
    for _ in 0..ops {
        if w.v.is_empty() {
            let e = entries(s, max);
            w.m.push(ids(&e));
            w.v.push(e.into_iter().collect());
        }
        let k = s.us(w.v.len());
        let n = w.m[k].len();
        let armed = may_fault && s.chance(1, 3);
        let op = s.below(22);
        kinds |= 1 << op;
        // arguments are made before the fuse goes in
        let arg = entries(s, if (3..=6).contains(&op) { 12 } else { 0 });
        let arg_ids = ids(&arg);
        let one = T::new(s.below(3));
        let one_id = id(&one);
        let i = if n > 0 { s.us(n) } else { 0 };
        let j = if n > 0 { s.us(n) } else { 0 };
        let (lo, hi) = if n > 0 {
            let a = s.urange(0, n);
            (a, s.urange(a, n))
        } else {
            (0, 0)
        };
        let take = s.urange(0, n + 1);
        let forget = s.chance(1, 6);
        let style = s.below(4);
        let cb = match op {
            3..=5 => *s.pick(&[Cb::Next, Cb::Drop]),
            6 | 7 => *s.pick(&[Cb::Clone, Cb::Drop]),
            8 => *s.pick(&[Cb::Compare, Cb::Hash]),
            _ => Cb::Drop,
        };
        if armed {
            let after = s.us(n.max(arg.len()) + 2) as u32;
            ledger::arm(cb, after);
        }
        let mut one = Some(one);
        let held = &mut w.held;
        let lost = &mut w.lost;
        let mut gone: Option<usize> = None;
        // what the contents are if nothing panics
        let mut m2 = w.m[k].clone();
        let mut extra: Option<(VecOption<T>, Vec<Option<u64>>)> = None;
        let mut wrong: Option<String> = None;
        let r: Result<&'static str, Unwound>;
        {
            let vs = &mut w.v;
            let extra = &mut extra;
            let gone = &mut gone;
            let wrong = &mut wrong;
            let one = &mut one;
            let m2 = &mut m2;
            r = match op {
                0 => cut(|| {
                    vs[k].push(one.take());
                    m2.push(Some(one_id));
                    "push"
                }),
                1 => cut(|| {
                    vs[k].push_none();
                    m2.push(None);
                    "push_none"
                }),
                2 => cut(|| {
                    let got = match style {
                        0 => vs[k].pop_some(),
                        _ => vs[k].pop().flatten(),
                    };
                    let mut want = None;
                    if style == 0 {
                        while let Some(x) = m2.pop() {
                            if x.is_some() {
                                want = x;
                                break;
                            }
                        }
                    } else {
                        want = m2.pop().flatten();
                    }
                    if got.as_ref().map(id) != want {
                        *wrong = Some("pop returned another element".into());
                    }
                    held.extend(got);
                    "pop"
                }),
                3 => cut(|| {
                    let lower = if style == 0 { arg.len() } else { style as usize * 3 };
                    vs[k].extend(Feed { items: arg.into_iter(), lower });
                    m2.extend(arg_ids);
                    "extend"
                }),
                4 => cut(|| {
                    let v: VecOption<T> = Feed { items: arg.into_iter(), lower: style as usize }.collect();
                    *extra = Some((v, arg_ids));
                    "collect"
                }),
                5 => cut(|| {
                    let some: Vec<T> = arg.into_iter().flatten().collect();
                    let m: Vec<Option<u64>> = arg_ids.into_iter().filter(|o| o.is_some()).collect();
                    *extra = Some((VecOption::from_vec(some), m));
                    "from_vec"
                }),
                6 if style >= 2 => cut(|| {
                    // over entries that are already there
                    let c: VecOption<T> = arg.into_iter().collect();
                    *extra = Some((c, arg_ids));
                    let (c, cm) = extra.as_mut().unwrap();
                    c.clone_from(&vs[k]);
                    *cm = c.iter().map(|o| o.map(id)).collect();
                    if cm.len() != m2.len() || cm.iter().zip(m2.iter()).any(|(a, b)| a.is_some() != b.is_some()) {
                        *wrong = Some("the clone has other entries".into());
                    }
                    "clone_from"
                }),
                6 => cut(|| {
                    held.extend(arg.into_iter().flatten());
                    let c = vs[k].clone();
                    let cm: Vec<Option<u64>> = c.iter().map(|o| o.map(id)).collect();
                    if cm.len() != m2.len() || cm.iter().zip(m2.iter()).any(|(a, b)| a.is_some() != b.is_some()) {
                        *wrong = Some("the clone has other entries".into());
                    }
                    *extra = Some((c, cm));
                    "clone"
                }),
                7 => cut(|| {
                    if n > 0 {
                        held.extend(vs[k].get_clone(i));
                    }
                    "get_clone"
                }),
                8 => cut(|| {
                    let o = j % vs.len();
                    let mut h = DefaultHasher::new();
                    vs[k].hash(&mut h);
                    let _ = (vs[k] == vs[o], vs[k].cmp(&vs[o]), vs[k].partial_cmp(&vs[o]));
                    "compare and hash"
                }),
                9 => cut(|| {
                    if n > 0 {
                        held.extend(vs[k].replace(i, one.take()));
                        m2[i] = Some(one_id);
                    }
                    "replace"
                }),
                10 => cut(|| {
                    if n > 0 {
                        held.extend(vs[k].replace_none(i));
                        m2[i] = None;
                    }
                    "replace_none"
                }),
                11 => cut(|| {
                    if n > 0 {
                        m2[i] = Some(one_id);
                        vs[k].set_some(i, one.take().unwrap());
                    }
                    "set_some"
                }),
                12 => cut(|| {
                    if n > 0 {
                        m2[i] = None;
                        if style == 0 {
                            vs[k].set(i, None)
                        } else {
                            vs[k].set_none(i);
                        }
                    }
                    "set_none"
                }),
                13 => cut(|| {
                    if n > 0 {
                        vs[k].swap(i, j);
                        m2.swap(i, j);
                    }
                    "swap"
                }),
                14 => cut(|| {
                    vs[k].compact();
                    m2.retain(|o| o.is_some());
                    "compact"
                }),
                15 | 16 => cut(|| {
                    let mut got = Vec::new();
                    let mut d = vs[k].drain(lo..hi);
                    for _ in 0..take {
                        match d.next() {
                            Some(x) => got.push(x),
                            None => break,
                        }
                    }
                    let want: Vec<Option<u64>> = m2[lo..hi].iter().copied().take(take).collect();
                    if ids(&got) != want {
                        *wrong = Some("drain returned other elements".into());
                    }
                    if forget && lo < hi {
                        std::mem::forget(d);
                        for x in m2.iter_mut().skip(lo).take(want.len()) {
                            *x = None;
                        }
                    } else {
                        m2.drain(lo..hi);
                        drop(d);
                    }
                    held.extend(got.into_iter().flatten());
                    "drain"
                }),
                17 => cut(|| {
                    *gone = Some(k);
                    let v = std::mem::replace(&mut vs[k], VecOption::new());
                    let mut it = v.into_iter();
                    let mut got = Vec::new();
                    for _ in 0..take {
                        match it.next() {
                            Some(x) => got.push(x),
                            None => break,
                        }
                    }
                    let want: Vec<Option<u64>> = m2.iter().copied().take(take).collect();
                    if ids(&got) != want {
                        *wrong = Some("into_iter returned other elements".into());
                    }
                    if forget {
                        std::mem::forget(it);
                        lost.extend(m2.iter().skip(take).flatten());
                    } else {
                        drop(it);
                    }
                    held.extend(got.into_iter().flatten());
                    "into_iter"
                }),
                18 => cut(|| {
                    *gone = Some(k);
                    let v = std::mem::replace(&mut vs[k], VecOption::new());
                    let mut it = v.into_some_iter();
                    let mut got = Vec::new();
                    for _ in 0..take {
                        match it.next() {
                            Some(x) => got.push(x),
                            None => break,
                        }
                    }
                    let want: Vec<u64> = m2.iter().flatten().copied().take(take).collect();
                    if got.iter().map(id).collect::<Vec<_>>() != want {
                        *wrong = Some("into_some_iter returned other elements".into());
                    }
                    if forget {
                        std::mem::forget(it);
                        lost.extend(m2.iter().flatten().skip(take));
                    } else {
                        drop(it);
                    }
                    held.extend(got);
                    "into_some_iter"
                }),
                19 => cut(|| {
                    *gone = Some(k);
                    let v = std::mem::replace(&mut vs[k], VecOption::new());
                    let vec = v.some_into_vec();
                    let want: Vec<u64> = m2.iter().flatten().copied().collect();
                    if vec.iter().map(id).collect::<Vec<_>>() != want {
                        *wrong = Some("some_into_vec returned other elements".into());
                    }
                    held.extend(vec);
                    "some_into_vec"
                }),
                20 => cut(|| {
                    *gone = Some(k);
                    let v = std::mem::replace(&mut vs[k], VecOption::new());
                    drop(v);
                    "drop"
                }),
                _ => cut(|| {
                    // the caller swaps elements in place
                    let mut mine = one.take();
                    for (i, o) in vs[k].iter_mut().enumerate() {
                        if let Some(t) = o {
                            if let Some(x) = mine.take() {
                                let old = std::mem::replace(t, x);
                                m2[i] = Some(one_id);
                                mine = Some(old);
                            }
                            if let (Some(a), true) = (mine.as_ref(), style == 0) {
                                // identical for the model, other element for the ledger
                                let _ = a;
                            }
                        }
                        if style > 1 {
                            break;
                        }
                    }
                    // recompute below: every present entry moved down by one
                    let new: Vec<Option<u64>> = vs[k].iter().map(|o| o.map(id)).collect();
                    *m2 = new;
                    held.extend(mine);
                    "replace through iter_mut"
                }),
            };
        }
        let fired = ledger::disarm();
        let name = match &r {
            Ok(n) => *n,
            Err(Unwound::Injected) => "interrupted operation",
            Err(Unwound::Panicked(p)) => viol!("operation {} panicked: {}", op, p),
        };
        if let Some(wr) = wrong {
            viol!("{}", wr);
        }
        log.push(format!(
            "{}{}{}",
            name,
            if fired { format!(" (op {}, {:?} panicked)", op, cb) } else { String::new() },
            if forget && (15..=18).contains(&op) { ", forgotten" } else { "" }
        ));
        ctx.ev("operations", 1);
        if fired {
            ctx.ev("panics injected into callbacks", 1);
        }
        if forget && (15..=18).contains(&op) {
            ctx.ev("iterators forgotten", 1);
        }
        w.m[k] = m2;
        if let Some((v, m)) = extra {
            if w.v.len() < 4 {
                w.v.push(v);
                w.m.push(m);
            } else {
                drop(v);
            }
        }
        if let Some(g) = gone {
            if style == 0 {
                // go on with an empty one
                w.m[g] = Vec::new();
            } else {
                w.v.remove(g);
                w.m.remove(g);
            }
        }
        drop(one);
        if w.held.len() > 60 {
            w.held.clear();
        }
        w.audit(name, fired)?;
        ctx.ev("ledger audits", 1);
        w.faulted |= fired;
    }
    // the end of everything
    if s.chance(1, 3) && may_fault {
        // a collection dropped while a destructor panics
        if let Some(v) = w.v.pop() {
            w.m.pop();
            let n = v.len();
            ledger::arm(Cb::Drop, s.us(n + 1) as u32);
            let r = cut(|| drop(v));
            let fired = ledger::disarm();
            if let Err(Unwound::Panicked(p)) = r {
                viol!("drop panicked: {}", p);
            }
            log.push(format!("drop{}", if fired { " (Drop panicked)" } else { "" }));
            w.audit("drop", fired)?;
            w.faulted |= fired;
        }
    }
    let lost: Vec<u64> = w.lost.clone();
    w.held.clear();
    w.v.clear();
    let f = ledger::faults();
    ensure!(f.is_empty(), "at the end: {}", f.join("; "));
    let live = ledger::live();
    for i in &live {
        ensure!(lost.contains(i), "at the end element {} has not been destroyed", i);
    }
    for i in &lost {
        ensure!(live.contains(i), "element {} was destroyed although it was forgotten", i);
    }
    ctx.ev("elements tracked", ledger::made() as u64);
    ctx.ev("destructor calls", ledger::calls()[0]);
    if kinds.count_ones() >= 3 {
        ctx.nontrivial();
    }
    Ok(())
}

/// Elements without size: as many destroyed as made.
fn zst(s: &mut Src, ctx: &mut Ctx, log: &mut Vec<String>) -> Res {
    ledger::reset();
    let mut v: VecOption<Z> = VecOption::new();
    let mut m: Vec<bool> = Vec::new();
    for _ in 0..s.urange(1, 30) {
        let n = m.len();
        match s.below(8) {
            0 | 1 => {
                let some = s.chance(2, 3);
                log.push(format!("push {}", some));
                v.push(if some { Some(Z::new()) } else { None });
                m.push(some);
            }
            2 => {
                log.push("pop".into());
                v.pop();
                m.pop();
            }
            3 if n > 0 => {
                let a = s.urange(0, n);
                let b = s.urange(a, n);
                log.push(format!("drain {}..{}", a, b));
                let k = s.us(b - a + 1);
                v.drain(a..b).take(k).for_each(drop);
                m.drain(a..b);
            }
            4 => {
                log.push("compact".into());
                v.compact();
                m.retain(|x| *x);
            }
            5 if n > 0 => {
                let i = s.us(n);
                log.push(format!("set {}", i));
                v.set_some(i, Z::new());
                m[i] = true;
            }
            6 => {
                log.push("clone".into());
                v = v.clone();
            }
            _ => {
                log.push("into_iter and back".into());
                let old = std::mem::replace(&mut v, VecOption::new());
                let k = s.us(n + 1);
                let mut it = old.into_iter();
                for _ in 0..k {
                    it.next();
                }
                v = it.collect();
                m.drain(..k);
            }
        }
        let inside = m.iter().filter(|x| **x).count() as u64;
        let (made, gone) = ledger::zst_counts();
        ensure!(v.len() == m.len(), "length {} instead of {}", v.len(), m.len());
        ensure!(
            made - gone == inside,
            "{} made, {} destroyed, but {} are inside",
            made,
            gone,
            inside
        );
        ctx.ev("ledger audits", 1);
    }
    drop(v);
    let (made, gone) = ledger::zst_counts();
    ensure!(made == gone, "{} made, {} destroyed", made, gone);
    ctx.nontrivial();
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut log = Vec::new();
    let r = if s.chance(1, 20) { zst(s, ctx, &mut log) } else { history(s, ctx, &mut log) };
    for l in &log {
        ctx.fp_str(l);
    }
    ctx.sample(|| log.join("; "));
    ledger::disarm();
    let bad = vh::alloc::bad();
    if bad > 0 {
        return Err(vh::Viol(format!("{} blocks were released wrongly or overrun", bad)));
    }
    r
}

fn main() {
    worker("C02", run)
}
