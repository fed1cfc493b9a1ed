//! Storage: where entries live, how much room they take, and when the allocator is asked.
//!
//! The watching allocator counts every request; around each call under test the monitor takes
//! the difference, so that nothing of the harness itself is counted.

use std::cell::Cell;
use trellis::disjoint::find_disjoint_subgraphs;
use trellis::find_chains::find_chains;
use trellis::graph::Graph;
use trellis::layering::{create_layer_map, create_proper_graph};
use trellis::ortho::shortest_path::find_shortest_path;
use trellis::priority_queue::PQ;
use trellis::ramp_table::{RampTable, RampTableBuilder};
use trellis::topo_sort::{topo_sort, topo_sort_reverse};
use trellis::vec_option::VecOption;
use vh::alloc;
use vh::gens::{gen_any, gen_dag, stretch};
use vh::{ensure, must, worker, Ctx, Res, Src, Viol};

/// What one call did to the heap.
#[derive(Clone, Copy, Debug)]
struct Use {
    /// requests for memory
    asked: u64,
    /// change of the live bytes
    held: i64,
    /// highest live bytes during the call, above those before it
    peak: i64,
}

fn watch<R, F: FnOnce() -> R>(what: &str, f: F) -> Result<(R, Use), Viol> {
    let slot: Cell<Option<R>> = Cell::new(None);
    alloc::restart_peak();
    let (t0, (_, b0)) = (alloc::total(), alloc::live());
    must(what, || slot.set(Some(f())))?;
    let (t1, (_, b1), pk) = (alloc::total(), alloc::live(), alloc::peak());
    let r = slot.into_inner().expect("result");
    Ok((r, Use { asked: t1 - t0, held: b1 - b0, peak: pk - b0 }))
}

trait Elem: Clone + PartialEq + std::fmt::Debug + 'static {
    fn make(x: u64) -> Self;
}
macro_rules! ints {
    ($($t:ty),*) => { $(impl Elem for $t { fn make(x: u64) -> Self { x as $t } })* };
}
ints!(u8, u16, u32, u64, u128);
impl Elem for (u64, u8) {
    fn make(x: u64) -> Self {
        (x, x as u8)
    }
}
impl Elem for [u8; 3] {
    fn make(x: u64) -> Self {
        [x as u8, (x >> 8) as u8, (x >> 16) as u8]
    }
}
impl Elem for [u64; 9] {
    fn make(x: u64) -> Self {
        [x; 9]
    }
}

/// Bytes of one bit per entry, in whole words.
fn bits(n: usize) -> i64 {
    (n / 8 + 64) as i64
}

fn history<T: Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let size = std::mem::size_of::<T>();
    let most = ctx.by_scale(20, 200, 600);
    let most = if ctx.scale > 0 && s.chance(1, 60) { 20_000 } else { most };
    let mut held;
    // the most entries ever inside or asked for
    let mut room: usize;
    // entries that fit in without asking the allocator
    let mut free: usize = 0;
    // the address of the items, as far as it must not change
    let mut at: Option<usize> = None;
    let mut log: Vec<String> = Vec::with_capacity(64);
    let mut v: VecOption<T>;
    let n = s.size(most);
    match s.below(5) {
        0 => {
            let (x, u) = watch("new", VecOption::<T>::new)?;
            ensure!(u.asked == 0, "new() asked the allocator {} times before anything was pushed", u.asked);
            v = x;
            room = 0;
            held = u.held;
            log.push("new".into());
        }
        1 => {
            let (x, u) = watch("with_capacity", || VecOption::<T>::with_capacity(n))?;
            ensure!(
                u.held <= (n * size) as i64 + bits(n),
                "with_capacity({}) for elements of {} bytes holds {} bytes",
                n,
                size,
                u.held
            );
            v = x;
            room = n;
            free = n;
            held = u.held;
            log.push(format!("with_capacity({})", n));
        }
        2 => {
            let (x, u) = watch("new_repeat_none", || VecOption::<T>::new_repeat_none(n))?;
            ensure!(
                u.held <= (n * size) as i64 + bits(n),
                "new_repeat_none({}) for elements of {} bytes holds {} bytes",
                n,
                size,
                u.held
            );
            v = x;
            room = n;
            held = u.held;
            log.push(format!("new_repeat_none({})", n));
        }
        3 => {
            let mut plain: Vec<T> = Vec::with_capacity(n + s.us(9));
            for i in 0..n {
                plain.push(T::make(i as u64 * 77));
            }
            let (cap, ptr) = (plain.capacity(), plain.as_ptr() as usize);
            let (x, u) = watch("from_vec", || VecOption::from_vec(plain))?;
            ensure!(
                u.peak <= bits(n),
                "from_vec of {} items of {} bytes took {} bytes more: the items were moved",
                n,
                size,
                u.peak
            );
            v = x;
            if n > 0 {
                let (q, _) = watch("get_ref", || v.get_ref(0).map(|r| r as *const T as usize))?;
                ensure!(q == Some(ptr), "from_vec moved the items to another place");
                at = Some(ptr);
            }
            room = cap;
            held = u.held + (cap * size) as i64;
            log.push(format!("from_vec({} of {})", n, cap));
        }
        _ => {
            let src: Vec<Option<T>> = (0..n).map(|i| if i % 3 == 1 { None } else { Some(T::make(i as u64)) }).collect();
            let it = src.into_iter();
            let left = (n * std::mem::size_of::<Option<T>>()) as i64;
            let (x, u) = watch("collect", || it.collect::<VecOption<T>>())?;
            v = x;
            room = n;
            held = u.held + left;
            log.push(format!("collect {}", n));
        }
    }
    let steps = s.urange(1, ctx.by_scale(6, 24, 60));
    for _ in 0..steps {
        let len = v.len();
        let before = at;
        let mut grows = false;
        let what;
        let u: Use;
        match s.below(12) {
            0 | 1 | 2 => {
                let k = s.size(most);
                let kind = s.below(3);
                what = format!("push {}", k);
                let fits = k <= free;
                let (_, x) = watch("push", || {
                    for i in 0..k {
                        match kind {
                            0 => v.push_some(T::make(i as u64)),
                            1 => v.push_none(),
                            _ => v.push(if i % 2 == 0 { Some(T::make(i as u64)) } else { None }),
                        }
                    }
                })?;
                u = x;
                if fits {
                    ensure!(
                        u.asked == 0,
                        "pushing {} entries into room reserved for {} asked the allocator {} times: {:?}",
                        k,
                        free,
                        u.asked,
                        log
                    );
                    ctx.ev("pushes into reserved room", k as u64);
                    free -= k;
                } else {
                    grows = true;
                    let doublings = (usize::BITS - (len + k).leading_zeros()) as u64;
                    ensure!(
                        u.asked <= 2 * doublings + 8,
                        "pushing {} entries onto {} asked the allocator {} times",
                        k,
                        len,
                        u.asked
                    );
                    free = 0;
                }
            }
            3 => {
                let k = s.size(most);
                what = format!("reserve {}", k);
                let (_, x) = watch("reserve", || v.reserve(k))?;
                u = x;
                if k <= free {
                    ensure!(u.asked == 0, "reserve({}) asked the allocator although {} fit in: {:?}", k, free, log);
                }
                grows = k > free;
                free = free.max(k);
                room = room.max(len + k);
            }
            4 => {
                let k = s.size(20);
                what = format!("pop {}", k);
                let (_, x) = watch("pop", || {
                    for _ in 0..k {
                        drop(v.pop());
                    }
                })?;
                u = x;
                free += len - v.len();
            }
            5 => {
                let a = s.us(len + 1);
                let b = s.urange(a, len);
                what = format!("drain {}..{}", a, b);
                let (_, x) = watch("drain", || drop(v.drain(a..b)))?;
                u = x;
                free = if v.len() == len { free } else { 0 };
            }
            6 => {
                what = "compact".into();
                let (p, x) = watch("compact", || v.compact().as_ptr() as usize)?;
                u = x;
                free += len - v.len();
                ensure!(u.asked == 0, "compact() asked the allocator {} times", u.asked);
                ensure!(before.map_or(true, |q| p == q || v.is_empty()), "compact() moved the items to another place");
                ctx.ev("compactions watched", 1);
                if !v.is_empty() {
                    at = Some(p);
                }
            }
            7 if len > 0 => {
                let i = s.us(len);
                let kind = s.below(5);
                what = format!("change {}", i);
                let j = s.us(len);
                let (_, x) = watch("change", || match kind {
                    0 => v.set_some(i, T::make(5)),
                    1 => v.set_none(i),
                    2 => v.swap(i, j),
                    3 => drop(v.replace(i, Some(T::make(8)))),
                    _ => drop(v.get_clone(i)),
                })?;
                u = x;
                ensure!(u.asked == 0, "changing one entry asked the allocator {} times (kind {})", u.asked, kind);
            }
            8 => {
                what = "look".into();
                let (_, x) = watch("iterate", || {
                    let mut n = 0usize;
                    n += v.iter().filter(|o| o.is_some()).count();
                    n += v.iter_some_index().count();
                    for r in v.iter_runs() {
                        n += r.len();
                    }
                    n + v.len()
                })?;
                u = x;
                ensure!(u.asked == 0, "looking through the entries asked the allocator {} times", u.asked);
            }
            9 => {
                what = "clone".into();
                let (c, x) = watch("clone", || v.clone())?;
                ensure!(
                    x.held <= (len * size) as i64 + bits(len) + bits(room) * 2,
                    "a clone of {} entries of {} bytes holds {} bytes",
                    len,
                    size,
                    x.held
                );
                let (_, y) = watch("drop", || drop(c))?;
                ensure!(x.held + y.held == 0, "a clone dropped leaves {} bytes", x.held + y.held);
                u = Use { asked: 0, held: 0, peak: 0 };
            }
            10 => {
                let k = s.size(most);
                let hint = s.chance(1, 2);
                what = format!("extend {}{}", k, if hint { "" } else { " without a hint" });
                let fits = k <= free;
                let (_, x) = watch("extend", || {
                    let it = (0..k).map(|i| if i % 5 == 2 { None } else { Some(T::make(i as u64)) });
                    if hint {
                        v.extend(it)
                    } else {
                        v.extend(it.filter(|_| true))
                    }
                })?;
                u = x;
                ensure!(!fits || u.asked == 0, "extending by {} asked the allocator although {} fit in", k, free);
                grows = !fits;
                free = if fits { free - k } else { 0 };
            }
            _ => {
                what = "take apart".into();
                // to a plain vector and back
                let present = v.iter().filter(|o| o.is_some()).count();
                let whole = std::mem::replace(&mut v, VecOption::new());
                let (plain, x) = watch("some_into_vec", || whole.some_into_vec())?;
                ensure!(x.asked == 0, "some_into_vec() asked the allocator {} times", x.asked);
                ensure!(plain.len() == present, "some_into_vec() gave {} of {} items", plain.len(), present);
                if let (Some(p), true) = (at, present > 0) {
                    ensure!(plain.as_ptr() as usize == p, "some_into_vec() moved the items to another place");
                }
                let p = plain.as_ptr() as usize;
                let (w, y) = watch("from_vec", || VecOption::from_vec(plain))?;
                v = w;
                if present > 0 {
                    let q = must("get_ref", || v.get_ref(0).map(|r| r as *const T as usize))?;
                    ensure!(q == Some(p), "from_vec moved the items to another place");
                    at = Some(p);
                }
                free = 0;
                u = Use { asked: x.asked + y.asked, held: x.held + y.held, peak: 0 };
                ctx.ev("round trips through a plain vector", 1);
            }
        }
        log.push(what);
        held += u.held;
        room = room.max(v.len());
        if grows {
            at = None;
        }
        // where are the items now?
        if v.len() > 0 {
            let (base, _) = watch("get_ref", || {
                let mut first = None;
                for i in 0..v.len() {
                    if let Some(r) = v.get_ref(i) {
                        first = Some(r as *const T as usize - i * size);
                        break;
                    }
                }
                first
            })?;
            if let Some(b) = base {
                ensure!(at.map_or(true, |q| q == b), "the items moved to another place at {:?}", log);
                at = Some(b);
                ctx.ev("addresses compared", 1);
            }
        }
        // items: at most twice what was needed at once, or asked for; one bit for each
        let most_items = (2 * room).max(8) * size;
        ensure!(
            held <= most_items as i64 + 2 * bits(room) + 64,
            "{} entries of {} bytes ({} at most, or asked for) hold {} bytes: {:?}",
            v.len(),
            size,
            room,
            held,
            log
        );
        ensure!(
            held >= (v.len() * size) as i64,
            "{} entries of {} bytes cannot be in {} bytes: the account is wrong",
            v.len(),
            size,
            held
        );
        ctx.ev("accounts of the option vector", 1);
        ctx.max("most bytes held by an option vector", held as u64);
    }
    let kind = s.below(4);
    let (_, u) = watch("the end", || match kind {
        0 => drop(v),
        1 => {
            let mut it = v.into_iter();
            let _ = it.next();
        }
        2 => {
            let n = v.into_some_iter().count();
            assert!(n < usize::MAX);
        }
        _ => drop(v.some_into_vec()),
    })?;
    held += u.held;
    ensure!(held == 0, "{} bytes are still held at the end of {:?} (way {})", held, log, kind);
    ensure!(u.asked == 0 || kind == 1 || kind == 2, "dropping asked the allocator {} times", u.asked);
    for l in &log {
        ctx.fp_str(l);
    }
    ctx.fp(size as u64);
    ctx.sample(|| format!("elements of {} bytes: {}", size, log.join("; ")));
    if log.len() > 3 {
        ctx.nontrivial();
    }
    Ok(())
}

fn table<T: Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let size = std::mem::size_of::<T>();
    let most = if ctx.scale > 0 && s.chance(1, 30) { 5000 } else { ctx.by_scale(12, 80, 300) };
    let lens: Vec<usize> = (0..s.size(most)).map(|_| if s.chance(1, 3) { 0 } else { s.size(9) }).collect();
    let values: usize = lens.iter().sum();
    let keys = lens.len();
    let vals: Vec<T> = (0..9).map(|i| T::make(i * 3)).collect();
    ctx.fp(size as u64);
    for &l in &lens {
        ctx.fp(l as u64);
    }
    ctx.sample(|| format!("a table of {} keys and {} values of {} bytes", keys, values, size));
    // with room made beforehand
    let pre = s.chance(1, 2);
    let (mut t, u0) = watch("new", || {
        if pre {
            RampTable::<T>::with_capacity(keys, values)
        } else {
            RampTable::<T>::new()
        }
    })?;
    let way = s.below(4);
    let (_, u) = watch("filling a table", || {
        for &l in &lens {
            match way {
                0 => {
                    for i in 0..l {
                        t.push_value(vals[i % 9].clone());
                    }
                    t.finish_key();
                }
                1 => t.push_entry_clone(&vals[..l.min(9)]),
                2 => t.push_entry_extend(vals[..l.min(9)].iter().cloned()),
                _ => {
                    t.push_entry_extend(vals[..l.min(9)].iter().cloned().filter(|_| true));
                }
            }
        }
    })?;
    let stored = t.all_values().len();
    ensure!(t.len() == keys, "{} keys instead of {}", t.len(), keys);
    let held = u0.held + u.held;
    if pre {
        ensure!(
            u.asked == 0,
            "filling a table made for {} keys and {} values asked the allocator {} times",
            keys,
            values,
            u.asked
        );
        ensure!(
            held <= (4 * (keys + 1) + size * values) as i64 + 64,
            "a table made for {} keys and {} values of {} bytes holds {} bytes",
            keys,
            values,
            size,
            held
        );
        ctx.ev("tables filled within their room", 1);
    } else {
        ensure!(
            held <= (4 * (2 * keys + 8) + size * (2 * stored + 8)) as i64 + 64,
            "a table of {} keys and {} values of {} bytes holds {} bytes",
            keys,
            stored,
            size,
            held
        );
        ctx.ev("tables weighed", 1);
    }
    let (n, u2) = watch("looking through a table", || {
        let mut n = 0;
        for e in t.iter() {
            n += e.len();
        }
        n += t.iter_pairs().count() + t.iter_pairs_manual().count();
        for k in 0..t.len() {
            n += t.entry_values(k).len() + t[k].len() + t.entry_values_range(k).len();
        }
        for e in t.iter_mut() {
            n += e.len();
        }
        n
    })?;
    ensure!(n == 7 * stored, "the views show {} values instead of 7 times {}", n, stored);
    ensure!(u2.asked == 0, "looking through a table asked the allocator {} times", u2.asked);
    let (_, u3) = watch("clear", || t.clear())?;
    ensure!(u3.asked == 0, "clear asked the allocator {} times", u3.asked);
    let (_, u4) = watch("drop", || drop(t))?;
    ensure!(held + u3.held + u4.held == 0, "a dropped table leaves {} bytes", held + u3.held + u4.held);
    // pairs in any order
    let n = s.size(most * 4);
    let span = s.urange(1, n.max(1) * 2) as u64;
    let pairs: Vec<(u32, T)> = (0..n).map(|i| (s.below(span) as u32, T::make(i as u64))).collect();
    let top = pairs.iter().map(|p| p.0 as usize + 1).max().unwrap_or(0);
    let (t, u) = watch("building from pairs", || {
        let mut b = RampTableBuilder::new();
        for (k, x) in pairs.iter() {
            b.push(*k, x.clone());
        }
        b.finish()
    })?;
    let pair = std::mem::size_of::<(u32, T)>();
    let linear = (n * (4 * pair + 2 * size) + 8 * (top + 1)) as i64 + 8192;
    ensure!(
        u.peak <= linear,
        "building a table of {} keys from {} pairs of {} bytes takes {} bytes",
        top,
        n,
        pair,
        u.peak
    );
    ensure!(
        u.held <= (2 * n * size + 8 * (top + 1)) as i64 + 512,
        "a table of {} keys and {} values of {} bytes, built from pairs, holds {} bytes",
        top,
        n,
        size,
        u.held
    );
    drop(t);
    ctx.ev("tables built from pairs", 1);
    if keys >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn queue(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.urange(1, ctx.by_scale(8, 120, 300));
    let c = n + s.us(3);
    let items: Vec<u64> = (0..n).map(|_| s.below(50)).collect();
    for x in &items {
        ctx.fp(*x);
    }
    ctx.sample(|| format!("a queue made for {} of {} items", c, n));
    let (mut q, u0) = watch("with_capacity", || PQ::<u64>::with_capacity(c))?;
    ensure!(u0.held <= (8 * c) as i64 + 64, "a queue made for {} items of 8 bytes holds {} bytes", c, u0.held);
    let (_, u) = watch("inserts and removals", || {
        for &x in &items {
            q.insert(x);
        }
        while q.remove().is_some() {}
        for &x in &items {
            q.insert(x);
        }
        q.clear();
        for &x in &items {
            q.insert(x);
        }
    })?;
    ensure!(u.asked == 0, "a queue made for {} items asked the allocator {} times for {}", c, u.asked, n);
    let (_, u2) = watch("drop", || drop(q))?;
    ensure!(u0.held + u.held + u2.held == 0, "a dropped queue leaves {} bytes", u0.held + u.held + u2.held);
    ctx.ev("queues filled within their room", 1);
    ctx.nontrivial();
    Ok(())
}

fn graphs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max = if ctx.scale > 0 && s.chance(1, 40) { 3000 } else { ctx.by_scale(10, 60, 200) };
    let mut g = if s.chance(1, 3) { gen_any(s, max) } else { gen_dag(s, max) };
    stretch(s, ctx.scale, &mut g);
    ctx.fp(g.fingerprint());
    ctx.sample(|| g.short());
    let n = g.n + g.num_edges();
    let (graph, u) = watch("building a graph", || {
        let mut x = Graph::new();
        for l in &g.adj {
            for &t in l {
                x.push_to(t);
            }
            x.finish_from();
        }
        x
    })?;
    ensure!(
        u.held <= (8 * n) as i64 + 128,
        "a graph of {} vertices and {} edges holds {} bytes",
        g.n,
        g.num_edges(),
        u.held
    );
    // bytes for each vertex and edge: far above what a linear method needs
    let per = 256i64;
    let bound = per * n as i64 + 16_384;
    let judge = |ctx: &mut Ctx, what: &str, u: Use, extra: usize| -> Res {
        ctx.max("highest bytes per vertex and edge", (u.peak.max(0) as u64) / (n + extra + 20) as u64);
        ctx.ev("analyses weighed", 1);
        ensure!(
            u.peak <= bound + per * extra as i64,
            "{} of {} vertices and {} edges takes {} bytes: {}",
            what,
            g.n,
            g.num_edges(),
            u.peak,
            g.short()
        );
        Ok(())
    };
    let (_, u) = watch("transpose", || drop(graph.transpose()))?;
    judge(ctx, "transpose", u, 0)?;
    let (_, u) = watch("topo_sort", || drop(topo_sort(&graph)))?;
    judge(ctx, "topo_sort", u, 0)?;
    let (_, u) = watch("topo_sort_reverse", || drop(topo_sort_reverse(&graph)))?;
    judge(ctx, "topo_sort_reverse", u, 0)?;
    let (_, u) = watch("find_disjoint_subgraphs", || drop(find_disjoint_subgraphs(&graph)))?;
    judge(ctx, "find_disjoint_subgraphs", u, 0)?;
    let (_, u) = watch("find_chains", || drop(find_chains(&graph)))?;
    judge(ctx, "find_chains", u, 0)?;
    let (m, u) = watch("create_layer_map", || create_layer_map(&graph))?;
    judge(ctx, "create_layer_map", u, 0)?;
    if let Ok(m) = m {
        let skipped: u64 = g
            .edges()
            .iter()
            .map(|&(f, t)| (m.v_layer[f as usize] as u64).saturating_sub(m.v_layer[t as usize] as u64 + 1))
            .sum();
        if skipped < 2_000_000 {
            let (_, u) = watch("create_proper_graph", || drop(create_proper_graph(&graph, &m)))?;
            judge(ctx, "create_proper_graph", u, skipped as usize)?;
        }
    }
    if g.n > 0 {
        // weights of zero or more: a path is followed only if it improves on those before it
        let from = s.us(g.n);
        let to = s.us(g.n);
        let flat = s.chance(1, 2);
        let adj = &g.adj;
        let (_, u) = watch("find_shortest_path", || {
            drop(find_shortest_path(
                |v: i32| adj[v as usize].iter().map(move |&t| (t as i32, if flat { 1 } else { (v ^ t as i32) & 7 })),
                from as i32,
                to as i32,
            ))
        })?;
        judge(ctx, "find_shortest_path", u, 0)?;
    }
    ctx.max("largest graph", n as u64);
    if n >= 4 {
        ctx.nontrivial();
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(10) {
        0..=4 => match s.below(8) {
            0 => history::<u8>(s, ctx),
            1 => history::<u16>(s, ctx),
            2 => history::<u32>(s, ctx),
            3 => history::<u64>(s, ctx),
            4 => history::<u128>(s, ctx),
            5 => history::<(u64, u8)>(s, ctx),
            6 => history::<[u8; 3]>(s, ctx),
            _ => history::<[u64; 9]>(s, ctx),
        },
        5 | 6 => match s.below(4) {
            0 => table::<u8>(s, ctx),
            1 => table::<u32>(s, ctx),
            2 => table::<u64>(s, ctx),
            _ => table::<[u64; 9]>(s, ctx),
        },
        7 => queue(s, ctx),
        _ => graphs(s, ctx),
    }
}

fn main() {
    worker("C09", run)
}
