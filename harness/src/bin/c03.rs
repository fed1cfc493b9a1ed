//! Any safe call, with any arguments: memory stays sound, and nothing is leaked. The watching
//! allocator judges here; the sanitizers and the interpreter judge when this worker (and those
//! of the neighbouring properties) runs under them.

use dot_parser::lexer::Lexer;
use std::cmp::Ordering;
use trellis::common::ellipse::ellipticWedge;
use trellis::disjoint::find_disjoint_subgraphs;
use trellis::find_chains::find_chains;
use trellis::graph::Graph;
use trellis::layering::{create_layer_map, create_proper_graph, LayerMap};
use trellis::ortho::shortest_path::find_shortest_path;
use trellis::pathplan::array2::Array2;
use trellis::pathplan::cvt::Pobsopen;
use trellis::pathplan::in_poly::in_poly;
use trellis::pathplan::route::Proutespline;
use trellis::pathplan::shortest::Pshortestpath;
use trellis::pathplan::shortestpth::{makePath, shortestPath};
use trellis::pathplan::solvers::solve3;
use trellis::pathplan::visibility::{directVis, polyhit, ptVis};
use trellis::pathplan::Pedge_t;
use trellis::polyline::Ppoly_t;
use trellis::priority_queue::PQ;
use trellis::ramp_table::{RampTable, RampTableBuilder};
use trellis::topo_sort::{topo_sort, topo_sort_reverse};
use trellis::vec2::Vec2;
use trellis::vec_option::VecOption;
use vh::ledger::{self, Cb, T};
use vh::vo::{history, Elem, Wide};
use vh::world::{call, World, CALLS};
use vh::{alloc, cut, ensure, viol, worker, Ctx, Mode, Res, Src};

/// An item whose order makes no sense.
struct Odd(Box<u64>, u64);
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Odd {}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Odd {
    fn cmp(&self, o: &Odd) -> Ordering {
        match vh::mix(*self.0 ^ (*o.0 << 7) ^ self.1) % 3 {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        }
    }
}

fn hist<E: Elem>(s: &mut Src, ctx: &mut Ctx) {
    let mut sc = ctx.scratch();
    let mut log = Vec::new();
    // whether the results are right is another property's business
    let _ = history::<E>(s, &mut sc, &mut log);
}

/// A graph that may name vertices it does not have.
fn wild_graph(s: &mut Src, max: usize) -> Graph {
    let n = s.size(max);
    let over = *s.pick(&[0u32, 0, 1, 5, u32::MAX - 100_000]);
    let mut g = Graph::new();
    for _ in 0..n {
        for _ in 0..s.us(4) {
            let t = if over > 0 && s.chance(1, 8) { n as u32 + s.below(over as u64) as u32 } else { s.us(n) as u32 };
            g.push_to(t);
        }
        g.finish_from();
    }
    if s.chance(1, 6) {
        g.push_to(0); // values that belong to no vertex
    }
    g
}

fn graphs(s: &mut Src, ctx: &mut Ctx) {
    let g = wild_graph(s, ctx.by_scale(8, 30, 120));
    for _ in 0..1 + s.us(5) {
        match s.below(10) {
            0 => drop(find_disjoint_subgraphs(&g)),
            1 => drop(find_chains(&g)),
            2 => drop(topo_sort(&g)),
            3 => drop(topo_sort_reverse(&g)),
            4 => drop(create_layer_map(&g)),
            5 => drop(g.transpose()),
            6 => {
                let n = s.us(40);
                let m = LayerMap {
                    num_layers: s.us(5),
                    v_layer: (0..n).map(|_| s.below(9) as u32).collect(),
                };
                drop(create_proper_graph(&g, &m));
            }
            7 => {
                let v = s.below(40) as u32;
                drop(trellis::traverse_depth_first_preorder(g.edges(), v).take(300).collect::<Vec<_>>());
            }
            8 => {
                drop(trellis::find_sources(g.edges()));
                drop(trellis::find_sinks(g.edges()));
                drop(trellis::find_degree(g.edges().all_values(), s.below(40) as u32));
            }
            _ => {
                let left = std::cell::Cell::new(3000);
                let (a, b) = (s.range(-1, 20) as i32, s.range(-1, 20) as i32);
                let n = g.num_verts();
                drop(find_shortest_path(
                    |v| {
                        left.set(left.get() - 1);
                        let l: Vec<(i32, i32)> = if left.get() > 0 && v >= 0 && (v as usize) < n {
                            g.edges_from(v as u32).iter().map(|&t| (t as i32 % 1000, 1)).collect()
                        } else {
                            Vec::new()
                        };
                        l.into_iter()
                    },
                    a,
                    b,
                ));
            }
        }
    }
}

fn tables(s: &mut Src) {
    let mut t: RampTable<Box<u32>> = RampTable::new();
    for _ in 0..s.us(30) {
        let i = s.us(12);
        match s.below(9) {
            0..=2 => t.push_value(Box::new(i as u32)),
            3 => drop(t.finish_key()),
            4 => t.push_entry_copy_from_boxes(i),
            5 => drop(t.entry_values(i).len()),
            6 => {
                for b in t.entry_values_mut(i) {
                    **b += 1;
                }
            }
            7 => drop(t.iter_pairs().map(|(k, v)| k as u64 + **v as u64).collect::<Vec<_>>()),
            _ => {
                drop(t.iter().rev().map(|l| l.len()).collect::<Vec<_>>());
                if s.chance(1, 4) {
                    t.clear();
                }
            }
        }
    }
    let mut b: RampTableBuilder<String> = RampTableBuilder::new();
    for _ in 0..s.us(30) {
        b.push(s.below(60) as u32, "x".repeat(s.us(20)));
    }
    if s.chance(3, 4) {
        drop(b.finish());
    }
}

/// A table whose two lists, which anyone may set, do not fit each other.
fn misfit(s: &mut Src) {
    let n = s.us(20);
    let values: Vec<u32> = (0..n as u32).map(|_| s.us(12) as u32).collect();
    let mut index: Vec<u32> = (0..s.us(10)).map(|_| s.us(n + 3) as u32).collect();
    match s.below(4) {
        0 => index.sort(),
        1 => {
            index.sort();
            if let Some(l) = index.last_mut() {
                *l = *s.pick(&[u32::MAX, 1 << 31, n as u32 + 1, 1000]);
            }
        }
        2 => {
            index.sort();
            let k = s.us(index.len().max(1));
            if let Some(x) = index.get_mut(k) {
                *x = *s.pick(&[0, 0, n as u32, n as u32 + 1, u32::MAX]);
            }
        }
        _ => {}
    }
    let mut b: RampTable<Box<u32>> =
        RampTable { index: index.clone(), values: values.iter().map(|v| Box::new(*v)).collect() };
    for _ in 0..s.us(8) {
        let i = *s.pick(&[0usize, 1, 2, 3, 5, 9, usize::MAX]);
        let k = s.below(12);
        drop(cut(|| match k {
            0 => drop(b.entry_values(i).iter().map(|v| **v as u64).sum::<u64>()),
            1 => b.entry_values_mut(i).iter_mut().for_each(|v| **v ^= 1),
            2 => drop(b[i].len()),
            3 => b[i].iter_mut().for_each(|v| **v ^= 2),
            4 => drop(b.iter().map(|l| l.iter().map(|v| **v as u64).sum::<u64>()).collect::<Vec<_>>()),
            5 => drop(b.iter().rev().map(|l| l.len()).collect::<Vec<_>>()),
            6 => {
                let all: Vec<&mut [Box<u32>]> = b.iter_mut().collect();
                for l in all {
                    l.iter_mut().for_each(|v| **v ^= 4);
                }
            }
            7 => drop(b.iter_pairs().map(|(k, v)| k as u64 ^ **v as u64).collect::<Vec<_>>()),
            8 => drop(b.iter_pairs_manual().map(|(k, v)| k as u64 ^ **v as u64).take(200).collect::<Vec<_>>()),
            9 => drop(b.push_value(Box::new(7))),
            10 => drop(b.finish_key()),
            _ => drop((b == b.clone(), b.entry_values_range(i))),
        }));
    }
    let g = Graph { edges: RampTable { index, values } };
    for _ in 0..s.us(4) {
        let k = s.below(9);
        let v = s.below(12) as u32;
        drop(cut(|| match k {
            0 => drop(find_disjoint_subgraphs(&g)),
            1 => drop(find_chains(&g)),
            2 => drop(topo_sort(&g)),
            3 => drop(create_layer_map(&g)),
            4 => drop(g.transpose()),
            5 => drop(trellis::find_sources(g.edges())),
            6 => drop(trellis::traverse_depth_first_preorder(g.edges(), v).take(100).collect::<Vec<_>>()),
            7 => drop(g.edges_from(v).len()),
            _ => drop((g.iter_edges_flattened().count(), trellis::find_sinks(g.edges()))),
        }));
    }
}

/// Settings and matrices, whose fields anyone may set, that do not fit each other.
fn misfit_geometry(s: &mut Src) {
    let obs: Vec<Ppoly_t> = (0..s.us(4)).map(|_| { let n = s.us(6); pts(s, n, false) }).collect();
    let mut conf = Pobsopen(&obs.iter().collect::<Vec<_>>());
    for _ in 0..s.urange(1, 3) {
        let x = *s.pick(&[-1, 0, 1, 2, 5, 20, i32::MAX, i32::MIN]);
        let i = s.us(20);
        match s.below(8) {
            0 => conf.N = s.us(30),
            1 => conf.Npoly = s.us(9),
            2 => conf.start.iter_mut().skip(i % 4).take(1).for_each(|v| *v = x),
            3 => conf.next.iter_mut().skip(i).take(1).for_each(|v| *v = x),
            4 => conf.prev.iter_mut().skip(i).take(1).for_each(|v| *v = x),
            5 => conf.P.truncate(i),
            6 => conf.next.truncate(i),
            _ => conf.start.truncate(i % 4),
        }
    }
    let (p, q) = (pts(s, 1, false).ps[0], pts(s, 1, false).ps[0]);
    for _ in 0..s.urange(1, 4) {
        let (a, b) = (*s.pick(&[-1111, -2222, 0, 1, 2, 9]), *s.pick(&[-1111, -2222, 0, 1, 2, 9]));
        let k = s.below(4);
        drop(cut(|| match k {
            0 => drop(polyhit(&conf, p)),
            1 => drop(ptVis(&conf, a, p)),
            2 => drop(directVis(p, a, q, b, &conf)),
            _ => trellis::pathplan::visibility::visibility(&mut conf),
        }));
    }
    let (r, c) = (s.us(6), s.us(6));
    let mut m: Array2<f64> = Array2::new(r, c, s.us(3));
    for _ in 0..s.us(8) {
        let at = (*s.pick(&[0, 1, 2, 5, 6, usize::MAX]), *s.pick(&[0, 1, 2, 5, 7, 40, usize::MAX]));
        let k = s.below(4);
        drop(cut(|| match k {
            0 => m[at] += 1.0,
            1 => drop(m[at].sqrt()),
            2 => m.row_size = at.0,
            _ => m.vec.truncate(at.1),
        }));
    }
}

/// What may go to another thread, or be shared with one.
mod threads {
    use std::cell::Cell;
    use std::marker::PhantomData;
    use std::rc::Rc;
    use std::sync::MutexGuard;
    use trellis::priority_queue::PQ;
    use trellis::ramp_table::{IterMut, RampTable, RampTableBuilder};
    use trellis::vec_option::*;

    pub struct Probe<T>(PhantomData<T>);
    pub fn probe<T>(_: &T) -> Probe<T> {
        Probe(PhantomData)
    }
    pub trait Not {
        fn send(&self) -> bool {
            false
        }
        fn sync(&self) -> bool {
            false
        }
        fn twice(&self) -> bool {
            false
        }
    }
    impl<T> Not for Probe<T> {}
    impl<T: Send> Probe<T> {
        pub fn send(&self) -> bool {
            true
        }
    }
    impl<T: Sync> Probe<T> {
        pub fn sync(&self) -> bool {
            true
        }
    }
    impl<T: Clone> Probe<T> {
        pub fn twice(&self) -> bool {
            true
        }
    }
    /// Has no second owner.
    pub struct One(#[allow(dead_code)] Box<u8>);
    // neither; only to be moved; only to be shared
    type N = Rc<u8>;
    type M = Cell<u8>;
    type S = MutexGuard<'static, u8>;

    /// The types that claim more than their items allow.
    pub fn wrong() -> (Vec<&'static str>, u64) {
        let mut bad = Vec::new();
        let mut asked = 0u64;
        macro_rules! never {
            ($($what:ident $t:ty;)*) => { $(
                asked += 1;
                if Probe::<$t>(PhantomData).$what() {
                    bad.push(concat!(stringify!($t), " can be ", stringify!($what)));
                }
            )* };
        }
        never! {
            send VecOption<N>; send VecOption<S>; sync VecOption<N>; sync VecOption<M>;
            send IntoIter<N>; send IntoIter<S>; send IntoSomeIter<N>; send IntoSomeIter<S>;
            send Drain<'static, N>; send Drain<'static, S>; send IterRunsMut<'static, N>; send IterRunsMut<'static, S>;
            send IterRuns<'static, N>; send IterRuns<'static, M>;
            send RampTable<N>; send RampTable<S>; sync RampTable<N>; sync RampTable<M>;
            send RampTableBuilder<N>; send RampTableBuilder<S>;
            send IterMut<'static, N>; send IterMut<'static, S>;
            send PQ<N>; send PQ<S>; sync PQ<N>; sync PQ<M>;
        }
        // Two of one of these would lend or own the same items twice.
        never! {
            twice IterRunsMut<'static, u8>; twice Drain<'static, u8>; twice IterMut<'static, u8>;
            twice IntoIter<One>; twice IntoSomeIter<One>; twice VecOption<One>; twice RampTable<One>; twice PQ<One>;
        }
        macro_rules! once {
            ($($e:expr;)*) => { $(
                asked += 1;
                if probe(&$e).twice() {
                    bad.push(concat!(stringify!($e), " can be cloned"));
                }
            )* };
        }
        let mut o: VecOption<u8> = VecOption::new();
        let mut p: RampTable<u8> = RampTable::new();
        once! { o.iter_mut(); o.iter_some_index_mut(); o.iter_runs_mut(); o.drain(..); p.iter_mut(); }
        macro_rules! iters {
            ($($e:expr;)*) => { $(
                asked += 1;
                if probe(&$e).send() {
                    bad.push(concat!(stringify!($e), " can be send"));
                }
            )* };
        }
        let mut n: VecOption<N> = VecOption::new();
        let m: VecOption<M> = VecOption::new();
        let mut g: VecOption<S> = VecOption::new();
        let t: RampTable<M> = RampTable::new();
        iters! { n.iter(); n.iter_mut(); n.iter_some_index(); n.iter_some_index_mut(); m.iter(); m.iter_some_index();
            g.iter_mut(); g.iter_some_index_mut(); t.iter(); t.iter_pairs(); t.iter_pairs_manual(); }
        (bad, asked)
    }
}

trait Boxes {
    fn push_entry_copy_from_boxes(&mut self, n: usize);
}
impl Boxes for RampTable<Box<u32>> {
    fn push_entry_copy_from_boxes(&mut self, n: usize) {
        for i in 0..n {
            self.push_value(Box::new(i as u32));
        }
        self.finish_key();
    }
}

fn queue(s: &mut Src) {
    let mut q = if s.chance(1, 2) { PQ::new() } else { PQ::with_capacity(s.us(9)) };
    let salt = s.below(1 << 20);
    for _ in 0..s.us(60) {
        match s.below(5) {
            0..=2 => q.insert(Odd(Box::new(s.below(9)), salt)),
            3 => drop(q.remove()),
            _ => {
                if s.chance(1, 8) {
                    q.clear();
                }
            }
        }
    }
}

fn num(s: &mut Src, hostile: bool) -> f64 {
    match s.below(if hostile { 9 } else { 6 }) {
        0..=3 => s.range(-4, 4) as f64,
        4 => s.real(-100.0, 100.0),
        5 => s.range(-1000, 1000) as f64 / 4.0,
        6 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]),
        7 => *s.pick(&[f64::MAX, f64::MIN, 1e300, -1e300]),
        _ => *s.pick(&[f64::MIN_POSITIVE, 1e-320, 1e-300]),
    }
}

fn pts(s: &mut Src, n: usize, hostile: bool) -> Ppoly_t {
    Ppoly_t { ps: (0..n).map(|_| Vec2 { x: num(s, hostile), y: num(s, hostile) }).collect() }
}

fn geometry(s: &mut Src) {
    let hostile = s.chance(1, 3);
    match s.below(8) {
        0 | 1 => {
            let obs: Vec<Ppoly_t> = (0..s.us(4)).map(|_| { let n = s.us(6); pts(s, n, hostile) }).collect();
            let conf = Pobsopen(&obs.iter().collect::<Vec<_>>());
            let (p, q) = (pts(s, 1, hostile).ps[0], pts(s, 1, hostile).ps[0]);
            let id = |s: &mut Src| *s.pick(&[-1111, -2222, 0, 1, 2, 3, 9, -1, i32::MAX]);
            let (pp, qp) = (id(s), id(s));
            drop(polyhit(&conf, p));
            let pv = ptVis(&conf, pp, p);
            let qv = ptVis(&conf, qp, q);
            let _ = directVis(p, pp, q, qp, &conf);
            if !hostile {
                drop(makePath(p, pp, &pv, q, qp, &qv, &conf));
            }
        }
        2 => {
            let n = s.us(8);
            let poly = pts(s, n, hostile);
            let eps = pts(s, 2, hostile);
            let k = s.us(3);
            drop(Pshortestpath(&poly, &eps.ps[..k]));
        }
        3 => {
            let n = s.us(6);
            let line = pts(s, n, hostile);
            let edges: Vec<Pedge_t> = (0..s.us(4))
                .map(|_| {
                    let e = pts(s, 2, hostile);
                    Pedge_t { a: e.ps[0], b: e.ps[1] }
                })
                .collect();
            let k = s.us(3);
            let mut evs = pts(s, k, hostile).ps;
            let mut out = Ppoly_t { ps: Vec::new() };
            drop(Proutespline(&edges, &line, &mut evs, &mut out));
        }
        4 => {
            let c = [num(s, true), num(s, true), num(s, true), num(s, true)];
            let _ = solve3(&c);
        }
        5 => {
            let n = s.us(6);
            let p = pts(s, n, hostile);
            let q = pts(s, 1, hostile).ps[0];
            let _ = in_poly(&p.ps, q);
        }
        6 => {
            let c = pts(s, 1, hostile).ps[0];
            let mut out = Ppoly_t { ps: Vec::new() };
            ellipticWedge(c, num(s, hostile), num(s, hostile), num(s, hostile), num(s, hostile), &mut out);
        }
        _ => {
            let n = s.us(7);
            let mut a: Array2<f64> = Array2::new(n, s.us(7), s.us(3));
            for x in a.vec.iter_mut() {
                *x = num(s, false).abs(); // negative or endless lengths need not come to an end
            }
            let v = if s.chance(1, 4) { s.us(9) } else { n };
            // without overflow checks the search for a vertex that cannot exist need not come to an end
            let (root, target) = (s.range(0, 8) as i32, s.range(-1, v as i64 - 1) as i32);
            drop(shortestPath(root, target, v, &a));
        }
    }
}

fn lexing(s: &mut Src) {
    let mut t = String::new();
    for _ in 0..s.us(40) {
        match s.below(4) {
            0 => t.push(char::from_u32(s.below(0x11_0000) as u32).unwrap_or('"')),
            1 => t.push_str(s.pick(&["\"", "\\", "->", "1.", "12", ".5", "é", "_a", "\n"])),
            _ => t.push((0x20 + s.below(0x5f) as u8) as char),
        }
    }
    let mut l = Lexer::new(&t);
    for _ in 0..s.us(60) {
        drop(l.next());
    }
    let mut o = String::new();
    let _ = l.write_errors(&mut o);
}

/// Gives its items, and panics when it is told to.
struct Feed<I>(I, usize);
impl<I: Iterator> Iterator for Feed<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        ledger::tick_next();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, None)
    }
}

/// Something of the caller's panics inside a call: nothing is destroyed twice or before it was
/// made, then or when what is left is used and dropped.
fn callbacks(s: &mut Src, really: bool) {
    ledger::reset();
    ledger::really_free(really);
    let n = s.urange(1, 40);
    let dense = s.chance(1, 2);
    let mut items = |s: &mut Src, n: usize| -> Vec<Option<T>> {
        (0..n).map(|_| if dense || s.chance(2, 3) { Some(T::new(s.below(3))) } else { None }).collect()
    };
    let cb = *s.pick(&[Cb::Clone, Cb::Clone, Cb::Drop, Cb::Compare, Cb::Hash, Cb::Next]);
    let mut fuse = |s: &mut Src| ledger::arm(cb, if s.chance(1, 3) { s.us(3) } else { s.us(n) } as u32);
    match s.below(3) {
        0 => {
            let i = items(s, n);
            let mut v: VecOption<T> = i.into_iter().collect();
            let mut w = if s.chance(1, 2) { v.clone() } else { VecOption::new() };
            for _ in 0..s.urange(1, 4) {
                let i = items(s, n);
                let at = s.us(v.len() + 1);
                fuse(s);
                let what = match cb {
                    Cb::Clone => s.below(3),
                    Cb::Drop => 3 + s.below(6),
                    Cb::Compare => 9 + s.below(3),
                    Cb::Hash => 12,
                    Cb::Next => 13 + s.below(2),
                };
                let _ = cut(|| match what {
                    0 => drop(v.clone()),
                    1 => w.clone_from(&v),
                    2 => drop(v.get_clone(at.min(v.len().max(1) - 1))),
                    3 => drop(v.drain(at..)),
                    4 => drop(v.drain(..at).nth(at / 2)),
                    5 => {
                        (0..at).for_each(|i| v.set_none(i));
                    }
                    6 => drop(std::mem::replace(&mut v, VecOption::new())),
                    7 => {
                        let mut it = std::mem::replace(&mut v, VecOption::new()).into_iter();
                        drop(it.by_ref().take(at).count());
                    }
                    8 => {
                        let mut it = std::mem::replace(&mut v, VecOption::new()).into_some_iter();
                        drop(it.by_ref().take(at).count());
                    }
                    9 => drop(v == w),
                    10 => drop(v.partial_cmp(&w)),
                    11 => drop(v.cmp(&w)),
                    12 => {
                        use std::hash::Hash;
                        v.hash(&mut std::collections::hash_map::DefaultHasher::new())
                    }
                    13 => v.extend(Feed(i.into_iter(), at)),
                    _ => v = Feed(i.into_iter(), at).collect(),
                });
                ledger::disarm();
                // what is left can still be read, written and taken out
                v.push_some(T::new(1));
                drop(v.iter().flatten().map(|t| t.key()).sum::<u64>());
                if s.chance(1, 4) {
                    drop(v.compact().len());
                }
                if s.chance(1, 4) {
                    drop(std::mem::replace(&mut v, VecOption::new()).some_into_vec());
                }
            }
        }
        1 => {
            let mut q: PQ<T> = PQ::new();
            for _ in 0..n {
                let t = T::new(s.below(6));
                if s.chance(1, 6) {
                    fuse(s);
                }
                let _ = cut(|| {
                    q.insert(t);
                });
                ledger::disarm();
                if s.chance(1, 3) {
                    fuse(s);
                    let _ = cut(|| drop(q.remove()));
                    ledger::disarm();
                }
            }
            if s.chance(1, 3) {
                fuse(s);
                let _ = cut(|| q.clear());
                ledger::disarm();
                q.insert(T::new(1));
            }
            while q.remove().is_some() {}
        }
        _ => {
            let mut t: RampTable<T> = RampTable::new();
            for _ in 0..s.urange(1, 5) {
                let m = s.us(8);
                let i: Vec<T> = (0..m).map(|_| T::new(s.below(9))).collect();
                if s.chance(1, 2) {
                    fuse(s);
                }
                let _ = cut(|| match m % 3 {
                    0 => t.push_entry_clone(&i),
                    1 => t.push_entry_extend(Feed(i.into_iter(), m)),
                    _ => i.into_iter().for_each(|x| t.push_value(x)),
                });
                ledger::disarm();
                drop(t.iter().map(|e| e.len()).sum::<usize>());
                drop(t.all_values().iter().map(|x| x.key()).sum::<u64>());
            }
            let mut b: RampTableBuilder<T> = RampTableBuilder::new();
            let m = s.us(20);
            fuse(s);
            let _ = cut(|| b.extend(Feed((0..m as u32).map(|i| (i * 7 % 5, T::new(i as u64))), m)));
            let _ = cut(|| drop(b.finish()));
            let _ = cut(|| t.clear());
            ledger::disarm();
            drop(t);
        }
    }
}

fn everything(s: &mut Src, scale: u32) {
    let w = World::gen(s, scale);
    for _ in 0..6 {
        let i = s.us(CALLS.len());
        drop(call(&w, i));
    }
    drop(w.inputs());
}

const KINDS: [&str; 9] = [
    "option vector histories",
    "graphs, some naming missing vertices",
    "keyed tables with any index",
    "queues of items without a sensible order",
    "degenerate geometry",
    "any text",
    "bundles of valid calls",
    "option vector histories over plain data",
    "calls whose items or iterators panic",
];

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    // under the interpreter only the parts that hold raw memory are worth their time
    let w: [u32; 9] = if ctx.mode == Mode::Miri { [8, 2, 1, 1, 1, 1, 0, 3, 4] } else { [4, 4, 2, 2, 5, 1, 1, 1, 3] };
    let k = s.weighted(&w);
    let sub = s.below(4);
    let before = (alloc::live(), alloc::bad(), alloc::total());
    let r = {
        let (s, ctx) = (&mut *s, &mut *ctx);
        cut(move || match (k, sub) {
            (0, 0) => hist::<Box<u64>>(s, ctx),
            (0, 1) => hist::<String>(s, ctx),
            (0, 2) => hist::<Wide>(s, ctx),
            (0, _) => hist::<(u16, Vec<u32>)>(s, ctx),
            (1, _) => graphs(s, ctx),
            (2, 0 | 1) => misfit(s),
            (2, _) => tables(s),
            (3, _) => queue(s),
            (4, 0) => misfit_geometry(s),
            (4, _) => geometry(s),
            (5, _) => lexing(s),
            (6, _) => everything(s, ctx.scale),
            (8, _) => callbacks(s, ctx.mode != Mode::Plain),
            (_, 0) => hist::<()>(s, ctx),
            (_, 1) => hist::<bool>(s, ctx),
            (_, 2) => hist::<u64>(s, ctx),
            (_, _) => hist::<u8>(s, ctx),
        })
    };
    let panicked = r.is_err();
    let why = r.err().map(|e| e.to_string());
    let after = (alloc::live(), alloc::bad(), alloc::total());
    ensure!(
        after.1 == before.1,
        "{}: {} blocks were released twice, with another size, or written past their ends",
        KINDS[k],
        after.1 - before.1
    );
    if k == 8 {
        let f = ledger::faults();
        ensure!(f.is_empty(), "{}: {}", KINDS[k], f.join("; "));
    }
    if !panicked && k != 6 && k != 8 {
        // (a text that is kept from a panic would count)
        if after.0 .0 != before.0 .0 {
            viol!("{}: {} blocks are still held after everything was dropped", KINDS[k], after.0 .0 - before.0 .0);
        }
        ctx.ev("cases whose memory was accounted for", 1);
    }
    let (bad, asked) = threads::wrong();
    ensure!(bad.is_empty(), "items would get to another thread that must not: {}", bad.join(", "));
    ctx.ev("types asked whether they go to other threads", asked);
    ctx.ev("allocations watched", after.2 - before.2);
    ctx.ev(KINDS[k], 1);
    if panicked {
        ctx.ev("calls that were rejected by a panic", 1);
    }
    let h = s.hash();
    ctx.fp(h);
    ctx.sample(|| format!("{} ({})", KINDS[k], why.as_deref().unwrap_or("returned")));
    ctx.nontrivial();
    Ok(())
}

fn main() {
    println!("c03"); // standard output takes its buffer before anything is counted
    worker("C03", run)
}
