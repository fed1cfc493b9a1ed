//! A bundle of inputs for every public function, and the calls over it, each reduced to a text.

use crate::gens::{gen_any, gen_dag, G};
use crate::geo::{self, P};
use crate::{cut, Src};
use dot_parser::lexer::Lexer;
use std::fmt::Write as _;
use trellis::disjoint::find_disjoint_subgraphs;
use trellis::common::geom::{boxf, CLIPBB, CONTAINS, DIST, EXPANDBP, OVERLAP};
use trellis::find_chains::find_chains;
use trellis::graph::Graph;
use trellis::layering::{create_layer_map, create_proper_graph};
use trellis::ortho::shortest_path::find_shortest_path;
use trellis::pathplan::array2::Array2;
use trellis::pathplan::cvt::Pobsopen;
use trellis::pathplan::in_poly::in_poly;
use trellis::pathplan::route::Proutespline;
use trellis::pathplan::shortest::Pshortestpath;
use trellis::pathplan::shortestpth::{makePath, shortestPath};
use trellis::pathplan::solvers::solve3;
use trellis::pathplan::vis::vconfig_t;
use trellis::pathplan::visibility::{directVis, polyhit, ptVis, wind};
use trellis::pathplan::{Pedge_t, POLYID_NONE, POLYID_UNKNOWN};
use trellis::polyline::Ppoly_t;
use trellis::priority_queue::PQ;
use trellis::ramp_table::{RampTable, RampTableBuilder};
use trellis::testing::graph_builder;
use trellis::topo_sort::{topo_sort, topo_sort_reverse};
use trellis::vec2::Vec2;
use trellis::vec_option::VecOption;

pub fn v(p: P) -> Vec2<f64> {
    Vec2 { x: p.0 as f64, y: p.1 as f64 }
}

pub struct World {
    pub any: G,
    pub graph: Graph,
    pub dag: Graph,
    pub adds: Vec<(u32, u32)>,
    pub weights: Vec<Vec<(i32, i32)>>,
    pub vo: VecOption<String>,
    pub vo2: VecOption<String>,
    pub pairs: Vec<(u32, u32)>,
    pub table: RampTable<u32>,
    pub items: Vec<i64>,
    pub text: String,
    pub obs: Vec<Ppoly_t>,
    pub conf: vconfig_t,
    pub p: Vec2<f64>,
    pub q: Vec2<f64>,
    pub poly: Ppoly_t,
    pub eps: [Vec2<f64>; 2],
    pub line: Ppoly_t,
    pub edges: Vec<Pedge_t>,
    pub evs: [Vec2<f64>; 2],
    pub matrix: Array2<f64>,
    pub coeff: [f64; 4],
    pub wedge: [f64; 6],
    pub degrees: Vec<u32>,
}

fn text_of(s: &mut Src) -> String {
    let mut t = String::new();
    for _ in 0..s.us(20) {
        t.push_str(s.pick(&[
            "a", " b_1", "->", " {", "}\n", " 12", " 3.25", " \"x\\n\"", "\"é\"", ";", "=", " 99999999999999999999",
            " \"open", "#", "-",
        ]));
    }
    if s.chance(1, 6) {
        // one long token somewhere
        let n = *s.pick(&[17usize, 40, 70, 130, 260, 1100]) + s.us(9);
        let long = match s.below(6) {
            0 => "9".repeat(n),
            1 => format!("-{}", "3".repeat(n)),
            2 => format!("0.{}", "1".repeat(n)),
            3 => "a_".repeat(n),
            4 => format!("\"{}\"", "x y".repeat(n)),
            _ => format!("\"{}", "\\q".repeat(n)),
        };
        if s.chance(1, 2) {
            t = format!("{} {}", long, t);
        } else {
            t = format!("{} {}", t, long);
        }
    }
    t
}

impl World {
    pub fn gen(s: &mut Src, scale: u32) -> World {
        let max = match scale {
            0 => 8,
            _ if s.chance(1, 12) => 160,
            _ => 30,
        };
        let any = gen_any(s, max);
        let dag = if s.chance(1, 2) {
            gen_dag(s, max)
        } else {
            // as large as the other one
            let mut d = G::new(any.n);
            for (f, t) in any.edges() {
                if f != t && s.chance(3, 4) {
                    d.adj[f.min(t) as usize].push(f.max(t));
                }
            }
            d
        };
        World::with(s, scale, any, dag)
    }

    /// Another one with graphs of the same size, in case something remembers by size.
    pub fn like(w: &World, s: &mut Src, scale: u32) -> World {
        let mut any = w.any.clone();
        if s.chance(1, 3) && any.n > 0 {
            // all but one edge the same
            let v = s.us(any.n);
            if let Some(t) = any.adj[v].last_mut() {
                *t = s.us(w.any.n) as u32;
            }
        } else {
            for l in any.adj.iter_mut() {
                for t in l.iter_mut() {
                    if s.chance(1, 3) {
                        *t = s.us(w.any.n) as u32;
                    }
                }
            }
        }
        let mut dag = G::new(w.dag.num_verts());
        for (f, t) in w.dag.iter_edges_flattened() {
            // upside down keeps it acyclic
            let n = dag.n as u32;
            dag.adj[(n - 1 - t) as usize].push(n - 1 - f);
        }
        let mut r = World::with(s, scale, any, dag);
        // the same parts in another order: equal in size and in any sum
        if s.chance(1, 2) {
            r.obs = w.obs.iter().map(|o| Ppoly_t { ps: o.ps.iter().rev().cloned().collect() }).collect();
            r.conf = Pobsopen(&r.obs.iter().collect::<Vec<_>>());
            r.p = w.p;
            r.q = w.q;
        }
        if s.chance(1, 2) {
            let mut k = w.text.split(' ').collect::<Vec<_>>();
            k.reverse();
            r.text = k.join(" ");
        }
        if s.chance(1, 2) {
            r.coeff = w.coeff;
            r.coeff.reverse();
        }
        if s.chance(1, 2) {
            r.wedge = w.wedge;
            match s.below(3) {
                0 => r.wedge.swap(2, 3),
                1 => r.wedge.swap(4, 5),
                _ => r.wedge.swap(0, 1),
            }
        }
        if s.chance(1, 2) {
            r.poly = Ppoly_t { ps: w.poly.ps.clone() };
            r.eps = [w.eps[1], w.eps[0]];
        }
        if s.chance(1, 2) {
            r.line = Ppoly_t { ps: w.line.ps.iter().rev().cloned().collect() };
        }
        if s.chance(1, 2) {
            r.items = w.items.iter().rev().copied().collect();
            r.pairs = w.pairs.clone();
            s.shuffle(&mut r.pairs);
        }
        if s.chance(1, 2) {
            let m = w.matrix.rows;
            r.matrix = Array2::new(m, m, s.us(3));
            for i in 0..m {
                for j in 0..m {
                    r.matrix[(i, j)] = w.matrix[(m - 1 - i, m - 1 - j)];
                }
            }
        }
        if s.chance(1, 2) {
            let mut l: Vec<Option<String>> = w.vo.iter().map(|o| o.cloned()).collect();
            l.reverse();
            r.vo = l.into_iter().collect();
        }
        // nearly the same numbers, in case something remembers by a coarse key
        if s.chance(1, 2) {
            let far = s.chance(1, 4);
            let mut nudge = |s: &mut Src, x: f64| -> f64 {
                let d = 2f64.powi(-(s.range(if far { 3 } else { 12 }, 52) as i32));
                if x == 0.0 {
                    d
                } else {
                    x * (1.0 + d)
                }
            };
            r.coeff = w.coeff;
            for _ in 0..s.urange(1, 2) {
                let i = s.us(4);
                r.coeff[i] = nudge(s, r.coeff[i]);
            }
            r.wedge = w.wedge;
            let i = s.us(6);
            r.wedge[i] = nudge(s, r.wedge[i]);
            if s.chance(1, 2) {
                r.obs = w.obs.iter().map(|o| Ppoly_t { ps: o.ps.clone() }).collect();
                r.conf = Pobsopen(&r.obs.iter().collect::<Vec<_>>());
                r.p = Vec2 { x: nudge(s, w.p.x), y: w.p.y };
                r.q = Vec2 { x: w.q.x, y: nudge(s, w.q.y) };
            }
            if s.chance(1, 2) {
                r.poly = Ppoly_t { ps: w.poly.ps.clone() };
                r.eps = [Vec2 { x: nudge(s, w.eps[0].x), y: w.eps[0].y }, w.eps[1]];
            }
            if s.chance(1, 2) {
                r.line = Ppoly_t { ps: w.line.ps.clone() };
                r.edges = w.edges.iter().map(|e| Pedge_t { a: e.a, b: e.b }).collect();
                r.evs = w.evs;
                match s.below(3) {
                    0 => {
                        let i = s.us(r.line.ps.len());
                        r.line.ps[i].y = nudge(s, r.line.ps[i].y);
                    }
                    1 => r.evs[0].y = nudge(s, r.evs[0].y),
                    _ => {
                        if let Some(e) = r.edges.last_mut() {
                            e.a.x = nudge(s, e.a.x);
                        }
                    }
                }
            }
            if s.chance(1, 2) && w.matrix.rows > 1 {
                let m = w.matrix.rows;
                r.matrix = Array2::new(m, m, s.us(3));
                for i in 0..m {
                    for j in 0..m {
                        r.matrix[(i, j)] = w.matrix[(i, j)];
                    }
                }
                let (i, j) = (s.urange(1, m - 1), 0);
                let x = nudge(s, r.matrix[(i, j)]);
                r.matrix[(i, j)] = x;
                r.matrix[(j, i)] = x;
            }
            if s.chance(1, 2) {
                // one character of the text
                let mut c: Vec<char> = w.text.chars().collect();
                if !c.is_empty() {
                    let i = s.us(c.len());
                    c[i] = *s.pick(&['a', '7', ' ', '"', '-', '.', 'b']);
                }
                r.text = c.into_iter().collect();
            }
        }
        r
    }

    fn with(s: &mut Src, scale: u32, any: G, dag: G) -> World {
        let n = any.n.max(1);
        let mut adds = any.edges();
        s.shuffle(&mut adds);
        let weights = any
            .adj
            .iter()
            .map(|l| l.iter().map(|&t| (t as i32, s.range(0, 3) as i32)).collect())
            .collect();
        let vo: VecOption<String> = (0..s.us(80))
            .map(|i| if s.chance(2, 3) { Some(format!("s{}", i % 7)) } else { None })
            .collect();
        let mut vo2 = vo.clone();
        if !vo2.is_empty() && s.chance(1, 2) {
            let i = s.us(vo2.len());
            vo2.set(i, Some("other".into()));
        }
        let pairs: Vec<(u32, u32)> = (0..s.us(40)).map(|i| (s.us(9) as u32, i as u32)).collect();
        let mut table = RampTable::new();
        for k in 0..s.us(8) {
            for j in 0..s.us(4) {
                table.push_value((k * 10 + j) as u32);
            }
            table.finish_key();
        }
        let items = (0..s.us(40)).map(|_| s.range(-9, 9)).collect();
        let text = text_of(s);
        let corners = if scale == 0 { 8 } else { 24 };
        let obs_i = geo::gen_obstacles(s, corners, false);
        let (lo, hi) = geo::extent(&obs_i);
        let p = v((s.range(lo.0, hi.0), s.range(lo.1, hi.1)));
        let q = v((s.range(lo.0, hi.0), s.range(lo.1, hi.1)));
        let obs: Vec<Ppoly_t> =
            obs_i.iter().map(|o| Ppoly_t { ps: o.iter().map(|p| v(*p)).collect() }).collect();
        let conf = Pobsopen(&obs.iter().collect::<Vec<_>>());
        // now and then something of another size
        let large = |s: &mut Src| scale > 0 && s.chance(1, 12);
        let most = if scale == 0 { 6 } else if large(s) { 70 } else { 14 };
        let pg = geo::gen_general_polygon(s, most);
        let inner = |s: &mut Src| {
            for _ in 0..40 {
                let (a, b, c) = (*s.pick(&pg), *s.pick(&pg), *s.pick(&pg));
                let m = ((a.0 + b.0 + c.0) / 3, (a.1 + b.1 + c.1) / 3);
                if geo::locate(&pg, m) == geo::Loc::In {
                    return v(m);
                }
            }
            v(pg[0])
        };
        let eps = [inner(s), inner(s)];
        let poly = Ppoly_t { ps: pg.iter().map(|p| v(*p)).collect() };
        let mut ps: Vec<Vec2<f64>> = Vec::new();
        let points = if large(s) { s.urange(20, 60) } else { s.urange(2, 7) };
        for i in 0..points {
            ps.push(Vec2 { x: i as f64 * 20.0 + s.real(-5.0, 5.0), y: s.real(-40.0, 40.0) });
        }
        // around a long line there is a barrier at either side of every point
        let gates = points > 7 && s.chance(2, 3);
        let edges = (0..if gates { 2 * points } else { s.us(6) })
            .map(|i| {
                if gates {
                    let (p, up) = (&ps[i / 2], if i % 2 == 0 { 1.0 } else { -1.0 });
                    let y = p.y + up * s.real(0.1, 4.0);
                    return Pedge_t { a: Vec2 { x: p.x, y }, b: Vec2 { x: p.x + 0.1, y: y + up * 60.0 } };
                }
                let a = Vec2 { x: s.real(-50.0, 200.0), y: s.real(-60.0, 60.0) };
                Pedge_t { a, b: Vec2 { x: a.x + s.real(5.0, 30.0), y: a.y + s.real(5.0, 30.0) } }
            })
            .collect();
        let m = if large(s) { s.urange(30, 80) } else { s.urange(1, if scale == 0 { 5 } else { 12 }) };
        let mut matrix: Array2<f64> = Array2::new(m, m, s.us(3));
        for i in 0..m {
            for j in 0..i {
                if s.chance(1, 2) {
                    let x = s.range(1, 4) as f64;
                    matrix[(i, j)] = x;
                    matrix[(j, i)] = x;
                }
            }
        }
        World {
            graph: any.build(),
            dag: dag.build(),
            adds,
            weights,
            vo,
            vo2,
            pairs,
            table,
            items,
            text,
            obs,
            conf,
            p,
            q,
            poly,
            eps,
            line: Ppoly_t { ps },
            edges,
            evs: [Vec2 { x: s.real(-1.0, 1.0), y: s.real(-1.0, 1.0) }, Vec2 { x: 1.0, y: s.real(-1.0, 1.0) }],
            matrix,
            coeff: [s.range(-4, 4) as f64, s.range(-4, 4) as f64, s.range(-4, 4) as f64, s.range(-2, 2) as f64],
            wedge: [s.real(-9.0, 9.0), s.real(-9.0, 9.0), s.real(1.0, 9.0), s.real(1.0, 9.0), s.real(0.0, 6.0), s.real(0.0, 6.0)],
            degrees: (0..s.us(60)).map(|_| s.us(n) as u32).collect(),
            any,
        }
    }

    /// Takes over the contents of another one, in the same memory as far as possible, in case
    /// something remembers by address.
    pub fn become_like(&mut self, w: &World) {
        fn same<T: Copy>(to: &mut Vec<T>, from: &[T]) {
            to.clear();
            to.extend_from_slice(from);
        }
        fn graph(to: &mut Graph, from: &Graph) {
            let n = from.num_verts();
            let lens = |g: &Graph| (0..n as u32).map(|v| g.edges_from(v).len()).collect::<Vec<_>>();
            if to.num_verts() == n && lens(to) == lens(from) {
                for (v, l) in from.iter_from_edges() {
                    to.edges_mut().entry_values_mut(v as usize).copy_from_slice(l);
                }
            } else {
                // what is let go now is what the allocator hands out next
                *to = Graph::new();
                *to = from.clone();
            }
        }
        fn polys(to: &mut Vec<Ppoly_t>, from: &[Ppoly_t]) {
            to.truncate(from.len());
            while to.len() < from.len() {
                to.push(Ppoly_t { ps: Vec::new() });
            }
            for (t, f) in to.iter_mut().zip(from) {
                same(&mut t.ps, &f.ps);
            }
        }
        self.any = w.any.clone();
        graph(&mut self.graph, &w.graph);
        graph(&mut self.dag, &w.dag);
        same(&mut self.adds, &w.adds);
        self.weights.clear();
        self.weights.extend(w.weights.iter().cloned());
        self.vo = VecOption::new();
        self.vo = w.vo.clone();
        self.vo2 = VecOption::new();
        self.vo2 = w.vo2.clone();
        same(&mut self.pairs, &w.pairs);
        self.table = RampTable::new();
        self.table = w.table.clone();
        same(&mut self.items, &w.items);
        self.text.clear();
        self.text.push_str(&w.text);
        polys(&mut self.obs, &w.obs);
        self.conf = Pobsopen(&[]);
        self.conf = Pobsopen(&w.obs.iter().collect::<Vec<_>>());
        self.p = w.p;
        self.q = w.q;
        same(&mut self.poly.ps, &w.poly.ps);
        self.eps = w.eps;
        same(&mut self.line.ps, &w.line.ps);
        self.edges.clear();
        self.edges.extend(w.edges.iter().map(|e| Pedge_t { a: e.a, b: e.b }));
        self.evs = w.evs;
        if self.matrix.rows == w.matrix.rows {
            for i in 0..w.matrix.rows {
                for j in 0..w.matrix.rows {
                    self.matrix[(i, j)] = w.matrix[(i, j)];
                }
            }
        } else {
            let m = w.matrix.rows;
            self.matrix = Array2::new(0, 0, 0);
            self.matrix = Array2::new(m, m, 0);
            for i in 0..m {
                for j in 0..m {
                    self.matrix[(i, j)] = w.matrix[(i, j)];
                }
            }
        }
        self.coeff = w.coeff;
        self.wedge = w.wedge;
        same(&mut self.degrees, &w.degrees);
    }

    /// Everything that is only lent to the calls.
    pub fn inputs(&self) -> String {
        let vo: Vec<Option<String>> = self.vo.iter().map(|o| o.cloned()).collect();
        let vo2: Vec<Option<String>> = self.vo2.iter().map(|o| o.cloned()).collect();
        let ob: Vec<&Vec<Vec2<f64>>> = self.obs.iter().map(|o| &o.ps).collect();
        format!(
            "{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
            self.graph, self.dag, vo, vo2, self.table, ob, self.conf, self.poly, self.line, self.edges, self.matrix
        )
    }
}

struct Path(String);
impl trellis::common::ellipse::PathTarget for Path {
    fn move_to(&mut self, p: Vec2<f64>) {
        let _ = write!(self.0, "M{:?}", p);
    }
    fn line_to(&mut self, p: Vec2<f64>) {
        let _ = write!(self.0, "L{:?}", p);
    }
    fn curve_to(&mut self, a: Vec2<f64>, b: Vec2<f64>, c: Vec2<f64>) {
        let _ = write!(self.0, "C{:?}{:?}{:?}", a, b, c);
    }
    fn end_path(&mut self, close: bool) {
        let _ = write!(self.0, "E{}", close);
    }
}

pub const CALLS: &[(&str, fn(&World) -> String)] = &[
    ("GraphBuilder", |w| {
        let mut b = graph_builder();
        for &(f, t) in &w.adds {
            b.edge(f, t);
        }
        format!("{:?}", b.build())
    }),
    ("transpose", |w| format!("{:?}", w.graph.transpose())),
    ("edge listings", |w| {
        format!(
            "{:?} {:?}",
            w.graph.iter_edges_flattened().collect::<Vec<_>>(),
            w.graph.iter_from_edges().map(|(f, l)| (f, l.to_vec())).collect::<Vec<_>>()
        )
    }),
    ("topo_sort", |w| format!("{:?} {:?}", topo_sort(&w.graph), topo_sort(&w.dag))),
    ("topo_sort_reverse", |w| format!("{:?} {:?}", topo_sort_reverse(&w.graph), topo_sort_reverse(&w.dag))),
    ("create_layer_map", |w| format!("{:?} {:?}", create_layer_map(&w.graph), create_layer_map(&w.dag))),
    ("create_proper_graph", |w| match create_layer_map(&w.dag) {
        Ok(m) => format!("{:?}", create_proper_graph(&w.dag, &m)),
        Err(e) => format!("{:?}", e),
    }),
    ("find_disjoint_subgraphs", |w| format!("{:?}", find_disjoint_subgraphs(&w.graph).subgraphs)),
    ("find_chains", |w| format!("{:?} {:?}", find_chains(&w.graph), find_chains(&w.dag))),
    ("degrees", |w| {
        format!(
            "{:?} {:?} {:?} {:?}",
            trellis::find_degree(&w.degrees, w.any.n.max(1) as u32),
            trellis::find_referenced_edges(&w.degrees, w.any.n.max(1)),
            trellis::find_sources(w.graph.edges()),
            trellis::find_sinks(w.graph.edges())
        )
    }),
    ("traverse_depth_first_preorder", |w| {
        let mut o = String::new();
        for v in 0..w.dag.num_verts().min(4) {
            let l: Vec<u32> = trellis::traverse_depth_first_preorder(w.dag.edges(), v as u32).take(200).collect();
            let _ = write!(o, "{:?}", l);
        }
        o
    }),
    ("find_shortest_path", |w| {
        let n = w.weights.len();
        let mut o = String::new();
        for t in 0..n.min(6) {
            let r = find_shortest_path(|v| w.weights[v as usize].iter().copied(), (n / 2) as i32, t as i32);
            let _ = write!(o, "{:?}", r);
        }
        o
    }),
    ("VecOption reads", |w| {
        let mut o = format!("{:?} {:?} {}", w.vo.iter().collect::<Vec<_>>(), w.vo == w.vo2, w.vo.clone() == w.vo);
        let _ = write!(o, "{:?}", w.vo.cmp(&w.vo2));
        let mut c = w.vo.clone();
        c.compact();
        let _ = write!(o, "{:?} {:?}", c.iter().collect::<Vec<_>>(), w.vo.iter_runs().map(|r| r.len()).collect::<Vec<_>>());
        let mut d = w.vo.clone();
        let n = d.len();
        let _ = write!(o, "{:?}", d.drain(n / 3..n / 2).collect::<Vec<_>>());
        o
    }),
    ("RampTable reads", |w| {
        format!(
            "{:?} {:?} {:?}",
            w.table.iter_pairs().collect::<Vec<_>>(),
            w.table.iter_pairs_manual().collect::<Vec<_>>(),
            w.table.iter().rev().map(|l| l.to_vec()).collect::<Vec<_>>()
        )
    }),
    ("RampTableBuilder", |w| {
        let mut b = RampTableBuilder::new();
        for &(k, v) in &w.pairs {
            b.push(k, v as usize);
        }
        format!("{:?}", b.finish())
    }),
    ("PQ", |w| {
        let mut q = PQ::new();
        let mut o = String::new();
        for (i, x) in w.items.iter().enumerate() {
            q.insert(*x);
            if i % 3 == 2 {
                let _ = write!(o, "{:?}", q.remove());
            }
        }
        while let Some(x) = q.remove() {
            let _ = write!(o, " {}", x);
        }
        o
    }),
    ("Lexer", |w| {
        let mut l = Lexer::new(&w.text);
        let t: Vec<_> = l.by_ref().collect();
        let mut o = format!("{:?} {} ", t, l.has_errors());
        let _ = l.write_errors(&mut o);
        o
    }),
    ("Pobsopen", |w| format!("{:?}", Pobsopen(&w.obs.iter().collect::<Vec<_>>()))),
    ("point visibility", |w| {
        format!(
            "{:?} {} {} {}",
            ptVis(&w.conf, POLYID_UNKNOWN, w.p),
            polyhit(&w.conf, w.p),
            polyhit(&w.conf, w.q),
            directVis(w.p, POLYID_NONE, w.q, POLYID_NONE, &w.conf)
        )
    }),
    ("in_poly", |w| {
        let l: Vec<bool> = w.obs.iter().flat_map(|o| [in_poly(&o.ps, w.p), in_poly(&o.ps, w.q)]).collect();
        format!("{:?}", l)
    }),
    ("in_poly of the first", |w| match w.obs.first() {
        Some(o) => format!("{:?}", in_poly(&o.ps, o.ps.iter().fold(Vec2 { x: 0.0, y: 0.0 }, |s, p| Vec2 { x: s.x + p.x / o.ps.len() as f64, y: s.y + p.y / o.ps.len() as f64 }))),
        None => String::new(),
    }),
    ("shapes", |w| {
        let (a, b) = (w.eps[0], w.line.ps[0]);
        let mut x = boxf { LL: w.poly.ps[0], UR: w.poly.ps[0] };
        for p in &w.poly.ps {
            EXPANDBP(&mut x, *p);
        }
        let y = boxf { LL: x.LL, UR: a };
        let mut z = boxf { LL: x.LL, UR: x.UR };
        CLIPBB(&mut z, &y);
        format!("{:?} {:?} {:?} {} {} {:?} {:?}", x.LL, x.UR, z.UR, OVERLAP(&x, &y), CONTAINS(&x, &y), DIST(a, b), wind(a, b, w.p))
    }),
    ("makePath", |w| {
        let pv = ptVis(&w.conf, POLYID_NONE, w.p);
        let qv = ptVis(&w.conf, POLYID_NONE, w.q);
        format!("{:?}", makePath(w.p, POLYID_NONE, &pv, w.q, POLYID_NONE, &qv, &w.conf))
    }),
    ("shortestPath", |w| {
        let n = w.matrix.rows;
        format!("{:?}", (0..n).map(|t| shortestPath(0, t as i32, n, &w.matrix)).collect::<Vec<_>>())
    }),
    ("Pshortestpath", |w| match Pshortestpath(&w.poly, &w.eps) {
        Ok(p) => format!("{:?}", p),
        Err(_) => "error".to_string(),
    }),
    ("Proutespline", |w| {
        let mut evs = w.evs;
        let mut out = Ppoly_t { ps: Vec::new() };
        let r = Proutespline(&w.edges, &w.line, &mut evs, &mut out);
        format!("{} {:?}", r.is_ok(), out)
    }),
    ("solve3", |w| {
        let (n, r) = solve3(&w.coeff);
        format!("{} {:?}", n, &r[..n.min(3)])
    }),
    ("ellipticWedge", |w| {
        let k = w.wedge;
        let mut p = Path(String::new());
        trellis::common::ellipse::ellipticWedge(Vec2 { x: k[0], y: k[1] }, k[2], k[3], k[4], k[5], &mut p);
        p.0
    }),
];

/// One call; a panic is a result like any other.
pub fn call(w: &World, i: usize) -> String {
    match cut(|| CALLS[i].1(w)) {
        Ok(s) => s,
        Err(u) => format!("!{}", u),
    }
}
