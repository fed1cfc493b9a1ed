//! Graph generators and plain reference algorithms.

use crate::Src;
use trellis::graph::Graph;

#[derive(Clone, Debug)]
pub struct G {
    pub n: usize,
    pub adj: Vec<Vec<u32>>,
}

impl G {
    pub fn new(n: usize) -> Self {
        G { n, adj: vec![Vec::new(); n] }
    }
    pub fn edges(&self) -> Vec<(u32, u32)> {
        let mut v = Vec::new();
        for (f, l) in self.adj.iter().enumerate() {
            for &t in l {
                v.push((f as u32, t));
            }
        }
        v
    }
    pub fn num_edges(&self) -> usize {
        self.adj.iter().map(|l| l.len()).sum()
    }
    /// Builds the library's graph directly.
    pub fn build(&self) -> Graph {
        let mut g = Graph::new();
        for l in &self.adj {
            for &t in l {
                g.push_to(t);
            }
            g.finish_from();
        }
        g
    }
    pub fn short(&self) -> String {
        format!("{} verts, edges {:?}", self.n, self.edges())
    }
    pub fn indeg(&self) -> Vec<usize> {
        let mut d = vec![0; self.n];
        for (_, t) in self.edges() {
            d[t as usize] += 1;
        }
        d
    }
    pub fn relabel(&self, perm: &[usize]) -> G {
        let mut g = G::new(self.n);
        for (f, l) in self.adj.iter().enumerate() {
            g.adj[perm[f]] = l.iter().map(|&t| perm[t as usize] as u32).collect();
        }
        g
    }
    /// Kahn's algorithm: Some(order) iff acyclic.
    pub fn topo(&self) -> Option<Vec<u32>> {
        let mut d = self.indeg();
        let mut q: Vec<u32> = (0..self.n as u32).filter(|&v| d[v as usize] == 0).collect();
        let mut i = 0;
        while i < q.len() {
            let v = q[i];
            i += 1;
            for &t in &self.adj[v as usize] {
                d[t as usize] -= 1;
                if d[t as usize] == 0 {
                    q.push(t);
                }
            }
        }
        if q.len() == self.n {
            Some(q)
        } else {
            None
        }
    }
    pub fn fingerprint(&self) -> u64 {
        let mut h = crate::mix(self.n as u64);
        for (f, t) in self.edges() {
            h = crate::mix(h ^ ((f as u64) << 32 | t as u64));
        }
        h
    }
}

fn perm(s: &mut Src, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    match s.below(4) {
        0 => {}
        1 => p.reverse(),
        _ => s.shuffle(&mut p),
    }
    p
}

/// An acyclic graph of one of many shapes, with shuffled vertex numbers and edge order.
pub fn gen_dag(s: &mut Src, max_n: usize) -> G {
    let n = s.size(max_n);
    if n == 0 {
        return G::new(0);
    }
    let mut g = G::new(n);
    // vertices are first numbered so that edges go from lower to higher
    match s.below(9) {
        0 => {
            // sparse
            let m = s.size(2 * n);
            for _ in 0..m {
                if n < 2 {
                    break;
                }
                let a = s.us(n - 1);
                let b = s.urange(a + 1, n - 1);
                g.adj[a].push(b as u32);
            }
        }
        1 => {
            // chain
            for i in 0..n - 1 {
                g.adj[i].push(i as u32 + 1);
            }
        }
        2 => {
            // several chains
            let k = s.urange(1, 5);
            for i in k..n {
                g.adj[i - k].push(i as u32);
            }
        }
        3 => {
            // fan out, fan in
            let mid = s.us(n);
            for i in 0..n {
                if i < mid {
                    g.adj[i].push(mid as u32);
                } else if i > mid {
                    g.adj[mid].push(i as u32);
                }
            }
        }
        4 => {
            // dense
            let n2 = n.min(25);
            for i in 0..n2 {
                for j in i + 1..n2 {
                    if s.chance(1, 2) {
                        g.adj[i].push(j as u32);
                    }
                }
            }
        }
        5 => {
            // ladder of diamonds
            let mut i = 0;
            while i + 3 < n {
                g.adj[i].push(i as u32 + 1);
                g.adj[i].push(i as u32 + 2);
                g.adj[i + 1].push(i as u32 + 3);
                g.adj[i + 2].push(i as u32 + 3);
                i += 3;
            }
        }
        6 => {
            // random tree, edges away from the root or towards it
            let inward = s.chance(1, 2);
            for i in 1..n {
                let p = s.us(i);
                if inward {
                    g.adj[n - 1 - i].push((n - 1 - p) as u32);
                } else {
                    g.adj[p].push(i as u32);
                }
            }
        }
        7 => {
            // chain with shortcuts that skip many layers
            for i in 0..n - 1 {
                g.adj[i].push(i as u32 + 1);
            }
            for _ in 0..s.size(n) {
                if n < 2 {
                    break;
                }
                let a = s.us(n - 1);
                let b = s.urange(a + 1, n - 1);
                g.adj[a].push(b as u32);
            }
        }
        _ => {
            // layers with random links between neighbouring layers
            let w = s.urange(1, 4);
            for i in 0..n {
                let layer = i / w;
                let lo = (layer + 1) * w;
                let hi = ((layer + 2) * w).min(n);
                if lo < hi {
                    for _ in 0..s.us(3) {
                        let t = s.urange(lo, hi - 1);
                        g.adj[i].push(t as u32);
                    }
                }
            }
        }
    }
    // parallel edges
    if s.chance(1, 3) {
        for _ in 0..s.urange(1, 3) {
            let es = g.edges();
            if es.is_empty() {
                break;
            }
            let (f, t) = *s.pick(&es);
            g.adj[f as usize].push(t);
        }
    }
    for l in g.adj.iter_mut() {
        if l.len() > 1 && s.chance(1, 3) {
            s.shuffle(l);
        }
    }
    let p = perm(s, n);
    g.relabel(&p)
}

/// Adds at least one directed cycle somewhere.
pub fn add_cycle(s: &mut Src, g: &mut G) {
    if g.n == 0 {
        *g = G::new(1);
    }
    let insert = |s: &mut Src, l: &mut Vec<u32>, t: u32| {
        let at = s.us(l.len() + 1);
        l.insert(at, t);
    };
    match s.below(5) {
        0 => {
            // self loop
            let v = s.us(g.n);
            insert(s, &mut g.adj[v], v as u32);
        }
        1 => {
            // the reverse of an edge
            let es = g.edges();
            if es.is_empty() {
                let v = s.us(g.n);
                g.adj[v].push(v as u32);
            } else {
                let (f, t) = *s.pick(&es);
                insert(s, &mut g.adj[t as usize], f);
            }
        }
        2 => {
            // back edge over a long path
            let v = s.us(g.n);
            let mut w = v;
            let mut steps = s.urange(0, 2 * g.n);
            while steps > 0 && !g.adj[w].is_empty() {
                let l = g.adj[w].clone();
                w = *s.pick(&l) as usize;
                steps -= 1;
            }
            insert(s, &mut g.adj[w], v as u32);
        }
        3 => {
            // a new ring of its own, with numbers after all others
            let k = s.urange(1, 6);
            let base = g.n;
            for i in 0..k {
                g.adj.push(vec![(base + (i + 1) % k) as u32]);
            }
            g.n += k;
            if s.chance(1, 2) {
                // reachable from the rest
                let v = s.us(base);
                insert(s, &mut g.adj[v], base as u32);
            } else if s.chance(1, 2) {
                // leading into the rest
                let v = s.us(base);
                insert(s, &mut g.adj[base], v as u32);
            }
        }
        _ => {
            // a ring through random vertices
            let k = s.urange(1, g.n.min(6));
            let mut vs: Vec<usize> = (0..g.n).collect();
            s.shuffle(&mut vs);
            for i in 0..k {
                let (a, b) = (vs[i], vs[(i + 1) % k]);
                insert(s, &mut g.adj[a], b as u32);
            }
        }
    }
    if s.chance(1, 3) {
        let p = perm(s, g.n);
        *g = g.relabel(&p);
    }
}

/// Any well-formed graph.
pub fn gen_any(s: &mut Src, max_n: usize) -> G {
    match s.below(5) {
        0 => gen_dag(s, max_n),
        1 => {
            let mut g = gen_dag(s, max_n);
            add_cycle(s, &mut g);
            g
        }
        2 if max_n >= 5 => gen_motif(s),
        _ => {
            let n = s.size(max_n);
            let mut g = G::new(n);
            if n == 0 {
                return g;
            }
            let m = match s.below(3) {
                0 => s.urange(0, n),
                1 => s.urange(0, 2 * n),
                _ => s.urange(0, n / 2 + 1),
            };
            for _ in 0..m {
                let a = s.us(n);
                let b = s.us(n);
                g.adj[a].push(b as u32);
            }
            g
        }
    }
}

/// A large graph made with few choices: hubs, many parts, many parallel edges, long chains.
pub fn gen_bulk(s: &mut Src, cyclic: bool) -> G {
    let top = *s.pick(&[300usize, 600, 5_000, 33_000, 70_000]);
    let k = top + s.us(top / 8);
    let seed = s.below(1 << 32);
    let rnd = |i: usize, m: usize| (crate::mix(seed ^ (i as u64) << 20) % m as u64) as usize;
    let mut g;
    match s.below(7) {
        0 => {
            // one hub, edges outward or inward
            g = G::new(k + 1);
            let out = s.chance(1, 2);
            for i in 0..k {
                if out {
                    g.adj[0].push(i as u32 + 1);
                } else {
                    g.adj[i].push(k as u32);
                }
            }
        }
        1 => {
            // many separate pairs
            let k = k / 2;
            g = G::new(2 * k);
            for i in 0..k {
                let (a, b) = if rnd(i, 2) == 0 { (2 * i, 2 * i + 1) } else { (2 * i + 1, 2 * i) };
                g.adj[a].push(b as u32);
            }
        }
        2 => {
            // pairs that are joined later, from both ends
            let k = k / 2;
            g = G::new(2 * k);
            for i in 0..k {
                g.adj[i].push((i + k) as u32);
            }
            for i in 0..k {
                let j = i + 1 + rnd(i, 7);
                if j < k && rnd(i, 3) > 0 {
                    g.adj[i + k].push((j + k) as u32);
                }
            }
        }
        3 => {
            // parallel edges
            let n = s.urange(2, 6);
            g = G::new(n);
            for i in 0..k {
                let a = rnd(i, n - 1);
                let b = a + 1 + rnd(i + k, n - 1 - a);
                g.adj[a].push(b as u32);
            }
        }
        4 => {
            // random, not deep
            let n = k;
            let layers = s.urange(2, 100);
            g = G::new(n);
            for i in 0..2 * n {
                let a = rnd(i, n);
                let l = a * layers / n;
                let lo = ((l + 1) * n + layers - 1) / layers;
                if lo < n {
                    let hi = (((l + 2) * n) / layers).min(n).max(lo + 1);
                    g.adj[a].push((lo + rnd(i + 2 * n, hi - lo)) as u32);
                }
            }
        }
        5 => {
            // one long chain
            let n = k.min(3_000);
            g = G::new(n);
            for i in 0..n - 1 {
                g.adj[i].push(i as u32 + 1);
            }
        }
        _ => {
            // several long chains that start and end together
            let w = s.urange(2, 60);
            let n = k.min(w * 1_000);
            g = G::new(n);
            for i in 0..n - 1 {
                if i == 0 {
                    for j in 1..=w.min(n - 2) {
                        g.adj[0].push(j as u32);
                    }
                } else {
                    g.adj[i].push((i + w).min(n - 1) as u32);
                }
            }
        }
    }
    if cyclic {
        // one edge closes a cycle, late or early
        let es = g.edges();
        let (f, t) = es[es.len() - 1 - s.us(es.len())];
        g.adj[t as usize].push(f);
    }
    match s.below(3) {
        0 => g,
        1 => {
            let p: Vec<usize> = (0..g.n).rev().collect();
            g.relabel(&p)
        }
        _ => {
            let mut p: Vec<usize> = (0..g.n).collect();
            p.sort_by_key(|&i| crate::mix(seed.wrapping_add(i as u64)));
            g.relabel(&p)
        }
    }
}

/// Very deep graphs: more vertices on one path than sixteen bits count.
pub fn gen_deep(s: &mut Src, cyclic: bool) -> G {
    // every kind below has a path of more than 65,600 edges from vertex 0
    let k = s.urange(65_700, 72_000);
    let deep = 65_650;
    let seed = s.below(1 << 32);
    let rnd = |i: usize, m: usize| (crate::mix(seed ^ (i as u64) << 20) % m as u64) as usize;
    let mut g = G::new(k);
    // the last vertex of the longest path
    let mut end = k - 1;
    match s.below(5) {
        0 => {
            for i in 0..k - 1 {
                g.adj[i].push(i as u32 + 1);
            }
        }
        1 => {
            // with short cuts
            for i in 0..k - 1 {
                g.adj[i].push(i as u32 + 1);
                let j = i + 2 + rnd(i, 60);
                if j < k && rnd(i + k, 5) == 0 {
                    g.adj[i].insert(rnd(i + 2 * k, 2), j as u32);
                }
            }
        }
        2 => {
            // leaves along the path
            for i in 0..deep - 1 {
                g.adj[i].push(i as u32 + 1);
            }
            for i in deep..k {
                g.adj[rnd(i, deep)].push(i as u32);
            }
            end = deep - 1;
        }
        3 => {
            // another path joins far down, and a separate one stays shorter
            for i in 0..deep - 1 {
                g.adj[i].push(i as u32 + 1);
            }
            let m = deep + (k - deep) / 2;
            for i in deep..k - 1 {
                if i != m {
                    g.adj[i].push(i as u32 + 1);
                }
            }
            g.adj[m].push((deep - 1 - rnd(7, 50)) as u32);
            end = deep - 1;
        }
        _ => {
            // one long edge across
            for i in 0..k - 1 {
                g.adj[i].push(i as u32 + 1);
            }
            g.adj[rnd(1, 5)].push((k - 1 - rnd(2, 5)) as u32);
        }
    }
    if cyclic {
        // a long cycle, or a short one at the far end
        let back = match s.below(4) {
            0 => s.us(100),
            1 => end - s.us(3),
            _ => end - 1 - s.us(40),
        };
        g.adj[end].push(back as u32);
    }
    match s.below(5) {
        0 | 1 => g,
        2 => {
            let p: Vec<usize> = (0..g.n).rev().collect();
            g.relabel(&p)
        }
        t => {
            // shuffled, mostly with the head of the path first in number too
            let mut p: Vec<usize> = (0..g.n).collect();
            p.sort_by_key(|&i| crate::mix(seed.wrapping_add(i as u64)));
            if t != 3 || s.chance(1, 2) {
                let at = p.iter().position(|&x| x == 0).unwrap();
                p.swap(0, at);
            }
            g.relabel(&p)
        }
    }
}

/// Adds one thing in quantity (edges from or to one vertex, copies of an edge, self loops, a long
/// chain, separate pairs), keeping an acyclic graph acyclic.
pub fn enrich(s: &mut Src, g: &mut G, most: usize) {
    let order = g.topo();
    let k = s.urange(1, most);
    let v = s.us(g.n);
    // position in the order, for an acyclic graph
    let at = |g: &G, order: &Option<Vec<u32>>, v: usize| match order {
        Some(o) => o.iter().position(|&w| w as usize == v).unwrap_or(g.n),
        None => 0,
    };
    let insert = |s: &mut Src, l: &mut Vec<u32>, t: u32| {
        let at = if s.chance(1, 2) { l.len() } else { s.us(l.len() + 1) };
        l.insert(at, t);
    };
    match s.below(6) {
        0 | 1 => {
            // many edges from, or to, one vertex
            let out = s.chance(2, 3);
            let p = at(g, &order, v);
            let fresh = s.chance(1, 3);
            for _ in 0..k {
                let w = if fresh {
                    g.adj.push(Vec::new());
                    g.n += 1;
                    g.n - 1
                } else {
                    match &order {
                        Some(o) if out && p + 1 < o.len() => o[s.urange(p + 1, o.len() - 1)] as usize,
                        Some(o) if !out && p > 0 && p < o.len() => o[s.us(p)] as usize,
                        Some(_) => break,
                        None => s.us(g.n),
                    }
                };
                let (a, b) = if out { (v, w) } else { (w, v) };
                insert(s, &mut g.adj[a], b as u32);
            }
        }
        2 => {
            // copies of an edge
            if let Some(&t) = g.adj[v].first() {
                for _ in 0..k {
                    insert(s, &mut g.adj[v], t);
                }
            }
        }
        3 => {
            if order.is_none() {
                for _ in 0..k.min(20) {
                    insert(s, &mut g.adj[v], v as u32);
                }
            }
        }
        4 => {
            // a chain, from or to the vertex
            let out = s.chance(1, 2);
            let base = g.n;
            for i in 0..k {
                g.adj.push(Vec::new());
                if i > 0 {
                    g.adj[base + i - 1].push((base + i) as u32);
                }
            }
            g.n += k;
            if out {
                insert(s, &mut g.adj[v], base as u32);
            } else {
                g.adj[base + k - 1].push(v as u32);
            }
        }
        _ => {
            // separate pairs
            let base = g.n;
            for i in 0..k {
                g.adj.push(vec![(base + 2 * i + 1) as u32]);
                g.adj.push(Vec::new());
            }
            g.n += 2 * k;
        }
    }
    if s.chance(1, 3) {
        let p = perm(s, g.n);
        *g = g.relabel(&p);
    }
}

/// One vertex with a handful of edges of each sort: in, out, self loops, in random order.
pub fn gen_motif(s: &mut Src) -> G {
    let n = s.urange(1, 5);
    let mut g = G::new(n);
    let v = s.us(n);
    let w = |s: &mut Src| s.us(n);
    let few = |s: &mut Src| *s.pick(&[0usize, 1, 1, 1, 2, 3, 10, 20]);
    let mut todo: Vec<(usize, usize)> = Vec::new();
    for _ in 0..few(s) {
        todo.push((w(s), v));
    }
    for _ in 0..few(s) {
        todo.push((v, w(s)));
    }
    for _ in 0..few(s) {
        todo.push((v, v));
    }
    if s.chance(1, 2) {
        s.shuffle(&mut todo);
    }
    for (a, b) in todo {
        g.adj[a].push(b as u32);
    }
    g
}

/// Now and then, the same graph among tens of thousands of isolated vertices, so that numbers
/// outgrow small integer types.
pub fn stretch(s: &mut Src, scale: u32, g: &mut G) {
    if scale == 0 || g.n == 0 {
        return;
    }
    if s.chance(1, 10) {
        let most = if s.chance(1, 20) { 700 } else { 40 };
        for _ in 0..s.urange(1, 3) {
            enrich(s, g, most);
        }
    }
    if s.chance(1, 2000) {
        let cyclic = g.topo().is_none();
        *g = gen_bulk(s, cyclic);
        return;
    }
    if !s.chance(1, 250) {
        return;
    }
    let n = *s.pick(&[300usize, 5_000, 40_000, 70_000]) + s.us(5_000);
    if g.n >= n {
        return;
    }
    // spread the old vertices over the new numbers, in random order or kept in order
    let keep = s.chance(1, 2);
    let mut at: Vec<usize> = Vec::with_capacity(g.n);
    for i in 0..g.n {
        let lo = i * n / g.n;
        let hi = ((i + 1) * n / g.n).max(lo + 1);
        at.push(lo + s.us(hi - lo));
    }
    if !keep {
        s.shuffle(&mut at);
    }
    let mut r = G::new(n);
    for (f, l) in g.adj.iter().enumerate() {
        r.adj[at[f]] = l.iter().map(|&t| at[t as usize] as u32).collect();
    }
    *g = r;
}
