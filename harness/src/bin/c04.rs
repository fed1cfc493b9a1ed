//! Equality, ordering, hashing and cloning against the vector of options.

use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use trellis::vec_option::VecOption;
use vh::vo::{compare, make_any, Elem, Model};
use vh::{ensure, must, worker, Ctx, Res, Src};

/// A hasher that writes down what it is told.
#[derive(Default)]
struct Recorder(Vec<u8>);
impl Hasher for Recorder {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        self.0.iter().fold(0, |a, b| vh::mix(a ^ *b as u64))
    }
}

/// Ids in the order of the elements they make.
trait Ranked: Elem + Ord + Hash + std::fmt::Debug {
    fn ranked(i: u64) -> u64;
}
impl Ranked for u64 {
    fn ranked(i: u64) -> u64 {
        i
    }
}
impl Ranked for u8 {
    fn ranked(i: u64) -> u64 {
        i & 0xff
    }
}
impl Ranked for String {
    fn ranked(i: u64) -> u64 {
        i % 10
    }
}
impl Ranked for Box<u64> {
    fn ranked(i: u64) -> u64 {
        i
    }
}
impl Ranked for bool {
    fn ranked(i: u64) -> u64 {
        i & 1
    }
}
impl Ranked for () {
    fn ranked(_: u64) -> u64 {
        0
    }
}

fn values<E: Ranked>(m: &Model) -> Vec<Option<E>> {
    m.iter().map(|o| o.map(E::mk)).collect()
}

fn expected<E: Ranked>(a: &Model, b: &Model) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| values::<E>(a).cmp(&values::<E>(b)))
}

fn variant<E: Ranked>(s: &mut Src, m: &Model, span: u64) -> Model {
    let mut m = m.clone();
    for _ in 0..s.urange(0, 2) {
        let n = m.len();
        match s.below(6) {
            0 if n > 0 => {
                let i = s.us(n);
                m[i] = Some(E::ranked(s.below(span)));
            }
            1 if n > 0 => {
                let i = s.us(n);
                m[i] = None;
            }
            2 => m.push(if s.chance(1, 2) { None } else { Some(E::ranked(s.below(span))) }),
            3 => {
                m.pop();
            }
            4 if n > 0 => {
                let (i, j) = (s.us(n), s.us(n));
                m.swap(i, j);
            }
            _ => {}
        }
    }
    m
}

fn go<E: Ranked>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let span = *s.pick(&[1u64, 2, 3, 10]);
    let huge = ctx.scale > 0 && s.chance(1, 3000);
    let n = if huge { s.urange(3000, 70_000) } else { s.size(ctx.by_scale(36, 150, 600)) };
    let density = s.below(4);
    let base: Model = (0..n)
        .map(|_| {
            let p = match density {
                0 => true,
                1 => false,
                2 => s.chance(1, 2),
                _ => s.chance(9, 10),
            };
            if p {
                Some(E::ranked(s.below(span)))
            } else {
                None
            }
        })
        .collect();
    let k = s.urange(2, 4);
    let mut models: Vec<Model> = vec![base];
    while models.len() < k {
        let from = s.us(models.len());
        let m = models[from].clone();
        models.push(variant::<E>(s, &m, span));
    }
    for m in &models {
        for o in m {
            ctx.fp(o.map_or(0, |x| x + 1));
        }
        ctx.fp(0xFFFF);
    }
    ctx.fp_str(E::NAME);
    ctx.sample(|| format!("{}: {:?}", E::NAME, models));
    let vs: Vec<VecOption<E>> = models.iter().map(|m| make_any::<E>(s, m)).collect();
    let mut equal_pairs = 0;
    for (i, a) in vs.iter().enumerate() {
        for (j, b) in vs.iter().enumerate() {
            let want = expected::<E>(&models[i], &models[j]);
            let (ma, mb) = (&models[i], &models[j]);
            let eq = must("==", || a == b)?;
            let ne = must("!=", || a != b)?;
            ensure!(eq == (want == Ordering::Equal), "{:?} == {:?} is {}", ma, mb, eq);
            ensure!(ne != eq, "== and != are both {} for {:?}, {:?}", eq, ma, mb);
            let c = must("cmp", || a.cmp(b))?;
            ensure!(c == want, "cmp of {:?} and {:?} is {:?}, expected {:?}", ma, mb, c, want);
            let p = must("partial_cmp", || a.partial_cmp(b))?;
            ensure!(p == Some(want), "partial_cmp of {:?} and {:?} is {:?}, expected {:?}", ma, mb, p, want);
            let ops = must("comparison operators", || (a < b, a <= b, a > b, a >= b))?;
            let w = (
                want == Ordering::Less,
                want != Ordering::Greater,
                want == Ordering::Greater,
                want != Ordering::Less,
            );
            ensure!(ops == w, "the comparison operators disagree with cmp: {:?}", ops);
            if !huge && s.chance(1, 6) {
                // by value, and so by the type's own rules
                let (hi, lo) = must("max and min", || (a.clone().max(b.clone()), a.clone().min(b.clone())))?;
                let (wh, wl) = if want == Ordering::Greater { (a, b) } else { (b, a) };
                ensure!(must("==", || hi == *wh && lo == *wl)?, "max or min of {:?} and {:?} is not one of them", ma, mb);
                ctx.ev("greater and smaller of two", 1);
            }
            if want == Ordering::Equal {
                let h = |v: &VecOption<E>| {
                    let mut d = DefaultHasher::new();
                    v.hash(&mut d);
                    let mut r = Recorder::default();
                    v.hash(&mut r);
                    (d.finish(), r.finish())
                };
                let (x, y) = must("hash", || (h(a), h(b)))?;
                ensure!(x == y, "equal collections hash differently: {:?}", ma);
                if i != j {
                    equal_pairs += 1;
                }
            }
            ctx.ev("pairs compared", 1);
        }
    }
    ctx.ev("equal pairs made in different ways", equal_pairs);
    // clones
    let i = s.us(vs.len());
    let mut c: VecOption<E> = if s.chance(1, 3) {
        // over entries that are already there
        let o = s.us(models.len());
        let d = variant::<E>(s, &models[o], span);
        let mut c = make_any::<E>(s, &d);
        must("clone_from", || c.clone_from(&vs[i]))?;
        c
    } else {
        must("clone", || vs[i].clone())?
    };
    ensure!(must("==", || c == vs[i])?, "a clone of {:?} is not equal to it", models[i]);
    compare(&mut c, &models[i], true)?;
    ctx.ev("clones compared", 1);
    let mut original: VecOption<E> = must("clone of the clone", || c.clone())?;
    // changing the one must not show in the other
    let mut cm = models[i].clone();
    for _ in 0..s.urange(1, 5) {
        let n = cm.len();
        let val = E::ranked(s.below(span + 3));
        match s.below(5) {
            0 if n > 0 => {
                let k = s.us(n);
                must("set", || c.set(k, Some(E::mk(val))))?;
                cm[k] = Some(val);
            }
            1 if n > 0 => {
                let k = s.us(n);
                must("set_none", || c.set_none(k))?;
                cm[k] = None;
            }
            2 => {
                must("push", || c.push(Some(E::mk(val))))?;
                cm.push(Some(val));
            }
            3 => {
                must("compact", || {
                    c.compact();
                })?;
                cm.retain(|o| o.is_some());
            }
            _ => {
                must("clear", || c.drain(..).count())?;
                cm.clear();
            }
        }
    }
    compare(&mut c, &cm, true)?;
    compare(&mut original, &models[i], true)?;
    if s.chance(1, 2) {
        drop(c);
        compare(&mut original, &models[i], true)?;
    } else {
        drop(original);
        compare(&mut c, &cm, true)?;
    }
    if !models[0].is_empty() {
        ctx.nontrivial();
    }
    Ok(())
}

/// Elements that are not equal to themselves.
fn floats(s: &mut Src, ctx: &mut Ctx) -> Res {
    let pool = [0.0f64, -0.0, 1.0, f64::NAN, f64::INFINITY, -1.0];
    let n = s.size(40);
    let gen = |s: &mut Src| if s.chance(1, 4) { None } else { Some(*s.pick(&pool[..if n % 2 == 0 { 6 } else { 3 }])) };
    let a: Vec<Option<f64>> = (0..n).map(|_| gen(s)).collect();
    let mut b = a.clone();
    if n > 0 && s.chance(1, 2) {
        let i = s.us(n);
        b[i] = gen(s);
    }
    for o in a.iter().chain(&b) {
        ctx.fp(o.map_or(1, |x| x.to_bits()));
    }
    ctx.sample(|| format!("f64: {:?} and {:?}", a, b));
    let va: VecOption<f64> = a.iter().copied().collect();
    let vb: VecOption<f64> = b.iter().copied().collect();
    let eq = must("==", || va == vb)?;
    ensure!(eq == (a == b), "{:?} == {:?} is {}", a, b, eq);
    // (a value that does not equal itself makes a vector that does not equal itself)
    let (eq, ne) = must("== and != with itself", || (va == va, va != va))?;
    ensure!(eq == (a == a) && ne == (a != a), "{:?} compared with itself: == {}, != {}", a, eq, ne);
    let ne = must("!=", || va != vb)?;
    ensure!(ne == (a != b), "{:?} != {:?} is {}", a, b, ne);
    let all_ordered = a.iter().chain(&b).all(|o| o.map_or(true, |x| !x.is_nan()));
    if all_ordered {
        let p = must("partial_cmp", || va.partial_cmp(&vb))?;
        ensure!(p == a.partial_cmp(&b), "partial_cmp of {:?} and {:?} is {:?}", a, b, p);
    }
    ctx.ev("pairs of floats compared", 1);
    if n > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(8) {
        0 | 1 => go::<u64>(s, ctx),
        2 => go::<u8>(s, ctx),
        3 => go::<String>(s, ctx),
        4 => go::<Box<u64>>(s, ctx),
        5 => go::<bool>(s, ctx),
        6 => go::<()>(s, ctx),
        _ => floats(s, ctx),
    }
}

fn main() {
    worker("C04", run)
}
