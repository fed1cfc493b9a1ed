//! Histories of the option vector, run side by side with a plain `Vec<Option<u64>>` of ids.

use crate::{cut, ensure, must, viol, Ctx, Res, Src, Unwound, Viol};
use std::ops::Bound;
use trellis::vec_option::VecOption;

/// An element type: made from an id, and able to say which id it is.
pub trait Elem: Clone + 'static {
    const NAME: &'static str;
    const COPY: bool = false;
    fn mk(id: u64) -> Self;
    /// The id, or None if the value is not one that `mk` makes.
    fn id(&self) -> Option<u64>;
    /// What `mk(id).id()` gives: types with fewer values fold ids together.
    fn fold(id: u64) -> u64 {
        id
    }
    fn get_copy(_v: &mut VecOption<Self>, _i: usize) -> Option<Option<Self>> {
        None
    }
}

impl Elem for u64 {
    const NAME: &'static str = "u64";
    const COPY: bool = true;
    fn mk(id: u64) -> Self {
        id ^ 0x5A5A_0000_0000_A5A5
    }
    fn id(&self) -> Option<u64> {
        Some(*self ^ 0x5A5A_0000_0000_A5A5)
    }
    fn get_copy(v: &mut VecOption<Self>, i: usize) -> Option<Option<Self>> {
        Some(v.get_copy(i))
    }
}
impl Elem for u8 {
    const NAME: &'static str = "u8";
    const COPY: bool = true;
    fn mk(id: u64) -> Self {
        id as u8
    }
    fn id(&self) -> Option<u64> {
        Some(*self as u64)
    }
    fn fold(id: u64) -> u64 {
        id & 0xff
    }
    fn get_copy(v: &mut VecOption<Self>, i: usize) -> Option<Option<Self>> {
        Some(v.get_copy(i))
    }
}
impl Elem for bool {
    const NAME: &'static str = "bool";
    const COPY: bool = true;
    fn mk(id: u64) -> Self {
        id & 1 == 1
    }
    fn id(&self) -> Option<u64> {
        // look at the byte: a bool that was never written may hold anything
        let b: u8 = unsafe { std::ptr::read_volatile(self as *const bool as *const u8) };
        if b > 1 {
            None
        } else {
            Some(b as u64)
        }
    }
    fn fold(id: u64) -> u64 {
        id & 1
    }
    fn get_copy(v: &mut VecOption<Self>, i: usize) -> Option<Option<Self>> {
        Some(v.get_copy(i))
    }
}
impl Elem for () {
    const NAME: &'static str = "()";
    const COPY: bool = true;
    fn mk(_: u64) -> Self {}
    fn id(&self) -> Option<u64> {
        Some(0)
    }
    fn fold(_: u64) -> u64 {
        0
    }
    fn get_copy(v: &mut VecOption<Self>, i: usize) -> Option<Option<Self>> {
        Some(v.get_copy(i))
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(align(64))]
pub struct Wide(pub u64, pub [u8; 3]);
impl Elem for Wide {
    const NAME: &'static str = "align64";
    const COPY: bool = true;
    fn mk(id: u64) -> Self {
        Wide(id, [7, id as u8, 9])
    }
    fn id(&self) -> Option<u64> {
        if self as *const Wide as usize % 64 != 0 {
            return None;
        }
        if self.1 == [7, self.0 as u8, 9] {
            Some(self.0)
        } else {
            None
        }
    }
    fn get_copy(v: &mut VecOption<Self>, i: usize) -> Option<Option<Self>> {
        Some(v.get_copy(i))
    }
}
impl Elem for Box<u64> {
    const NAME: &'static str = "Box<u64>";
    fn mk(id: u64) -> Self {
        Box::new(id)
    }
    fn id(&self) -> Option<u64> {
        Some(**self)
    }
}
impl Elem for String {
    const NAME: &'static str = "String";
    fn mk(id: u64) -> Self {
        format!("id{}", id)
    }
    fn id(&self) -> Option<u64> {
        self.strip_prefix("id").and_then(|s| s.parse().ok())
    }
}
impl Elem for (u16, Vec<u32>) {
    const NAME: &'static str = "(u16, Vec<u32>)";
    fn mk(id: u64) -> Self {
        let id = id & 0xffff;
        (id as u16, vec![id as u32; (id % 4) as usize])
    }
    fn id(&self) -> Option<u64> {
        let id = self.0 as u64;
        if self.1.len() as u64 == id % 4 && self.1.iter().all(|&x| x as u64 == id) {
            Some(id)
        } else {
            None
        }
    }
    fn fold(id: u64) -> u64 {
        id & 0xffff
    }
}

pub type Model = Vec<Option<u64>>;

pub fn ids_of<E: Elem>(o: &Option<E>) -> Option<Option<u64>> {
    match o {
        None => Some(None),
        Some(e) => e.id().map(Some),
    }
}
pub fn ids_of_ref<E: Elem>(o: &Option<&E>) -> Option<Option<u64>> {
    match o {
        None => Some(None),
        Some(e) => e.id().map(Some),
    }
}

fn same<E: Elem>(got: &Option<E>, want: &Option<u64>) -> bool {
    ids_of(got) == Some(want.map(E::fold))
}
fn same_ref<E: Elem>(got: &Option<&E>, want: &Option<u64>) -> bool {
    ids_of_ref(got) == Some(want.map(E::fold))
}

fn show<E: Elem>(o: &Option<E>) -> String {
    format!("{:?}", ids_of(o))
}

/// Compares everything that can be seen with the model.
pub fn compare<E: Elem>(v: &mut VecOption<E>, m: &Model, deep: bool) -> Res {
    let n = m.len();
    let (len, empty) = must("len", || (v.len(), v.is_empty()))?;
    ensure!(len == n, "len() is {}, expected {}", len, n);
    ensure!(empty == (n == 0), "is_empty() is {} with {} entries", empty, n);
    must("iter", || {
        let mut count = 0;
        for (i, got) in v.iter().enumerate() {
            ensure!(i < n, "iter() yields more than {} entries", n);
            ensure!(
                same_ref(&got, &m[i]),
                "entry {} is {:?}, expected {:?}",
                i,
                ids_of_ref(&got),
                m[i]
            );
            count += 1;
        }
        ensure!(count == n, "iter() yields {} of {} entries", count, n);
        Ok(())
    })??;
    if !deep {
        return Ok(());
    }
    must("accessors", || {
        for i in 0..n {
            let got = v.get_ref(i);
            ensure!(
                same_ref(&got, &m[i]),
                "get_ref({}) is {:?}, expected {:?}",
                i,
                ids_of_ref(&got),
                m[i]
            );
        }
        let got: Vec<(usize, Option<u64>)> = v.iter_some_index().map(|(i, e)| (i, e.id())).collect();
        let want: Vec<(usize, Option<u64>)> = m
            .iter()
            .enumerate()
            .filter_map(|(i, o)| o.map(|x| (i, Some(E::fold(x)))))
            .collect();
        ensure!(got == want, "iter_some_index() is {:?}, expected {:?}", got, want);
        let got: Vec<(usize, Option<u64>)> =
            v.iter_some_index_mut().map(|(i, e)| (i, e.id())).collect();
        ensure!(got == want, "iter_some_index_mut() is {:?}, expected {:?}", got, want);
        let mut k = 0;
        for (i, got) in v.iter_mut().enumerate() {
            ensure!(i < n, "iter_mut() yields too much");
            let got = got.map(|e| &*e);
            ensure!(same_ref(&got, &m[i]), "iter_mut() entry {} differs", i);
            k += 1;
        }
        ensure!(k == n, "iter_mut() yields {} of {}", k, n);
        let want = runs_of(m);
        let got: Vec<Vec<Option<u64>>> =
            v.iter_runs().map(|r| r.iter().map(|e| e.id()).collect()).collect();
        let want_ids: Vec<Vec<Option<u64>>> = want
            .iter()
            .map(|&(a, b)| m[a..b].iter().map(|o| o.map(E::fold)).collect())
            .collect();
        ensure!(got == want_ids, "iter_runs() is {:?}, expected {:?}", got, want_ids);
        let got: Vec<Vec<Option<u64>>> =
            v.iter_runs_mut().map(|r| r.iter().map(|e| e.id()).collect()).collect();
        ensure!(got == want_ids, "iter_runs_mut() is {:?}, expected {:?}", got, want_ids);
        Ok(())
    })??;
    Ok(())
}

/// Maximal stretches of present entries.
pub fn runs_of(m: &Model) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < m.len() {
        if m[i].is_some() {
            let a = i;
            while i < m.len() && m[i].is_some() {
                i += 1;
            }
            out.push((a, i));
        } else {
            i += 1;
        }
    }
    out
}

/// An iterator whose size hint may be exact, absent, or wrong.
pub struct Hinted<I> {
    pub it: I,
    pub lower: usize,
    pub upper: Option<usize>,
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lower, self.upper)
    }
}

fn hint(s: &mut Src, mode: crate::Mode, n: usize) -> (usize, Option<usize>) {
    // What a vector holds after a hint that is wrong is not promised, but it must stay sound, so
    // these are given where memory alone is watched.
    let wrong = mode != crate::Mode::Plain;
    match s.below(if wrong { 6 } else { 4 }) {
        4 => {
            let k = s.urange(0, n);
            (k, Some(k))
        }
        5 => {
            let k = n + s.us(40);
            (k, Some(k))
        }
        0 => (n, Some(n)),
        1 => (0, None),
        2 => (n / 2, Some(2 * n + 1)),
        _ => (n + s.us(40), None), // an overestimate: wrong, but never a reason for harm
    }
}

fn fresh_entries(s: &mut Src, next: &mut u64, n: usize) -> Model {
    let style = s.below(8);
    let cut = s.urange(0, n);
    (0..n)
        .map(|i| {
            let present = match style {
                0 => true,
                1 => s.chance(1, 2),
                2 => s.chance(1, 8),
                3 => i % 32 < 31,
                // nothing at all, a present front, a present back, nearly nothing
                4 => false,
                5 => i < cut,
                6 => i >= cut,
                _ => s.chance(1, 1000),
            };
            if present {
                *next += 1;
                Some(*next)
            } else {
                None
            }
        })
        .collect()
}

pub fn build<E: Elem>(m: &Model) -> VecOption<E> {
    m.iter().map(|o| o.map(E::mk)).collect()
}

/// A collection with the given entries, made in one of many ways.
pub fn make_any<E: Elem>(s: &mut Src, m: &Model) -> VecOption<E> {
    match s.below(6) {
        0 => build(m),
        1 => {
            let mut v = VecOption::new();
            for o in m {
                match o {
                    Some(i) => v.push_some(E::mk(*i)),
                    None => v.push_none(),
                }
            }
            v
        }
        2 => {
            // everything present first, then some taken out again
            let all: Vec<E> = m.iter().map(|o| E::mk(o.unwrap_or(77))).collect();
            let mut v = VecOption::from_vec(all);
            for (i, o) in m.iter().enumerate() {
                if o.is_none() {
                    v.set_none(i);
                }
            }
            v
        }
        3 => {
            let mut v = VecOption::new_repeat_none(m.len());
            let mut order: Vec<usize> = (0..m.len()).collect();
            s.shuffle(&mut order);
            for i in order {
                if let Some(id) = m[i] {
                    v.set_some(i, E::mk(id));
                }
            }
            v
        }
        4 => {
            // longer at first
            let extra = s.urange(0, 40);
            let mut v = VecOption::with_capacity(if s.chance(1, 30) { s.us(20_000) } else { s.us(100) });
            for o in m {
                v.push(o.map(E::mk));
            }
            for i in 0..extra {
                v.push(if i % 3 == 0 { None } else { Some(E::mk(99)) });
            }
            for _ in 0..extra {
                v.pop();
            }
            v
        }
        _ => {
            // with something in front that is drained again
            let extra = s.urange(0, 40);
            let mut v = VecOption::new();
            for i in 0..extra {
                v.push(if i % 2 == 0 { None } else { Some(E::mk(98)) });
            }
            v.extend(m.iter().map(|o| o.map(E::mk)));
            v.drain(..extra);
            v
        }
    }
}

fn bounds(s: &mut Src, n: usize) -> (Bound<usize>, Bound<usize>, Option<(usize, usize)>) {
    // mostly valid ranges; sometimes reversed or past the end
    let bad = s.chance(1, 12);
    let (a, b) = if bad {
        (s.urange(0, n + 3), s.urange(0, n + 3))
    } else {
        let a = s.urange(0, n);
        let b = match s.below(4) {
            0 => n,
            1 => a,
            _ => s.urange(a, n),
        };
        (a, b)
    };
    let lo = match s.below(4) {
        0 if a > 0 => Bound::Excluded(a - 1),
        1 if a == 0 => Bound::Unbounded,
        _ => Bound::Included(a),
    };
    let hi = match s.below(4) {
        0 if b > 0 => Bound::Included(b - 1),
        1 if b == n => Bound::Unbounded,
        _ => Bound::Excluded(b),
    };
    if bad && s.chance(1, 5) {
        // at the very end of the number range
        return match s.below(3) {
            0 => (lo, Bound::Included(usize::MAX), None),
            1 => (Bound::Excluded(usize::MAX), Bound::Unbounded, None),
            _ => (Bound::Included(usize::MAX), hi, None),
        };
    }
    let ok = if a <= b && b <= n { Some((a, b)) } else { None };
    (lo, hi, ok)
}

fn expect_panic<T>(what: &str, r: Result<T, Unwound>) -> Res {
    match r {
        Ok(_) => viol!("{} was accepted, although a vector rejects it", what),
        Err(_) => Ok(()),
    }
}

/// One history of operations. `log` gets a line per operation.
pub fn history<E: Elem>(s: &mut Src, ctx: &mut Ctx, log: &mut Vec<String>) -> Res {
    let mut next: u64 = 0;
    let max_len = ctx.by_scale(40, 160, 700);
    let max_ops = ctx.by_scale(12, 70, 200);
    let big = ctx.scale > 0 && s.chance(1, 60);
    let huge = ctx.scale > 0 && s.chance(1, 4000);
    let n0 = if huge { s.urange(20_000, 70_000) } else if big { s.urange(500, 4000) } else { s.size(max_len) };
    let mut m: Model = fresh_entries(s, &mut next, n0);
    let mut v: VecOption<E> = must("construction", || make_any::<E>(s, &m))?;
    log.push(format!("start with {} entries", n0));
    compare(&mut v, &m, true)?;
    let ops = if big || huge { s.urange(1, 12) } else { s.urange(1, max_ops) };
    let mut crossed = false;
    let mut kinds = 0u64;
    for _ in 0..ops {
        let n = m.len();
        if n >= 33 {
            crossed = true;
        }
        let k = s.weighted(&[
            10, 8, 6, 6, 8, 8, 4, 4, 6, 10, 4, 5, 3, 3, 3, 3, 3, 3, 2, 2, 2,
        ]);
        kinds |= 1 << k;
        match k {
            0 => {
                let o = fresh_entries(s, &mut next, 1)[0];
                log.push(format!("push({:?})", o));
                let via = s.chance(1, 2);
                must("push", || match (via, o) {
                    (false, _) => v.push(o.map(E::mk)),
                    (true, Some(i)) => v.push_some(E::mk(i)),
                    (true, None) => v.push_none(),
                })?;
                m.push(o);
            }
            1 => {
                log.push("pop()".into());
                let got = must("pop", || v.pop())?;
                let want = m.pop();
                match (&got, &want) {
                    (None, None) => {}
                    (Some(g), Some(w)) if same(g, w) => {}
                    _ => viol!(
                        "pop() gave {:?}, expected {:?}",
                        got.as_ref().map(ids_of),
                        want
                    ),
                }
            }
            2 => {
                log.push("pop_some()".into());
                let got = must("pop_some", || v.pop_some())?;
                let want = loop {
                    match m.pop() {
                        None => break None,
                        Some(Some(x)) => break Some(x),
                        Some(None) => {}
                    }
                };
                ensure!(same(&got, &want), "pop_some() gave {}, expected {:?}", show(&got), want);
            }
            3 => {
                // read access by index, in and out of range
                let i = s.urange(0, n + 1);
                log.push(format!("get({})", i));
                if i >= n {
                    expect_panic("get_ref past the end", cut(|| v.get_ref(i).is_some()))?;
                    expect_panic("get_mut past the end", cut(|| v.get_mut(i).is_some()))?;
                    expect_panic("get_clone past the end", cut(|| v.get_clone(i).is_some()))?;
                } else {
                    let got = must("get_clone", || v.get_clone(i))?;
                    ensure!(same(&got, &m[i]), "get_clone({}) gave {}, expected {:?}", i, show(&got), m[i]);
                    if E::COPY {
                        let got = must("get_copy", || E::get_copy(&mut v, i))?;
                        if let Some(got) = got {
                            ensure!(same(&got, &m[i]), "get_copy({}) gave {}, expected {:?}", i, show(&got), m[i]);
                        }
                    }
                    next += 1;
                    let id = next;
                    let had = must("get_mut", || match v.get_mut(i) {
                        Some(r) => {
                            let old = r.id();
                            *r = E::mk(id);
                            Some(old)
                        }
                        None => None,
                    })?;
                    ensure!(
                        had == m[i].map(|x| Some(E::fold(x))),
                        "get_mut({}) gave {:?}, expected {:?}",
                        i,
                        had,
                        m[i]
                    );
                    if m[i].is_some() {
                        m[i] = Some(id);
                    }
                }
            }
            4 | 5 => {
                let i = if n > 0 && !s.chance(1, 15) { s.us(n) } else { s.urange(n, n + 2) };
                let o = fresh_entries(s, &mut next, 1)[0];
                let how = s.below(6);
                log.push(format!("replace/set #{} ({}, {:?})", how, i, o));
                let (r, o): (Result<Option<Option<E>>, Unwound>, Option<u64>) = match (how, o) {
                    (0, o) => (cut(|| Some(v.replace(i, o.map(E::mk)))), o),
                    (1, Some(x)) => (cut(|| Some(v.replace_some(i, E::mk(x)))), o),
                    (2, _) => (cut(|| Some(v.replace_none(i))), None),
                    (3, o) => (
                        cut(|| {
                            v.set(i, o.map(E::mk));
                            None
                        }),
                        o,
                    ),
                    (4, Some(x)) => (
                        cut(|| {
                            v.set_some(i, E::mk(x));
                            None
                        }),
                        o,
                    ),
                    _ => (
                        cut(|| {
                            v.set_none(i);
                            None
                        }),
                        None,
                    ),
                };
                if i >= n {
                    expect_panic("writing past the end", r)?;
                } else {
                    let r = r.map_err(|u| Viol(format!("replace/set {}", u)))?;
                    if let Some(old) = r {
                        ensure!(same(&old, &m[i]), "replace({}) gave back {}, expected {:?}", i, show(&old), m[i]);
                    }
                    m[i] = o;
                }
            }
            6 | 7 => {
                let (a, b) = if n > 0 && !s.chance(1, 15) {
                    (s.us(n), s.us(n))
                } else {
                    (s.urange(0, n + 1), s.urange(0, n + 1))
                };
                log.push(format!("swap({}, {})", a, b));
                let r = cut(|| v.swap(a, b));
                if a >= n || b >= n {
                    expect_panic("swap past the end", r)?;
                } else {
                    r.map_err(|u| Viol(format!("swap {}", u)))?;
                    m.swap(a, b);
                }
            }
            8 | 9 => {
                let (lo, hi, ok) = bounds(s, n);
                let len = ok.map_or(0, |(a, b)| b - a);
                let take = match s.below(3) {
                    0 => 0,
                    1 => len + 1,
                    _ => s.urange(0, len),
                };
                log.push(format!("drain(({:?}, {:?})) taking {}", lo, hi, take));
                match ok {
                    None => {
                        expect_panic("draining a bad range", cut(|| v.drain((lo, hi)).count()))?;
                    }
                    Some((a, b)) => {
                        let got: Vec<Option<E>> = must("drain", || {
                            let mut d = v.drain((lo, hi));
                            let mut got = Vec::new();
                            for _ in 0..take {
                                match d.next() {
                                    Some(x) => got.push(x),
                                    None => break,
                                }
                            }
                            if take > len && d.next().is_some() {
                                got.push(None);
                            }
                            got
                        })?;
                        let want: Model = m[a..b].iter().take(take).copied().collect();
                        ensure!(
                            got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| same(g, w)),
                            "drain gave {:?}, expected {:?}",
                            got.iter().map(ids_of).collect::<Vec<_>>(),
                            want
                        );
                        m.drain(a..b);
                    }
                }
            }
            10 => {
                log.push("compact()".into());
                let want: Vec<Option<u64>> = m.iter().filter_map(|o| o.map(|x| Some(E::fold(x)))).collect();
                let got: Vec<Option<u64>> = must("compact", || v.compact().iter().map(|e| e.id()).collect())?;
                ensure!(got == want, "compact() gave {:?}, expected {:?}", got, want);
                m.retain(|o| o.is_some());
            }
            11 => {
                let k = s.size(max_len / 2);
                let add = fresh_entries(s, &mut next, k);
                let (lower, upper) = hint(s, ctx.mode, k);
                log.push(format!("extend by {} (hint {})", k, lower));
                let it = Hinted { it: add.iter().map(|o| o.map(E::mk)), lower, upper };
                if s.chance(1, 4) {
                    // the same by collecting
                    let mut c: VecOption<E> = must("collect", || it.collect())?;
                    compare(&mut c, &add, false)?;
                    must("extend", || v.extend(c.into_iter()))?;
                } else {
                    must("extend", || v.extend(it))?;
                }
                m.extend(add);
            }
            12 => {
                let k = s.size(100);
                log.push(format!("reserve({})", k));
                must("reserve", || v.reserve(k))?;
            }
            13 => {
                let over = s.chance(1, 2);
                log.push(if over { "clone_from, and go on with the clone" } else { "clone, and go on with the clone" }.into());
                let mut c: VecOption<E> = if over {
                    // a copy over entries that are already there
                    let d: Model = (0..s.urange(0, m.len() + 4)).map(|i| if s.chance(1, 3) { None } else { Some(9_000_000 + i as u64) }).collect();
                    let mut c = make_any::<E>(s, &d);
                    must("clone_from", || c.clone_from(&v))?;
                    c
                } else {
                    must("clone", || v.clone())?
                };
                compare(&mut c, &m, true)?;
                compare(&mut v, &m, false)?;
                must("drop", || std::mem::swap(&mut v, &mut c))?;
                must("drop", || drop(c))?;
            }
            14 => {
                log.push("rewrite through iter_mut".into());
                let base = next;
                must("iter_mut", || {
                    let mut k = base;
                    for e in v.iter_mut().flatten() {
                        k += 1;
                        *e = E::mk(k);
                    }
                })?;
                for e in m.iter_mut().flatten() {
                    next += 1;
                    *e = next;
                }
            }
            15 => {
                log.push("rewrite through iter_runs_mut".into());
                let base = next;
                must("iter_runs_mut", || {
                    let mut k = base;
                    // keep all slices at once: they must not overlap
                    let runs: Vec<&mut [E]> = v.iter_runs_mut().collect();
                    for r in runs {
                        for e in r.iter_mut() {
                            k += 1;
                            *e = E::mk(k);
                        }
                    }
                })?;
                for e in m.iter_mut().flatten() {
                    next += 1;
                    *e = next;
                }
            }
            16 => {
                log.push("rewrite through iter_some_index_mut".into());
                let base = next;
                must("iter_some_index_mut", || {
                    let all: Vec<(usize, &mut E)> = v.iter_some_index_mut().collect();
                    for (i, e) in all {
                        *e = E::mk(base + 1 + i as u64);
                    }
                })?;
                for (i, e) in m.iter_mut().enumerate() {
                    if let Some(e) = e {
                        *e = base + 1 + i as u64;
                    }
                }
                next += m.len() as u64 + 1;
            }
            17 => {
                log.push("some_into_vec and from_vec".into());
                let old = std::mem::replace(&mut v, VecOption::new());
                let vec = must("some_into_vec", || old.some_into_vec())?;
                let want: Vec<Option<u64>> = m.iter().filter_map(|o| o.map(|x| Some(E::fold(x)))).collect();
                let got: Vec<Option<u64>> = vec.iter().map(|e| e.id()).collect();
                ensure!(got == want, "some_into_vec() gave {:?}, expected {:?}", got, want);
                m.retain(|o| o.is_some());
                v = must("from_vec", || VecOption::from_vec(vec))?;
            }
            18 => {
                let k = s.size(max_len);
                log.push(format!("new_repeat_none({})", k));
                v = must("new_repeat_none", || VecOption::new_repeat_none(k))?;
                m = vec![None; k];
            }
            19 => {
                let take = s.urange(0, n + 1);
                log.push(format!("into_iter, {} taken, the rest collected", take));
                let old = std::mem::replace(&mut v, VecOption::new());
                let (first, rest) = must("into_iter", || {
                    let mut it = old.into_iter();
                    let mut first = Vec::new();
                    for _ in 0..take {
                        if let Some(x) = it.next() {
                            first.push(x)
                        }
                    }
                    let rest: VecOption<E> = it.collect();
                    (first, rest)
                })?;
                let k = take.min(n);
                ensure!(
                    first.len() == k && first.iter().zip(&m).all(|(g, w)| same(g, w)),
                    "into_iter gave {:?} first",
                    first.iter().map(ids_of).collect::<Vec<_>>()
                );
                v = rest;
                m.drain(..k);
            }
            _ => {
                let some: Vec<u64> = m.iter().filter_map(|o| o.map(E::fold)).collect();
                let take = s.urange(0, some.len() + 1);
                log.push(format!("into_some_iter, {} taken", take));
                let old = std::mem::replace(&mut v, VecOption::new());
                let got = must("into_some_iter", || {
                    let mut it = old.into_some_iter();
                    let mut got = Vec::new();
                    for _ in 0..take {
                        match it.next() {
                            Some(x) => got.push(x.id()),
                            None => break,
                        }
                    }
                    if take > some.len() && it.next().is_some() {
                        got.push(None);
                    }
                    got
                })?;
                let want: Vec<Option<u64>> = some.iter().take(take).map(|x| Some(*x)).collect();
                ensure!(got == want, "into_some_iter gave {:?}, expected {:?}", got, want);
                m.clear();
            }
        }
        ctx.ev("operations", 1);
        let deep = m.len() <= 200 && s.chance(1, 3);
        compare(&mut v, &m, deep)?;
        ctx.ev("full comparisons with the model", 1);
        ctx.max("longest collection", m.len() as u64);
    }
    compare(&mut v, &m, true)?;
    // the end: one of the consuming conversions
    match s.below(4) {
        0 => {
            let got: Vec<Option<u64>> = must("some_into_vec", || v.some_into_vec().iter().map(|e| e.id()).collect())?;
            let want: Vec<Option<u64>> = m.iter().filter_map(|o| o.map(|x| Some(E::fold(x)))).collect();
            ensure!(got == want, "final some_into_vec gave {:?}, expected {:?}", got, want);
        }
        1 => {
            let got: Vec<Option<E>> = must("into_iter", || v.into_iter().collect())?;
            ensure!(
                got.len() == m.len() && got.iter().zip(&m).all(|(g, w)| same(g, w)),
                "final into_iter gave {:?}, expected {:?}",
                got.iter().map(ids_of).collect::<Vec<_>>(),
                m
            );
        }
        2 => {
            let got: Vec<Option<u64>> = must("into_some_iter", || v.into_some_iter().map(|e| e.id()).collect())?;
            let want: Vec<Option<u64>> = m.iter().filter_map(|o| o.map(|x| Some(E::fold(x)))).collect();
            ensure!(got == want, "final into_some_iter gave {:?}, expected {:?}", got, want);
        }
        _ => must("drop", || drop(v))?,
    }
    if crossed {
        ctx.ev("histories crossing a bitmap block", 1);
    }
    if kinds.count_ones() >= 3 {
        ctx.nontrivial();
    }
    Ok(())
}
