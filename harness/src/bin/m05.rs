//! Plane vectors and number helpers against their defining laws, for several number types.

use core::fmt::Debug;
use core::ops::{Add, Div, Mul, Sub};
use trellis::common::arith::{AVG, BETWEEN, CMP, MAX, MIN, SGN, SQR};
use trellis::common::geom::{APPROXEQ, DIST, DIST2, LEN, LEN2};
use trellis::math::{fmax, fmin, sqr};
use trellis::vec2::Vec2;
use vh::{ensure, must, worker, Ctx, Res, Src};

trait Num:
    Copy + Default + PartialEq + PartialOrd + Debug + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self>
{
    const EXACT: bool;
    fn gen(s: &mut Src) -> Self;
    fn zero(self) -> bool {
        self == Self::default()
    }
}

macro_rules! ints {
    ($($t:ty),*) => { $(
        impl Num for $t {
            const EXACT: bool = true;
            fn gen(s: &mut Src) -> Self {
                // small enough that no product of two sums overflows
                let m = ((<$t>::MAX as f64).sqrt() / 3.0).min(1e9) as i64;
                let x = match s.below(3) {
                    0 => s.range(0, 3),
                    1 => m - s.range(0, 2),
                    _ => s.range(0, m),
                };
                if <$t>::MIN != 0 && s.chance(1, 2) { (-x) as $t } else { x as $t }
            }
        }
    )* };
}
ints!(i16, i32, i64, i128, u16, u32, u64);

macro_rules! floats {
    ($($t:ty),*) => { $(
        impl Num for $t {
            const EXACT: bool = false;
            fn gen(s: &mut Src) -> Self {
                match s.below(5) {
                    0 => s.range(-4, 4) as $t,
                    1 => s.range(-1000, 1000) as $t / 8.0,
                    2 => s.real(-1e6, 1e6) as $t,
                    3 => s.real(-1e-6, 1e-6) as $t,
                    _ => (s.real(-1.0, 1.0) * 1e15) as $t,
                }
            }
        }
    )* };
}
floats!(f32, f64);

fn algebra<T: Num>(s: &mut Src, ctx: &mut Ctx, name: &'static str) -> Res {
    let v: Vec<T> = (0..7).map(|_| T::gen(s)).collect();
    for x in &v {
        ctx.fp(format!("{}{:?}", name, x).bytes().fold(1, |h, b| vh::mix(h ^ b as u64)));
    }
    let (p, q, r, k) = (Vec2 { x: v[0], y: v[1] }, Vec2 { x: v[2], y: v[3] }, Vec2 { x: v[4], y: v[5] }, v[6]);
    ctx.sample(|| format!("{}: {:?} {:?} {:?} factor {:?}", name, p, q, r, k));
    let is = |a: Vec2<T>, x: T, y: T| a.x == x && a.y == y;
    must(name, || {
        ensure!(is(p + q, v[0] + v[2], v[1] + v[3]), "{}: {:?} + {:?} is {:?}", name, p, q, p + q);
        ensure!(p + q == q + p, "{}: {:?} + {:?} depends on the order", name, p, q);
        let (hi, lo) = (
            Vec2 { x: if p.x < q.x { q.x } else { p.x }, y: if p.y < q.y { q.y } else { p.y } },
            Vec2 { x: if p.x < q.x { p.x } else { q.x }, y: if p.y < q.y { p.y } else { q.y } },
        );
        ensure!(is(hi - lo, hi.x - lo.x, hi.y - lo.y), "{}: {:?} - {:?} is {:?}", name, hi, lo, hi - lo);
        ensure!(is(p - p, T::default(), T::default()), "{}: {:?} - itself is {:?}", name, p, p - p);
        ensure!(p + Vec2::default() == p && p - Vec2::default() == p, "{}: {:?} and nothing", name, p);
        ensure!(is(p * k, v[0] * k, v[1] * k), "{}: {:?} * {:?} is {:?}", name, p, k, p * k);
        if !k.zero() {
            ensure!(is(p / k, v[0] / k, v[1] / k), "{}: {:?} / {:?} is {:?}", name, p, k, p / k);
            if T::EXACT {
                ensure!((p * k) / k == p, "{}: {:?} * {:?} / {:?} is {:?}", name, p, k, k, (p * k) / k);
            }
        }
        if T::EXACT {
            ensure!((p + q) + r == p + (q + r), "{}: sum of {:?} {:?} {:?}", name, p, q, r);
            ensure!((p + q) - q == p, "{}: {:?} + {:?} - {:?}", name, p, q, q);
            ensure!((p + q) * k == p * k + q * k, "{}: ({:?} + {:?}) * {:?}", name, p, q, k);
        }
        let t: (T, T) = p.into();
        ensure!(t == (v[0], v[1]), "{}: {:?} as a pair is {:?}", name, p, t);
        ensure!(Vec2::from((v[0], v[1])) == p, "{}: {:?} from a pair", name, t);
        ensure!((p == q) == (v[0] == v[2] && v[1] == v[3]), "{}: {:?} == {:?}", name, p, q);
        ensure!((p != q) == !(p == q), "{}: {:?} != {:?}", name, p, q);
        let d = format!("{:?}", p);
        ensure!(d == format!("({:?}, {:?})", v[0], v[1]), "{}: printed as {}", name, d);
        // the helpers for any ordered type
        let (a, b) = (v[0], v[1]);
        let (lo, hi) = if a < b { (a, b) } else { (b, a) };
        ensure!(MIN(a, b) == lo && MIN(b, a) == lo, "{}: MIN({:?}, {:?}) is {:?}", name, a, b, MIN(a, b));
        ensure!(MAX(a, b) == hi && MAX(b, a) == hi, "{}: MAX({:?}, {:?}) is {:?}", name, a, b, MAX(a, b));
        ensure!(sqr(a) == a * a, "{}: sqr({:?}) is {:?}", name, a, sqr(a));
        Ok(())
    })??;
    ctx.ev("vectors of one number type judged", 3);
    Ok(())
}

/// Any finite number, the odd ones included, and infinities.
fn odd(s: &mut Src) -> f64 {
    match s.below(9) {
        0 => 0.0,
        1 => -0.0,
        2 => *s.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324]),
        3 => s.range(-3, 3) as f64,
        4 => s.real(-1e300, 1e300),
        5 => s.real(-1e-300, 1e-300),
        _ => s.real(-100.0, 100.0),
    }
}

/// Vectors of anything: printed, compared and taken apart.
fn pair_of<T: Clone + PartialEq + Debug>(ctx: &mut Ctx, x: T, y: T, z: T) -> Res {
    ctx.ev("vectors of other things judged", 1);
    must("Vec2", || -> Res {
        let p = Vec2 { x: x.clone(), y: y.clone() };
        let q = Vec2::from((z.clone(), y.clone()));
        let r = Vec2::from((x.clone(), z.clone()));
        ensure!(format!("{:?}", p) == format!("({:?}, {:?})", x, y), "({:?}, {:?}) is printed as {:?}", x, y, p);
        ensure!((p == q) == (x == z && y == y) && (q == p) == (p == q), "{:?} == {:?}", p, q);
        ensure!((p == r) == (x == x && y == z) && (p != r) != (p == r), "{:?} == {:?}", p, r);
        ensure!(p.clone() == p || x != x || y != y, "{:?} differs from its clone", p);
        let t: (T, T) = q.into();
        ensure!(format!("{:?}", t) == format!("({:?}, {:?})", z, y), "({:?}, {:?}) as a pair is {:?}", z, y, t);
        Ok(())
    })?
}

fn others(s: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = s.below(5);
    let same = s.below(3);
    let word = |s: &mut Src| (s.below(1 << 32) as u128) << 96 | (s.below(1 << 32) as u128) << 64 | (s.below(1 << 32) as u128) << 32 | s.below(1 << 32) as u128;
    let w = [word(s), word(s), word(s)];
    let w = [w[0], w[1], if same < 2 { w[same as usize] } else { w[2] }];
    for x in w {
        ctx.fp((x >> 64) as u64);
        ctx.fp(x as u64);
    }
    ctx.fp(kind);
    match kind {
        // any bits at all
        0 => pair_of(ctx, f64::from_bits(w[0] as u64), f64::from_bits(w[1] as u64), f64::from_bits(w[2] as u64)),
        1 => pair_of(ctx, f32::from_bits(w[0] as u32), f32::from_bits(w[1] as u32), f32::from_bits(w[2] as u32)),
        2 => pair_of(ctx, w[0] as i128, w[1] as i128, w[2] as i128),
        3 => pair_of(ctx, format!("{:?}\n\u{e9}", w[0]), "\"".repeat((w[1] % 70) as usize), if same == 0 { format!("{:?}\n\u{e9}", w[0]) } else { String::new() }),
        _ => pair_of(ctx, Some(w[0] as i64), None, if same == 0 { Some(w[0] as i64) } else { None }),
    }
}

fn numbers(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut n = [odd(s), odd(s), odd(s)];
    if s.chance(1, 3) {
        n[1] = n[0];
    } else if s.chance(1, 3) && n[0].is_finite() {
        n[1] = f64::from_bits(n[0].to_bits().wrapping_add(s.range(-1, 1) as u64));
        if !n[1].is_finite() {
            n[1] = n[0];
        }
    }
    let [a, b, c] = n;
    for x in n {
        ctx.fp(x.to_bits());
    }
    ctx.sample(|| format!("numbers {:?} {:?} {:?}", a, b, c));
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    must("number helpers", || {
        for (name, x, want) in [
            ("MIN", MIN(a, b), lo),
            ("fmin", fmin(a, b), lo),
            ("MAX", MAX(a, b), hi),
            ("fmax", fmax(a, b), hi),
            ("MIN reversed", MIN(b, a), lo),
            ("fmin reversed", fmin(b, a), lo),
            ("MAX reversed", MAX(b, a), hi),
            ("fmax reversed", fmax(b, a), hi),
        ] {
            ensure!(x == want, "{} of {:?} and {:?} is {:?}", name, a, b, x);
        }
        let want = if a < b { -1 } else { (a > b) as i32 };
        ensure!(CMP(a, b) == want && CMP(b, a) == -want, "CMP({:?}, {:?}) is {} and {}", a, b, CMP(a, b), CMP(b, a));
        ensure!(SGN(a) == if a < 0.0 { -1 } else { 1 }, "SGN({:?}) is {}", a, SGN(a));
        for (x, y, z) in [(a, b, c), (a, c, b), (b, a, c), (b, c, a), (c, a, b), (c, b, a), (a, a, b), (b, a, a), (a, a, a)] {
            ensure!(BETWEEN(x, y, z) == (x <= y && y <= z), "BETWEEN({:?}, {:?}, {:?})", x, y, z);
        }
        if a.abs() < 1e300 && b.abs() < 1e300 {
            let m = AVG(a, b);
            ensure!(m == AVG(b, a), "AVG({:?}, {:?}) depends on the order", a, b);
            let w = 1e-15 * a.abs().max(b.abs()) + 1e-323;
            ensure!(m >= lo - w && m <= hi + w, "AVG({:?}, {:?}) is {:?}", a, b, m);
            let e = (m - a) - (b - m);
            ensure!(e.abs() <= 8.0 * w, "AVG({:?}, {:?}) is {:?}", a, b, m);
        }
        ensure!(SQR(a) == a * a && sqr(a) == a * a, "the square of {:?} is {:?} and {:?}", a, SQR(a), sqr(a));
        if a.is_finite() && b.is_finite() && (a - b).is_finite() {
            let tol = *s.pick(&[1e-300, 1e-9, 1.0, 1e9]);
            ensure!(
                APPROXEQ(a, b, tol) == ((a - b).abs() < tol) && APPROXEQ(a, b, tol) == APPROXEQ(b, a, tol),
                "APPROXEQ({:?}, {:?}, {:?})",
                a,
                b,
                tol
            );
        }
        Ok(())
    })??;
    ctx.ev("numbers judged", 3);
    Ok(())
}

fn directions(s: &mut Src, ctx: &mut Ctx) -> Res {
    let r = *s.pick(&[4.0, 100.0, 1e5]);
    let (a, b) = if s.chance(1, 3) {
        (s.range(-16, 16) as f64 * std::f64::consts::FRAC_PI_4, s.range(-16, 16) as f64 * std::f64::consts::FRAC_PI_6)
    } else {
        (s.real(-r, r), s.real(-r, r))
    };
    ctx.fp(a.to_bits());
    ctx.fp(b.to_bits());
    ctx.sample(|| format!("angles {:?} {:?}", a, b));
    must("from_angle", || {
        let (u, w, t) = (Vec2::from_angle(a), Vec2::from_angle(b), Vec2::from_angle(a + b));
        let near = |x: f64, y: f64| (x - y).abs() < 1e-9;
        ensure!(near(u.x, a.cos()) && near(u.y, a.sin()), "from_angle({:?}) is {:?}", a, u);
        ensure!(near(LEN2(u.x, u.y), 1.0) && near(LEN(u.x, u.y), 1.0), "from_angle({:?}) has length {:?}", a, LEN(u.x, u.y));
        // turning by one after the other is turning by both
        ensure!(
            near(t.x, u.x * w.x - u.y * w.y) && near(t.y, u.y * w.x + u.x * w.y),
            "directions {:?} and {:?} together are {:?}",
            a,
            b,
            t
        );
        let back = Vec2::from_angle(-a);
        ensure!(near(back.x, u.x) && near(back.y, -u.y), "from_angle({:?}) is {:?}", -a, back);
        // chord of the angle between
        let d = 2.0 * ((a - b) / 2.0).sin().abs();
        ensure!(near(DIST(u, w), d) && near(DIST2(u, w), d * d), "directions {:?} and {:?} are {:?} apart", a, b, DIST(u, w));
        let k = s.real(-50.0, 50.0);
        let (x, y) = (k * u, u * k);
        ensure!(x == y && (LEN(x.x, x.y) - k.abs()).abs() < 1e-9, "{:?} times {:?} is {:?}", k, u, x);
        Ok(())
    })??;
    ctx.ev("directions judged", 3);
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.nontrivial();
    match s.below(13) {
        12 => others(s, ctx),
        0 => algebra::<i16>(s, ctx, "i16"),
        1 => algebra::<i32>(s, ctx, "i32"),
        2 => algebra::<i64>(s, ctx, "i64"),
        3 => algebra::<i128>(s, ctx, "i128"),
        4 => algebra::<u16>(s, ctx, "u16"),
        5 => algebra::<u32>(s, ctx, "u32"),
        6 => algebra::<u64>(s, ctx, "u64"),
        7 => algebra::<f32>(s, ctx, "f32"),
        8 => algebra::<f64>(s, ctx, "f64"),
        9 | 10 => numbers(s, ctx),
        _ => directions(s, ctx),
    }
}

fn main() {
    worker("M05", run)
}
