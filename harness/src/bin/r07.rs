//! The cubic solver against polynomials built from known roots.

use trellis::pathplan::solvers::solve3;
use vh::{ensure, must, worker, Ctx, Res, Src};

struct Case {
    c: [f64; 4],
    /// real roots with multiplicity, sorted
    roots: Vec<f64>,
    scale: f64,
    /// every real root is simple and far from all other roots, complex ones included
    clear: bool,
    /// everything about it is computed without rounding, so that a repeated root is one
    exact: bool,
}

fn lead(s: &mut Src) -> f64 {
    let m = match s.below(5) {
        0 => 1.0,
        4 => 10f64.powf(s.real(-6.0, 6.0)),
        1 => s.real(0.5, 2.0),
        2 => s.real(0.001, 1.0),
        _ => s.real(1.0, 1000.0),
    };
    if s.chance(1, 2) {
        -m
    } else {
        m
    }
}

fn value(s: &mut Src, scale: f64) -> f64 {
    match s.below(4) {
        0 => s.range(-4, 4) as f64 * scale / 4.0,
        1 => s.range(0, 8) as f64 * scale / 8.0,
        _ => s.real(-scale, scale),
    }
}

/// Repeated roots of which every step of the solution is a whole number, or close to one.
fn repeated(s: &mut Src) -> Case {
    let a = 2f64.powi(s.range(-3, 6) as i32) * if s.chance(1, 2) { 1.0 } else { -1.0 };
    let p = s.range(-20, 20) as f64;
    if s.chance(1, 2) {
        return Case { c: [a * p * p, -2.0 * a * p, a, 0.0], roots: vec![p, p], scale: 20.0, clear: false, exact: true };
    }
    // the sum of the three a multiple of three
    let r = if s.chance(1, 4) { p } else { p + 3.0 * s.range(-8, 8) as f64 };
    let mut roots = vec![p, p, r];
    roots.sort_by(|x, y| x.partial_cmp(y).unwrap());
    Case {
        c: [-a * p * p * r, a * (p * p + 2.0 * p * r), -a * (2.0 * p + r), a],
        roots,
        scale: 40.0,
        clear: false,
        exact: true,
    }
}

fn gen(s: &mut Src) -> Case {
    if s.chance(1, 12) {
        return repeated(s);
    }
    let scale = *s.pick(&[1.0, 1.0, 8.0, 100.0]);
    let degree = s.weighted(&[1, 2, 4, 9]);
    let a = lead(s);
    match degree {
        0 => {
            let d = if s.chance(1, 3) { 0.0 } else { a };
            Case { c: [d, 0.0, 0.0, 0.0], roots: vec![], scale: 1.0, clear: true, exact: false }
        }
        1 => {
            let r = value(s, scale);
            Case { c: [-a * r, a, 0.0, 0.0], roots: vec![r], scale, clear: true, exact: false }
        }
        2 => {
            if s.chance(1, 3) {
                // no real root, or one double root
                let u = value(s, scale);
                let w = if s.chance(1, 4) { 0.0 } else { s.real(0.05, 1.0) * scale };
                let roots = if w == 0.0 { vec![u, u] } else { vec![] };
                Case { c: [a * (u * u + w * w), -2.0 * a * u, a, 0.0], roots, scale, clear: w != 0.0, exact: false }
            } else {
                let (p, q) = (value(s, scale), value(s, scale));
                let clear = (p - q).abs() > 0.02 * scale;
                let mut roots = vec![p, q];
                roots.sort_by(|x, y| x.partial_cmp(y).unwrap());
                Case { c: [a * p * q, -a * (p + q), a, 0.0], roots, scale, clear, exact: false }
            }
        }
        _ => {
            let r = value(s, scale);
            if s.chance(1, 5) {
                // two roots nearby, or none, and one far away: a leading coefficient that is small beside the rest
                let far = scale * 10f64.powf(s.real(1.0, 7.0)) * if s.chance(1, 2) { 1.0 } else { -1.0 };
                // (the solver takes a coefficient below 1e-7 for zero)
                let a = (a * 20.0 * scale / far).abs().max(2e-6) * if s.chance(1, 2) { 1.0 } else { -1.0 };
                let (p, q) = (r, value(s, scale));
                let pair = s.chance(2, 3);
                // x^2 - m x + k
                let (m, k) = if pair {
                    (p + q, p * q)
                } else {
                    let w = s.real(0.05, 1.0) * scale;
                    (2.0 * p, p * p + w * w)
                };
                let mut roots = if pair { vec![p, q, far] } else { vec![far] };
                roots.sort_by(|x, y| x.partial_cmp(y).unwrap());
                return Case {
                    c: [-a * far * k, a * (k + far * m), -a * (far + m), a],
                    roots,
                    scale,
                    clear: !pair || (p - q).abs() > 0.02 * scale,
                    exact: false,
                };
            }
            if s.chance(1, 8) {
                // one root nearby, and a pair of real or complex ones far away
                let m = scale * 10f64.powf(s.real(1.0, 4.0));
                let a = (a * 20.0 * scale / m * scale / m).abs().max(2e-6) * if s.chance(1, 2) { 1.0 } else { -1.0 };
                let u = m * s.real(-1.0, 1.0);
                let w = m * s.real(0.2, 1.0);
                let real = s.chance(1, 2);
                let (b, k) = (2.0 * u, if real { u * u - w * w } else { u * u + w * w });
                let mut roots = if real { vec![r, u - w, u + w] } else { vec![r] };
                roots.sort_by(|x, y| x.partial_cmp(y).unwrap());
                let apart = roots.windows(2).all(|w| w[1] - w[0] > 0.02 * m);
                return Case { c: [-a * r * k, a * (k + r * b), -a * (b + r), a], roots, scale, clear: apart, exact: false };
            }
            match s.below(3) {
                0 => {
                    let u = value(s, scale);
                    let w = s.real(0.05, 1.0) * scale;
                    let k = u * u + w * w;
                    // (x - r)(x^2 - 2ux + k)
                    Case {
                        c: [-a * r * k, a * (k + 2.0 * u * r), a * (-2.0 * u - r), a],
                        roots: vec![r],
                        scale,
                        clear: true,
                        exact: false,
                    }
                }
                k => {
                    let p = value(s, scale);
                    let q = if k == 1 && s.chance(1, 3) { p } else { value(s, scale) };
                    let mut roots = vec![r, p, q];
                    roots.sort_by(|x, y| x.partial_cmp(y).unwrap());
                    let gap = (roots[1] - roots[0]).min(roots[2] - roots[1]);
                    Case {
                        c: [-a * r * p * q, a * (r * p + r * q + p * q), -a * (r + p + q), a],
                        roots,
                        scale,
                        clear: gap > 0.02 * scale,
                        exact: false,
                    }
                }
            }
        }
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut last = Vec::new();
    for _ in 0..8 {
        let k = gen(s);
        for x in k.c {
            ctx.fp(x.to_bits());
        }
        let before = k.c;
        let (n, got) = must("solve3", || solve3(&k.c))?;
        ensure!(k.c == before, "the coefficients were changed");
        let zero = k.c.iter().all(|x| *x == 0.0);
        let what = || {
            format!("{} + {} x + {} x^2 + {} x^3 with real roots {:?}", k.c[0], k.c[1], k.c[2], k.c[3], k.roots)
        };
        if zero {
            ensure!(n == 4, "the zero polynomial has count {}", n);
            ctx.ev("zero polynomials", 1);
            continue;
        }
        ensure!(n <= 3, "count {} for {}", n, what());
        let got = &got[..n];
        // every reported value is near a root of the polynomial, or the polynomial vanishes there
        for &x in got {
            ensure!(x.is_finite(), "reported {} for {}", x, what());
            let near = k.roots.iter().any(|r| (r - x).abs() <= 1e-6 * k.scale.max(r.abs()));
            if k.clear {
                ensure!(near, "reported {:?}, of which {} is no root of {}", got, x, what());
            } else if !near {
                let y = k.c[0] + x * (k.c[1] + x * (k.c[2] + x * k.c[3]));
                let m = k.scale.max(x.abs());
                let mag = k.c[0].abs() + m * (k.c[1].abs() + m * (k.c[2].abs() + m * k.c[3].abs()));
                ensure!(
                    y.abs() <= 1e-8 * mag,
                    "reported {:?}, but at {} the value is {}: {}",
                    got,
                    x,
                    y,
                    what()
                );
            }
        }
        // every root that stands apart is reported
        let mut apart = 0;
        for (i, r) in k.roots.iter().enumerate() {
            if k.roots.iter().enumerate().all(|(j, q)| i == j || (q - r).abs() > 0.02 * k.scale) {
                apart += 1;
                ensure!(
                    got.iter().any(|x| (x - r).abs() <= 1e-6 * k.scale.max(r.abs())),
                    "reported {:?}, without the root {} of {}",
                    got,
                    r,
                    what()
                );
            }
        }
        if k.exact {
            for r in &k.roots {
                ensure!(
                    got.iter().any(|x| (x - r).abs() <= 1e-6 * k.scale),
                    "reported {:?}, without the repeated root {} of {}",
                    got,
                    r,
                    what()
                );
            }
            ctx.ev("polynomials with a root that is repeated exactly", 1);
        }
        ctx.ev("roots that must be reported", apart);
        ctx.ev(
            match (k.c[3] != 0.0, k.c[2] != 0.0, k.c[1] != 0.0) {
                (true, _, _) => "cubics",
                (_, true, _) => "quadratics",
                (_, _, true) => "linear ones",
                _ => "constants",
            },
            1,
        );
        last.push((k.c, got.to_vec()));
    }
    ctx.sample(|| format!("{:?}", last));
    ctx.nontrivial();
    Ok(())
}

fn main() {
    worker("R07", run)
}
