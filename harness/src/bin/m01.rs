//! Elliptical wedges: the outline is followed and compared with the ellipse.

use std::f64::consts::PI;
use trellis::common::ellipse::{ellipticWedge, PathTarget};
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;
use vh::{ensure, must, viol, worker, Ctx, Res, Src};

type F = (f64, f64);
const TURN: f64 = 2.0 * PI;

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Move(F),
    Line(F),
    Curve(F, F, F),
    End(bool),
}

#[derive(Default)]
struct Log(Vec<Ev>);
fn f(p: Vec2<f64>) -> F {
    (p.x, p.y)
}
impl PathTarget for Log {
    fn move_to(&mut self, p: Vec2<f64>) {
        self.0.push(Ev::Move(f(p)));
    }
    fn line_to(&mut self, p: Vec2<f64>) {
        self.0.push(Ev::Line(f(p)));
    }
    fn curve_to(&mut self, p1: Vec2<f64>, p2: Vec2<f64>, p3: Vec2<f64>) {
        self.0.push(Ev::Curve(f(p1), f(p2), f(p3)));
    }
    fn end_path(&mut self, close: bool) {
        self.0.push(Ev::End(close));
    }
}

fn angle(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => s.range(-24, 24) as f64 * PI / 12.0,
        1 => s.range(-8, 8) as f64 * PI / 2.0,
        2 => s.real(-1.0, 7.0),
        3 => s.range(0, 360) as f64 / 180.0 * PI,
        _ => s.real(-13.0, 13.0),
    }
}

fn axis(s: &mut Src) -> f64 {
    match s.below(9) {
        8 => s.real(0.0, 13.0).exp2() * s.real(1.0, 10.0),
        0 | 1 => s.range(1, 10) as f64,
        2 | 3 => s.real(0.5, 5.0),
        4 | 5 => s.real(5.0, 300.0),
        _ => s.range(1, 40) as f64 * 9.0,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = axis(s);
    let mut b = if s.chance(1, 5) { a } else { axis(s) };
    b = b.clamp(a / 500.0, a * 40.0);
    let far = if s.chance(1, 8) { 200.0 } else { 1.0 };
    let c = (s.range(-500, 500) as f64 * far, s.real(-500.0, 500.0) * far);
    let start = angle(s);
    let (end, exact) = match s.below(6) {
        // exactly half a turn, or a quarter
        0 => (start + PI, None),
        1 => (start + s.range(1, 3) as f64 * PI / 2.0, None),
        // a whole turn
        2 => (start + TURN, Some(TURN)),
        3 => (start + s.real(1e-3, TURN - 1e-3) + s.range(-2, 2) as f64 * TURN, None),
        4 => (start + s.range(1, 359) as f64 / 180.0 * PI, None),
        _ => (angle(s), None),
    };
    let want = match exact {
        Some(w) => w,
        None => {
            let w = (end - start).rem_euclid(TURN);
            if w < 1e-4 || w > TURN - 1e-4 {
                // no turn or a whole one: not told apart here
                return Ok(());
            }
            w
        }
    };
    for x in [a, b, c.0, c.1, start, end] {
        ctx.fp(x.to_bits());
    }
    let show = || format!("centre {:?} semi-axes {} and {} from {} to {} (sweep {})", c, a, b, start, end, want);
    ctx.sample(show);
    let ctr = Vec2 { x: c.0, y: c.1 };
    let mut log = Log::default();
    must("ellipticWedge", || ellipticWedge(ctr, a, b, start, end, &mut log))?;
    let mut poly = Ppoly_t { ps: vec![Vec2 { x: 1.0, y: 1.0 }; s.us(3)] };
    must("ellipticWedge", || ellipticWedge(ctr, a, b, start, end, &mut poly))?;

    // the outline as cubic pieces
    let mut cur: Option<F> = None;
    let mut first = None;
    let mut pieces: Vec<(bool, [F; 4])> = Vec::new();
    let mut ended = false;
    for e in &log.0 {
        ensure!(!ended, "the path goes on after its end: {}", show());
        match (e, cur) {
            (Ev::Move(p), None) => {
                cur = Some(*p);
                first = Some(*p);
            }
            (Ev::Line(p), Some(q)) => {
                pieces.push((true, [q, q, *p, *p]));
                cur = Some(*p);
            }
            (Ev::Curve(p1, p2, p3), Some(q)) => {
                pieces.push((false, [q, *p1, *p2, *p3]));
                cur = Some(*p3);
            }
            (Ev::End(close), Some(q)) => {
                if *close {
                    let p = first.unwrap();
                    pieces.push((true, [q, q, p, p]));
                    cur = Some(p);
                }
                ended = true;
            }
            _ => viol!("misplaced path command {:?}: {}", e, show()),
        }
    }
    ensure!(ended, "the path does not end: {}", show());
    ensure!(pieces.len() >= 3, "only {} pieces: {}", pieces.len(), show());
    ensure!(
        first == Some(c) && cur == Some(c),
        "the outline starts at {:?} and ends at {:?}: {}",
        first,
        cur,
        show()
    );
    let n = pieces.len();
    for (i, p) in pieces.iter().enumerate() {
        ensure!(
            p.0 == (i == 0 || i == n - 1),
            "piece {} of {} is {}: {}",
            i,
            n,
            if p.0 { "straight" } else { "curved" },
            show()
        );
    }
    // the polyline target holds the same pieces
    let mut flat = vec![c];
    for p in &pieces {
        flat.extend_from_slice(&p.1[1..]);
    }
    let got: Vec<F> = poly.ps.iter().map(|p| (p.x, p.y)).collect();
    ensure!(got.len() == flat.len(), "the polyline has {} points instead of {}: {}", got.len(), flat.len(), show());
    for (i, (x, y)) in got.iter().zip(&flat).enumerate() {
        ensure!(x == y, "point {} of the polyline is {:?} instead of {:?}: {}", i, x, y, show());
    }
    // the arc
    let big = a.max(b);
    let tol = if a >= b { 1e-5 } else { 1e-5 * big.max(1.0) };
    let round = 1e-9 * (big + 1000.0);
    let rel = |p: F| (p.0 - c.0, p.1 - c.1);
    // how far from the ellipse, to first order
    let off = |p: F| -> f64 {
        let (x, y) = rel(p);
        let g = (x * x) / (a * a) + (y * y) / (b * b) - 1.0;
        let (gx, gy) = (2.0 * x / (a * a), 2.0 * y / (b * b));
        g.abs() / (gx * gx + gy * gy).sqrt().max(1e-12)
    };
    let at = |l: f64| -> F {
        let r = 1.0 / ((l.cos() / a).powi(2) + (l.sin() / b).powi(2)).sqrt();
        (c.0 + r * l.cos(), c.1 + r * l.sin())
    };
    let near = |p: F, q: F| (p.0 - q.0).abs() <= round && (p.1 - q.1).abs() <= round;
    let arc = &pieces[1..n - 1];
    let p0 = arc[0].1[0];
    let p1 = arc[arc.len() - 1].1[3];
    ensure!(near(p0, at(start)), "the arc starts at {:?} instead of {:?}: {}", p0, at(start), show());
    ensure!(near(p1, at(end)), "the arc ends at {:?} instead of {:?}: {}", p1, at(end), show());
    let steps = ctx.by_scale(8, 16, 48);
    let mut swept = 0.0;
    let mut last = rel(p0);
    let mut worst: f64 = 0.0;
    for (_, q) in arc {
        ensure!(off(q[0]) <= round && off(q[3]) <= round, "joint {:?} or {:?} is off the ellipse: {}", q[0], q[3], show());
        for k in 1..=steps {
            let t = k as f64 / steps as f64;
            let u = 1.0 - t;
            let w = [u * u * u, 3.0 * u * u * t, 3.0 * u * t * t, t * t * t];
            let p = (0..4).fold((0.0, 0.0), |s, i| (s.0 + w[i] * q[i].0, s.1 + w[i] * q[i].1));
            let d = off(p);
            worst = worst.max(d / tol);
            ensure!(d <= tol + round, "the arc is {} off the ellipse at {:?}: {}", d, p, show());
            let r = rel(p);
            let da = (last.0 * r.1 - last.1 * r.0).atan2(last.0 * r.0 + last.1 * r.1);
            ensure!(da >= -1e-7, "the arc turns back at {:?}: {}", p, show());
            swept += da;
            last = r;
        }
    }
    ensure!((swept - want).abs() <= 1e-6, "the arc sweeps {} instead of {}: {}", swept, want, show());
    ctx.ev("arc pieces", arc.len() as u64);
    ctx.ev("points sampled", (arc.len() * steps) as u64);
    ctx.max("largest deviation, thousandths of the tolerance", (worst * 1000.0) as u64);
    ctx.max("most arc pieces", arc.len() as u64);
    ctx.nontrivial();
    Ok(())
}

fn main() {
    worker("M01", run)
}
