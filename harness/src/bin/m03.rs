//! Colour conversions.

use trellis::common::colxlate::verif_hooks::{hsv2rgb, rgb2cmyk, rgb2hsv};
use vh::{ensure, must, worker, Ctx, Res, Src};

fn comp(s: &mut Src) -> f64 {
    match s.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => s.range(0, 255) as f64 / 255.0,
        3 => s.range(0, 8) as f64 / 8.0,
        4 => s.real(0.0, 1e-9),
        _ => s.unit(),
    }
}

fn within(x: f64) -> bool {
    (-1e-12..=1.0 + 1e-12).contains(&x)
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = comp(s);
    let mut rgb = [c, if s.chance(1, 5) { c } else { comp(s) }, if s.chance(1, 5) { c } else { comp(s) }];
    s.shuffle(&mut rgb);
    let [r, g, b] = rgb;
    let hue = match s.below(4) {
        0 => s.range(0, 6) as f64 / 6.0,
        1 => f64::from_bits(((s.range(1, 6) as f64 / 6.0).to_bits() as i64 + s.range(-2, 0)) as u64),
        2 => s.range(0, 360) as f64 / 360.0,
        _ => s.unit(),
    };
    let (sat, val) = (comp(s), comp(s));
    for x in [r, g, b, hue, sat, val] {
        ctx.fp(x.to_bits());
    }
    ctx.sample(|| format!("rgb {:?}, hsv ({:?}, {:?}, {:?})", rgb, hue, sat, val));

    let max = r.max(g).max(b);
    let min = r.min(g).min(b);
    let (h, st, v) = must("rgb2hsv", || rgb2hsv(r, g, b))?;
    ensure!(within(h) && within(st) && within(v), "rgb2hsv{:?} is {:?}", rgb, (h, st, v));
    ensure!(v == max, "the value of {:?} is {:?}", rgb, v);
    if max == min {
        ensure!(st == 0.0, "the grey {:?} has saturation {:?}", rgb, st);
        ctx.ev("greys", 1);
    } else {
        ensure!((st - (max - min) / max).abs() < 1e-9, "the saturation of {:?} is {:?}", rgb, st);
        // the hue names the sector of the greatest component
        let d = max - min;
        let want = if r == max {
            ((g - b) / d).rem_euclid(6.0)
        } else if g == max {
            2.0 + (b - r) / d
        } else {
            4.0 + (r - g) / d
        } / 6.0;
        let gap = (h - want).abs();
        let gap = gap.min((1.0 - gap).abs());
        ensure!(gap < 1e-9, "the hue of {:?} is {:?} instead of {:?}", rgb, h, want);
    }
    let (r2, g2, b2) = must("hsv2rgb", || hsv2rgb(h, st, v))?;
    ensure!(
        (r2 - r).abs() < 1e-9 && (g2 - g).abs() < 1e-9 && (b2 - b).abs() < 1e-9,
        "{:?} comes back as {:?} over {:?}",
        rgb,
        (r2, g2, b2),
        (h, st, v)
    );

    // the other direction
    let (x, y, z) = must("hsv2rgb", || hsv2rgb(hue, sat, val))?;
    ensure!(within(x) && within(y) && within(z), "hsv2rgb({:?}, {:?}, {:?}) is {:?}", hue, sat, val, (x, y, z));
    let top = x.max(y).max(z);
    let low = x.min(y).min(z);
    ensure!((top - val).abs() < 1e-12, "hsv2rgb({:?}, {:?}, {:?}) is {:?}", hue, sat, val, (x, y, z));
    ensure!(
        (low - val * (1.0 - sat)).abs() < 1e-12,
        "hsv2rgb({:?}, {:?}, {:?}) is {:?}",
        hue,
        sat,
        val,
        (x, y, z)
    );
    // each primary rises and falls linearly around its place on the circle
    for (k, got) in [x, y, z].into_iter().enumerate() {
        let at = (hue * 6.0 - 2.0 * k as f64).rem_euclid(6.0);
        let away = at.min(6.0 - at); // 0 at the primary, 3 opposite
        let share = (2.0 - away).clamp(0.0, 1.0);
        let want = val * (1.0 - sat + sat * share);
        ensure!(
            (got - want).abs() < 1e-9,
            "component {} of hsv2rgb({:?}, {:?}, {:?}) is {:?} instead of {:?}",
            k,
            hue,
            sat,
            val,
            got,
            want
        );
    }
    if sat > 1e-3 && val > 1e-3 {
        let (h3, s3, v3) = must("rgb2hsv", || rgb2hsv(x, y, z))?;
        let gap = (h3 - hue).abs();
        let gap = gap.min((1.0 - gap).abs());
        ensure!(
            gap < 1e-9 && (s3 - sat).abs() < 1e-9 && (v3 - val).abs() < 1e-9,
            "({:?}, {:?}, {:?}) comes back as {:?}",
            hue,
            sat,
            val,
            (h3, s3, v3)
        );
        ctx.ev("round trips from the hue circle", 1);
    }
    ctx.ev("round trips from primaries", 1);

    let (c, m, ye, k) = must("rgb2cmyk", || rgb2cmyk(r, g, b))?;
    ensure!(within(c) && within(m) && within(ye) && within(k), "rgb2cmyk{:?} is {:?}", rgb, (c, m, ye, k));
    ensure!(c.min(m).min(ye).abs() < 1e-12, "rgb2cmyk{:?} is {:?}: no colour is zero", rgb, (c, m, ye, k));
    for (a, p) in [(c, r), (m, g), (ye, b)] {
        ensure!((a + k + p - 1.0).abs() < 1e-12, "rgb2cmyk{:?} is {:?}", rgb, (c, m, ye, k));
    }
    ctx.nontrivial();
    Ok(())
}

fn main() {
    worker("M03", run)
}
