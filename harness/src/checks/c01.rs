//! C01: special functions against independent references.
use crate::core::*;
use polymers::math::*;

extern "C" { fn erf(x: f64) -> f64; fn erfc(x: f64) -> f64; }
pub fn ref_erf(x: f64) -> f64 { unsafe { erf(x) } }
pub fn ref_erfc(x: f64) -> f64 { unsafe { erfc(x) } }
/// exp(x^2) erfc(x) for x >= 0: libm product where it does not underflow, continued fraction beyond.
fn ref_erfcx(x: f64) -> f64 {
    if x < 2.0 { return (x * x).exp() * ref_erfc(x); }
    let mut f = x;
    let n = if x < 4.0 { 400 } else { 120 };
    for k in (1..=n).rev() { f = x + 0.5 * k as f64 / f; }
    1.0 / f / std::f64::consts::PI.sqrt()
}
/// exp(-|x|) I_nu(|x|) by its all-positive power series.
pub fn ref_bessel_scaled(nu: u32, x: f64) -> f64 {
    let x = x.abs();
    let h = 0.5 * x;
    let mut t = (-x).exp() * if nu == 0 { 1.0 } else { h };
    let mut s = 0.0;
    let mut k = 0.0;
    loop {
        s += t;
        k += 1.0;
        t *= h * h / (k * (k + nu as f64));
        if k > h && t <= 1e-18 * s { break; }
    }
    s
}
pub fn ref_lambert(x: f64) -> f64 {
    // bisection on w e^w = x, monotone for w > -1
    let (mut a, mut b) = (-1.0f64, if x < 1.0 { 1.0 } else { (x.ln() + 1.0).max(1.0) });
    for _ in 0..300 { let m = 0.5 * (a + b); if m * m.exp() < x { a = m } else { b = m } }
    0.5 * (a + b)
}
pub fn ref_langevin(x: f64) -> f64 {
    if x.abs() < 0.15 {
        let y = x * x;
        x * (1.0 / 3.0 + y * (-1.0 / 45.0 + y * (2.0 / 945.0 + y * (-1.0 / 4725.0 + y * (2.0 / 93555.0 + y * (-1382.0 / 638512875.0 + y * 4.0 / 18243225.0))))))
    } else { 1.0 / x.tanh() - 1.0 / x }
}
pub fn ref_inverse_langevin(y: f64) -> f64 {
    if y < 1e-7 { return 3.0 * y; }
    let (mut a, mut b) = (0.0f64, 1.0 / (1.0 - y) + 1.0);
    for _ in 0..400 { let m = 0.5 * (a + b); if ref_langevin(m) < y { a = m } else { b = m } if b - a <= 1e-16 * b { break } }
    0.5 * (a + b)
}

pub fn run(c: &mut Ctx) {
    c.rule = "Arguments of erf, erfc, erfcx (every one of the hundred polynomial pieces and both tails), lambert_w, bessel_i (order 0 and 1, both signs, all three pieces) and inverse_langevin, on a grid that enters every piece and at seeded random points; each value compared with an independent reference (libm, continued fraction, positive power series, bisection). Non-trivial: finite non-zero expectation.".into();
    c.assumptions = vec!["libm erf and erfc are accurate to a few ulp".into()];
    let mut r = c.rng("points");
    // error functions: piece z = 400/(4+x) in (0,100]
    let per = c.budget(240, 3000);
    let mut pieces = std::collections::BTreeSet::new();
    let mut xs = vec![0.0, 1e-300, 1e-16, 1e-8, 50.0, 49.999999, 50.000001, 5e7, 5.1e7, 1e9, 1e100];
    for p in 0..100u32 {
        for i in 0..per {
            let z = p as f64 + if i % 3 == 0 { (i as f64 + 0.5) / per as f64 } else { r.unit() };
            if z <= 0.0 { continue }
            let x = 400.0 / z - 4.0;
            if x < 0.0 || x > 1e6 { continue }
            pieces.insert(z as u32);
            xs.push(x);
        }
        // both edges of the piece
        if p > 0 { let x = 400.0 / p as f64 - 4.0; for d in [-1e-9, -1e-13, 0.0, 1e-13, 1e-9] { if x + d >= 0.0 { xs.push(x + d); } } }
    }
    for _ in 0..c.budget(12000, 200000) { xs.push(r.uniform(0.0, 8.0)); xs.push(r.log_uniform(1e-6, 60.0)); }
    c.note(format!("erfcx polynomial pieces entered: {}", pieces.len()));
    for x in xs {
        let e = ref_erfcx(x);
        c.close("erfcx(x>=0)", call(|| erfcx(&x)), e, 2e-13 * e + 1e-300, || format!("x={x:?}"));
        let e = ref_erf(x);
        c.close("erf(x)", call(|| polymers::math::erf(&x)), e, 4e-15 + 4e-15 * e, || format!("x={x:?}"));
        c.close("erf(-x)", call(|| polymers::math::erf(&-x)), -e, 4e-15 + 4e-15 * e, || format!("x={x:?}"));
        let e = ref_erfc(x);
        if x < 26.0 { c.close("erfc(x)", call(|| polymers::math::erfc(&x)), e, 4e-13 * (1.0 + x * x) * e + 1e-306, || format!("x={x:?}")); }
        else { c.close("erfc(x) beyond underflow", call(|| polymers::math::erfc(&x)), e, 1e-290, || format!("x={x:?}")); }
        c.close("erfc(-x)", call(|| polymers::math::erfc(&-x)), 2.0 - e, 8e-15, || format!("x={x:?}"));
        if x < 26.6 { let e = 2.0 * (x * x).exp() - ref_erfcx(x); c.close("erfcx(-x)", call(|| erfcx(&-x)), e, 1e-12 * e, || format!("x={x:?}")); }
    }
    // Lambert W: w e^w = x.  Near the branch point -1/e the residual is what is bounded.
    for i in 0..c.budget(24000, 300000) {
        let x = match i % 6 {
            0 => r.log_uniform(1e-12, 1.0), 1 => r.log_uniform(1.0, 1e6), 2 => r.log_uniform(1e6, 1e60),
            3 => -r.log_uniform(1e-12, 0.3), 4 => -(-1f64).exp() * (1.0 - r.log_uniform(2e-4, 0.5)), _ => r.uniform(-0.36, 20.0) };
        let w = call(|| lambert_w(&x));
        let e = ref_lambert(x);
        c.close(if x > 0.0 { "lambert_w(x>0)" } else { "lambert_w(-1/e<x<0)" }, w, e, e.abs().max(1e-12) * if x < -0.367 { 2e-3 } else if x < -0.365 { 1e-6 } else if x < -0.355 { 1e-10 } else if x < 1e9 { 2e-12 } else { 1e-8 }, || format!("x={x:?}"));
    }
    // Bessel
    let mut bx = vec![0.0, 7.75, 7.749999999, 7.750000001, 500.0, 499.999999, 500.000001, 1e-300, 1e-9, 700.0];
    for _ in 0..c.budget(24000, 200000) { bx.push(r.uniform(0.0, 7.75)); bx.push(r.uniform(7.75, 30.0)); bx.push(r.log_uniform(1e-5, 690.0)); }
    for x in bx {
        let tag = if x < 7.75 { "small" } else if x < 500.0 { "middle" } else { "large" };
        for nu in [0u8, 1] {
            let e = ref_bessel_scaled(nu as u32, x);
            let v = call(|| bessel_i(&nu, &x)) * (-0.5 * x).exp() * (-0.5 * x).exp();
            c.close(&format!("bessel_i({nu},x) {tag}"), v, e, 2e-12 * e + 1e-305, || format!("x={x:?} (scaled by exp(-|x|))"));
            let v = call(|| bessel_i(&nu, &-x)) * (-0.5 * x).exp() * (-0.5 * x).exp();
            let e = if nu == 0 { e } else { -e };
            c.close(&format!("bessel_i({nu},-x) {tag}"), v, e, 2e-12 * e.abs() + 1e-305, || format!("x={x:?} (scaled by exp(-|x|))"));
        }
    }
    // inverse Langevin
    for i in 0..c.budget(32000, 400000) {
        let y = match i % 5 { 0 => r.log_uniform(1e-9, 1e-3), 1 => r.uniform(1e-3, 0.1), 2 => r.uniform(0.0, 1.0), 3 => 1.0 - r.log_uniform(1e-4, 0.1), _ => 0.01 * r.int(1, 99) as f64 };
        if y <= 0.0 || y >= 1.0 { continue }
        let x = call(|| inverse_langevin(&y));
        // y is recovered; the conditioning of L near 1 is (1-y) * x = 1
        c.close("L(inverse_langevin(y)) = y", ref_langevin(x), y, if y <= 1e-3 { 2e-6 * y } else { (1e-9 + 4e-12 * x * x) * y * (1.0 - y) + 1e-15 }, || format!("y={y:?} x={x:?}"));
        c.close("inverse_langevin(y)", x, ref_inverse_langevin(y), if y <= 1e-3 { 2e-6 * x } else { (1e-9 + 4e-12 * x * x) * x.abs() }, || format!("y={y:?}"));
    }
}
