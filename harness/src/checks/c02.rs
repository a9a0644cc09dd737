//! C02: root finding and quadrature, with the callbacks instrumented.
use crate::core::*;
use polymers::math::*;
use std::cell::RefCell;

type F = fn(f64, f64) -> f64;
pub fn run(c: &mut Ctx) {
    c.rule = "Root finding: seeded monotone functions and targets, callbacks recorded; the answer must satisfy the equation to the requested tolerance, the iteration budget must be honoured, the guess must be where the search starts. Quadrature: seeded smooth integrands, intervals (both orientations of sign) and point counts; the value must agree with the exact integral to the midpoint error bound, be linear, and sample only points inside the domain. Non-trivial: finite non-zero expectation.".into();
    let mut r = c.rng("roots");
    // (name, f(x; a), f'(x; a), guess range, x range)
    let fam: [(&str, F, F, f64, f64); 5] = [
        ("a x", |x, a| a * x, |_, a| a, -30.0, 30.0),
        ("x^3 + a x", |x, a| x * x * x + a * x, |x, a| 3.0 * x * x + a, 0.2, 4.0),
        ("exp(a x)", |x, a| (0.3 * a * x).exp(), |x, a| 0.3 * a * (0.3 * a * x).exp(), -1.5, 1.5),
        ("x - 1/(a+x)", |x, a| x - 1.0 / (a + x), |x, a| 1.0 + 1.0 / ((a + x) * (a + x)), 0.5, 6.0),
        ("sinh(x)/a", |x, a| x.sinh() / a, |x, a| x.cosh() / a, 0.3, 3.0)];
    for _ in 0..c.budget(16000, 200000) {
        let k = r.int(0, 4) as usize;
        let (name, f, fp, lo, hi) = fam[k];
        let a = r.uniform(0.5, 3.0);
        let x0 = r.uniform(lo, hi);
        let y = f(x0, a);
        if y.abs() < 1e-3 { continue }
        let guess = x0 + r.uniform(-0.2, 0.2) * x0.abs().max(0.3);
        let tol = *r.pick(&[1e-4, 1e-6, 1e-9, 1e-2]);
        let max: u8 = *r.pick(&[100u8, 100, 50, 3, 1, 2, 0, 255]);
        let log = RefCell::new(Vec::<f64>::new());
        let dlog = RefCell::new(0usize);
        let ff = |x: &f64| { log.borrow_mut().push(*x); f(*x, a) };
        let gg = |x: &f64| { *dlog.borrow_mut() += 1; fp(*x, a) };
        let powered = r.coin();
        let power = if powered { *r.pick(&[1, 2, 3]) } else { 1 };
        let x = call(|| if powered { inverse_newton_raphson_powered(&y, &ff, &gg, &guess, &tol, &max, power) } else { inverse_newton_raphson(&y, &ff, &gg, &guess, &tol, &max) });
        let calls = log.borrow().clone();
        let case = || format!("f={name} a={a:?} y={y:?} guess={guess:?} tol={tol:e} max_iters={max} power={power} x={x:?} evaluations={}", calls.len());
        let cls = if powered { format!("newton powered {power}") } else { "newton".to_string() };
        c.decide(&format!("{cls}: iteration budget"), *dlog.borrow() <= 2 * max as usize + 2, max > 0, case);
        if max == 0 { c.decide(&format!("{cls}: no iterations returns the guess"), x == guess, true, case); }
        else { c.decide(&format!("{cls}: starts at the guess"), calls.contains(&guess), true, case); }
        if max >= 50 {
            let res = ((f(x, a) - y) / y).abs();
            c.decide(&format!("{cls}: answer within tolerance"), res <= tol * (1.0 + 1e-9) + 1e-13, true, || format!("{} residual={res:e}", case()));
        } else if max > 0 && calls.len() == max as usize && !powered {
            let l = *calls.last().unwrap();
            c.close(&format!("{cls}: one Newton step from the last point"), x, l + (y - f(l, a)) / fp(l, a), 1e-12 * (1.0 + x.abs()), case);
        }
    }
    // 1D quadrature
    let mut r = c.rng("quadrature");
    for _ in 0..c.budget(12000, 100000) {
        let lo = r.uniform(-4.0, 4.0);
        let w = r.log_uniform(1e-2, 5.0) * if r.int(0, 9) == 0 { -1.0 } else { 1.0 };
        let hi = lo + w;
        let n = match r.int(0, 19) { 0 => r.log_uniform(300.0, 80000.0) as u128, 1..=5 => r.int(1, 600) as u128, _ => *r.pick(&[1u128, 2, 3, 5, 8, 16, 33, 64, 100, 257]) };
        let (p0, p1, p2, q, s) = (r.uniform(-2.0, 2.0), r.uniform(-2.0, 2.0), r.uniform(-2.0, 2.0), r.uniform(0.2, 2.0), r.uniform(-1.0, 1.0));
        let f = |x: f64| p0 + p1 * x + p2 * x * x + s * (q * x).sin();
        let ex = |x: f64| p0 * x + 0.5 * p1 * x * x + p2 * x * x * x / 3.0 - s * (q * x).cos() / q;
        let exact = ex(hi) - ex(lo);
        let f2 = 2.0 * p2.abs() + s.abs() * q * q;
        let h = w.abs() / n as f64;
        let log = RefCell::new(Vec::<f64>::new());
        let v = call(|| integrate_1d(&|x: &f64| { log.borrow_mut().push(*x); f(*x) }, &lo, &hi, &n));
        let scale = (p0.abs() + p1.abs() * 9.0 + p2.abs() * 81.0 + 1.0) * w.abs();
        let case = || format!("[{lo:?},{hi:?}] n={n} p={p0:?},{p1:?},{p2:?} s={s:?} q={q:?}");
        c.close("integrate_1d: midpoint error bound", v, exact, f2 * w.abs() * h * h / 24.0 * (1.0 + 1e-9) + 1e-13 * scale, case);
        let pts = log.into_inner();
        c.decide("integrate_1d: as many points as asked for, inside the interval", { let mut u = pts.clone(); u.sort_by(|a, b| a.partial_cmp(b).unwrap()); u.dedup(); u.len() == n as usize } && pts.iter().all(|x| *x > lo.min(hi) - 1e-12 && *x < lo.max(hi) + 1e-12), true, || format!("{} evaluations={}", case(), pts.len()));
        let line = |x: &f64| p0 + p1 * x;
        let e = p0 * w + 0.5 * p1 * (hi * hi - lo * lo);
        c.close("integrate_1d: exact on straight lines", call(|| integrate_1d(&line, &lo, &hi, &n)), e, 1e-13 * scale, case);
        let quad = |x: &f64| p2 * x * x;
        let e = p2 * (hi.powi(3) - lo.powi(3)) / 3.0 - p2 * w * h * h / 12.0;
        c.close("integrate_1d: exact midpoint value on parabolas", call(|| integrate_1d(&quad, &lo, &hi, &n)), e, 1e-13 * scale, case);
        // grid version
        let dx = w / n as f64;
        let grid: Vec<f64> = (0..n).map(|i| lo + (i as f64 + 0.5) * dx).collect();
        c.close("integrate_1d_grid agrees with integrate_1d", call(|| integrate_1d_grid(&|x: &f64| f(*x), &grid, &dx)), v, 1e-12 * scale, case);
        let irregular: Vec<f64> = (0..r.int(0, 20)).map(|_| r.uniform(-3.0, 3.0)).collect();
        let e: f64 = irregular.iter().map(|x| f(*x)).sum::<f64>() * dx;
        c.close("integrate_1d_grid sums the given points", call(|| integrate_1d_grid(&|x: &f64| f(*x), &irregular, &dx)), e, 1e-12 * (scale + e.abs()) * 20.0, case);
    }
    // 2D quadrature
    for _ in 0..c.budget(1600, 10000) {
        let (x0, y0) = (r.uniform(-3.0, 3.0), r.uniform(-3.0, 3.0));
        let (wx, wy) = (r.uniform(0.1, 4.0), r.uniform(0.1, 4.0));
        let n = match r.int(0, 49) { 0 => r.int(60, 300) as u128, 1..=9 => r.int(1, 40) as u128, _ => *r.pick(&[1u128, 2, 3, 7, 16, 31]) };
        let (a, b, d) = (r.uniform(-2.0, 2.0), r.uniform(-2.0, 2.0), r.uniform(-2.0, 2.0));
        let f = |x: f64, y: f64| a + b * x + d * x * y * y;
        let nf = n as f64;
        let mom = |x0: f64, w: f64, k: i32| ((x0 + w).powi(k + 1) - x0.powi(k + 1)) / (k as f64 + 1.0);
        let my2 = mom(y0, wy, 2) - wy.powi(3) / nf / nf / 12.0;
        let exact = a * wx * wy + b * mom(x0, wx, 1) * wy + d * mom(x0, wx, 1) * my2;
        let scale = 400.0 * (a.abs() + b.abs() + d.abs());
        let case = || format!("x0={x0:?} wx={wx:?} y0={y0:?} wy={wy:?} n={n} a={a:?} b={b:?} d={d:?}");
        let log = RefCell::new((0usize, true));
        let v = call(|| integrate_2d(&|x: &f64, y: &f64| { let mut l = log.borrow_mut(); l.0 += 1; l.1 &= *x > x0 && *x < x0 + wx && *y > y0 && *y < y0 + wy; f(*x, *y) }, &x0, &(x0 + wx), &y0, &(y0 + wy), n));
        c.close("integrate_2d: exact midpoint value", v, exact, 1e-13 * scale, case);
        let l = log.into_inner();
        c.decide("integrate_2d: evaluates inside the rectangle", l.0 >= (n * n) as usize && l.1, true, case);
        let gx: Vec<f64> = (0..n).map(|i| x0 + (i as f64 + 0.5) * wx / nf).collect();
        let gy: Vec<f64> = (0..n).map(|i| y0 + (i as f64 + 0.5) * wy / nf).collect();
        let da = wx * wy / nf / nf;
        c.close("integrate_2d_grid agrees", call(|| integrate_2d_grid(&|x: &f64, y: &f64| f(*x, *y), &gx, &gy, &da)), exact, 1e-13 * scale, case);
        // unequal grids
        let gz: Vec<f64> = gy.iter().take((n as usize + 1) / 2).copied().collect();
        let e: f64 = gx.iter().map(|x| gz.iter().map(|y| f(*x, *y)).sum::<f64>()).sum::<f64>() * da;
        c.close("integrate_2d_grid: grids of unequal size, x outermost", call(|| integrate_2d_grid(&|x: &f64, y: &f64| f(*x, *y), &gx, &gz, &da)), e, 1e-13 * scale, case);
        let my2 = mom(x0, wx, 2) - wx.powi(3) / nf / nf / 12.0;
        let exact = a * wx * wx + b * mom(x0, wx, 1) * wx + d * mom(x0, wx, 1) * my2;
        c.close("integrate_2d_symmetric: exact midpoint value", call(|| integrate_2d_symmetric(&|x: &f64, y: &f64| f(*x, *y), &x0, &(x0 + wx), n)), exact, 1e-13 * scale, case);
        let da = wx * wx / nf / nf;
        c.close("integrate_2d_symmetric_grid agrees", call(|| integrate_2d_symmetric_grid(&|x: &f64, y: &f64| f(*x, *y), &gx, &da)), exact, 1e-13 * scale, case);
    }
}
