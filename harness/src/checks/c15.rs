//! C15: hyperelastic network stress.
use crate::core::*;
use crate::refs::*;
use polymers::constitutive::hyperelastic::BucheSilberstein;
use std::f64::consts::PI;
pub const GRID: usize = 256;
/// Force and relative free energy per link of the reduced EFJC: gamma = L(eta) + eta/kappa.
pub fn efjc_reduced(k: f64, g: f64) -> (f64, f64) {
    let f = |e: f64| crate::domain::langevin(e) + e / k;
    let (mut a, mut b) = (0.0, k * g);
    let mut e = if g < 0.9 { 3.0 * g * k / (k + 3.0) } else { (k * (g - 1.0)).max(2.0) };
    for _ in 0..200 {
        let y = f(e) - g;
        if y > 0.0 { b = e } else { a = e }
        let d = 1.0 / k + if e < 0.05 { 1.0 / 3.0 - e * e / 15.0 } else if e > 300.0 { 1.0 / e / e } else { 1.0 / e / e - 1.0 / e.sinh().powi(2) };
        let mut n = e - y / d;
        if !(n > a && n < b) { n = 0.5 * (a + b) }
        if (n - e).abs() <= 1e-15 * e { e = n; break }
        e = n;
    }
    (e, e * g - ln_sinhc(e) - 0.5 * e * e / k)
}
pub fn gaussian_factor(k: f64, n: f64) -> f64 { 1.5 * n * k * (k + 1.0) / (k * k + 6.0 * k + 3.0) }
/// -ln of the equilibrium distribution, unnormalized.
fn weight(method: u8, k: f64, n: f64, g: f64) -> f64 { if method == 3 { gaussian_factor(k, n) * g * g } else { n * efjc_reduced(k, g.max(1e-12)).1 } }
/// What the documented integrals give on the documented grid, per stretch: (stress, sum of magnitudes).
struct Reference { method: u8, k: f64, n: f64, grid: Vec<f64>, element: Vec<f64>, norm: f64 }
impl Reference {
    fn new(method: u8, k: f64, n: u8) -> Reference {
        let n = n as f64;
        let w: Vec<f64> = (0..GRID).map(|i| (i + 1) as f64 / (GRID as f64 + 1.0)).collect();
        let grid: Vec<f64> = w.iter().map(|w| w.atanh()).collect();
        let dw = 1.0 / (GRID as f64 + 1.0);
        let mut element = vec![0.0; GRID * GRID];
        for i in 0..GRID { for j in 0..GRID {
            let (z, r) = (grid[i], grid[j]);
            let g = z.hypot(r);
            element[i * GRID + j] = efjc_reduced(k, g).0 / g * (2.0 * z * z - r * r) * 2.0 * PI * n * r * dw * dw / (1.0 - w[i] * w[i]) / (1.0 - w[j] * w[j]);
        }}
        let norm = (0..GRID).map(|i| grid[i] * grid[i] / (1.0 - w[i] * w[i]) * (-weight(method, k, n, grid[i])).exp()).sum::<f64>() * 4.0 * PI * dw;
        Reference { method, k, n, grid, element, norm }
    }
    fn stress(&self, zs: f64, rs: f64) -> (f64, f64) {
        let (mut s, mut a) = (0.0, 0.0);
        for i in 0..GRID { for j in 0..GRID {
            let g = (self.grid[i] * zs).hypot(self.grid[j] * rs);
            let x = weight(self.method, self.k, self.n, g);
            if x > 690.0 { continue }
            let t = self.element[i * GRID + j] * (-x).exp();
            s += t; a += t.abs();
        }}
        (s / self.norm, a / self.norm)
    }
}
/// The same integrals by Gauss-Legendre in polar coordinates of the undeformed chain vector: the deformed one is (z s, r / sqrt s).
fn fine(method: u8, k: f64, n: f64, s: f64) -> f64 {
    let width = 1.0 / (2.0 * gaussian_factor(k, n)).sqrt();
    let top = (9.0 * width).min(3.0);
    let rule = gauss(20);
    let (mut num, mut den) = (0.0, 0.0);
    let panels = 12;
    for q in 0..panels { for (x, wx) in &rule {
        let h = top / panels as f64;
        let g0 = (q as f64 + 0.5 + 0.5 * x) * h;
        let p = (-weight(method, k, n, g0)).exp() * g0 * g0 * wx * 0.5 * h * 4.0 * PI;
        den += p;
        // average over directions, by halves of the cosine
        let mut av = 0.0;
        for half in 0..2 { for (y, wy) in &rule {
            let c = 0.5 * (half as f64) + 0.25 * (1.0 + y);
            let z = g0 * c * s; let r = g0 * (1.0 - c * c).sqrt() / s.sqrt();
            let g = z.hypot(r);
            av += 0.25 * wy * efjc_reduced(k, g).0 / g * (z * z - 0.5 * r * r);
        }}
        num += p * av;
    }}
    n * num / den
}
pub fn run(c: &mut Ctx) {
    c.rule = "Networks of seeded chain length and link stiffness, both implemented methods: stress in uniaxial and equibiaxial tension against the documented integrals, evaluated by the monitor on the documented grid and by its own Gauss-Legendre in polar coordinates; equibiaxial stretch is uniaxial compression of minus the stress; no stress at rest, more stress at more stretch, the small-strain ratio of the two modes is two, Gaussian networks of long stiff chains are neo-Hookean; finite everywhere; the same object answers the same twice. Non-trivial: finite and not zero.".into();
    c.assumptions.push("the library's 256 by 256 grid is part of its documented behaviour: the direct comparison uses the same grid".into());
    let (budget, seed) = (c.budget(26, 400), c.seed);
    c.parallel(budget, |i, c| {
        let mut r = Rng::new(seed, &format!("C15/{i}"));
        let method = if i % 2 == 0 { 2u8 } else { 3 };
        let n = if r.int(0, 3) == 0 { *r.pick(&[2u8, 5, 8, 10, 25, 100, 255]) } else { r.int(3, 120) as u8 };
        let k = if r.int(0, 3) == 0 { *r.pick(&[5.0, 50.0, 200.0, 1000.0]) } else { r.log_uniform(4.0, 6000.0) };
        let Ok(b) = guard(|| Box::new(BucheSilberstein::init(method, k, n))) else { c.decide("construction", false, true, || format!("method={method} stiffness={k:?} links={n}")); return };
        let show = |s: f64| format!("method={method} stiffness={k:?} links={n} stretch={s:?}");
        let uni = |s: f64| call(|| b.uniaxial_tension(&s));
        let bi = |s: f64| call(|| b.equibiaxial_tension(&s));
        let q = Reference::new(method, k, n);
        let nn = n as f64;
        c.decide(&format!("method {method}: remembers its links"), b.number_of_links == n && b.nondimensional_link_stiffness == k, true, || show(0.0));
        for t in 0..3 {
            let s = if t == 0 { *r.pick(&[1.0, 1.5, 2.0, 3.0, 4.0]) } else if t == 1 { r.uniform(1.0, 4.0) } else { r.log_uniform(0.35, 1.0) };
            let (x, a) = q.stress(1.0 / s, s.sqrt());
            let y = uni(s);
            c.close(&format!("method {method}: uniaxial stress, documented grid"), y, x, 1e-8 * a + 1e-12, || show(s));
            let f = fine(method, k, nn, s);
            // the grid's own error
            c.close(&format!("method {method}: uniaxial stress, polar quadrature"), y, f, 1.5 * (x - f).abs() + 1e-5 * a + 1e-6, || show(s));
            // where the grid resolves the chains, the two references agree as well
            if s >= 1.0 && s <= 2.0 && n < 60 && k < 100.0 && k > 20.0 && n > 4 { c.close("reference against reference", x, f, 0.06 * a + 1e-3, || show(s)); }
            let e = r.log_uniform(0.6, 2.2);
            let (x, a) = q.stress(e * e, 1.0 / e);
            let y = bi(e);
            c.close(&format!("method {method}: equibiaxial stress, documented grid"), y, -x, 1e-8 * a + 1e-12, || show(e));
            c.close(&format!("method {method}: equibiaxial stretch is uniaxial compression"), y, -uni(1.0 / e / e), 1e-9 * a, || show(e));
            c.decide(&format!("method {method}: repeatable"), uni(s).to_bits() == uni(s).to_bits(), true, || show(s));
        }
        // next to rest, where the response is linear and small
        for t in 0..2 {
            let d = r.log_uniform(1e-6, 0.03) * if t == 0 { 1.0 } else { -1.0 };
            let (x, a) = q.stress(1.0 / (1.0 + d), (1.0f64 + d).sqrt());
            c.close(&format!("method {method}: uniaxial stress next to rest"), uni(1.0 + d), x, 1e-8 * a * d.abs() + 1e-11 * a, || show(1.0 + d));
            let (x, a) = q.stress((1.0 + d) * (1.0 + d), 1.0 / (1.0 + d));
            c.close(&format!("method {method}: equibiaxial stress next to rest"), bi(1.0 + d), -x, 1e-8 * a * d.abs() + 1e-11 * a, || show(1.0 + d));
        }
        // no stress at rest, up to the grid's error
        let grid_error = |s: f64| (q.stress(1.0 / s, s.sqrt()).0 - fine(method, k, nn, s)).abs();
        let rest = uni(1.0);
        c.close(&format!("method {method}: no stress at rest"), rest, 0.0, 0.02 + 5e-4 * nn + 1.5 * grid_error(1.0), || show(1.0));
        // small strains
        let h = 0.02;
        let (mu, mb) = ((uni(1.0 + h) - uni(1.0 - h)) / (2.0 * h), (bi(1.0 + h) - bi(1.0 - h)) / (2.0 * h));
        c.close(&format!("method {method}: equibiaxial modulus is twice the uniaxial"), mb, 2.0 * mu, 0.03 * mb.abs(), || show(1.0));
        c.decide(&format!("method {method}: positive modulus"), mu > 0.0, true, || format!("{} modulus={mu:?}", show(1.0)));
        // rising
        let mut last = (0.0, f64::NEG_INFINITY, f64::NEG_INFINITY);
        for j in 0..7 {
            let s = 0.6 + 0.4 * (j as f64) + r.uniform(0.0, 0.3);
            let e = 0.75 + 0.2 * (j as f64) + r.uniform(0.0, 0.15);
            let (u, v) = (uni(s), bi(e));
            c.decide(&format!("method {method}: uniaxial stress rises"), u > last.1 && u.is_finite(), true, || format!("{} previous {last:?} now {u:?}", show(s)));
            c.decide(&format!("method {method}: equibiaxial stress rises"), v > last.2 && v.is_finite(), true, || format!("{} previous {last:?} now {v:?}", show(e)));
            last = (s, u, v);
        }
        if method == 3 && n >= 40 && k > 300.0 {
            let s = r.uniform(1.2, 2.0);
            c.close("method 3: neo-Hookean for long stiff chains", uni(s), s * s - 1.0 / s, 0.03 * s * s + 6.0 / nn * (s * s) + 6.0 / k + 1.5 * grid_error(s), || show(s));
            let e = r.uniform(1.1, 1.5);
            c.close("method 3: neo-Hookean in equibiaxial tension", bi(e), e * e - e.powi(-4), 0.03 * e * e + 6.0 / nn * e * e + 6.0 / k + 1.5 * grid_error(1.0 / e / e), || show(e));
        }
    });
    for m in [0u8, 1, 4, 255] {
        let o = guard(|| { let b = Box::new(BucheSilberstein::init(m, 50.0, 8)); b.uniaxial_tension(&1.5) });
        c.decide("unimplemented methods are refused", o.is_err(), true, || format!("method={m}: {o:?}"));
    }
}
