//! Independent references: quadrature of the partition functions, closed forms, double-double Treloar sums, Becker's WLC distribution.
use crate::checks::c01::{ref_bessel_scaled, ref_inverse_langevin};
use crate::domain::*;
use crate::params::*;
use std::f64::consts::PI;

/// Gauss-Legendre nodes on [-1, 1].
pub fn gauss(n: usize) -> Vec<(f64, f64)> {
    (0..n).map(|i| {
        let mut x = (PI * (i as f64 + 0.75) / (n as f64 + 0.5)).cos();
        let mut d = 1.0;
        for _ in 0..60 {
            let (mut a, mut b) = (1.0, x);
            for k in 2..=n { let t = ((2 * k - 1) as f64 * x * b - (k - 1) as f64 * a) / k as f64; a = b; b = t; }
            d = n as f64 * (x * b - a) / (x * x - 1.0);
            let s = b / d;
            x -= s;
            if s.abs() < 1e-16 { break }
        }
        (x, 2.0 / ((1.0 - x * x) * d * d))
    }).collect()
}
thread_local! { static G20: Vec<(f64, f64)> = gauss(20); }
/// Composite 20-point Gauss-Legendre.
pub fn quad(f: impl Fn(f64) -> f64, a: f64, b: f64, panels: usize) -> f64 {
    G20.with(|g| { let h = (b - a) / panels as f64; (0..panels).map(|k| { let c = a + (k as f64 + 0.5) * h; g.iter().map(|(x, w)| w * f(c + 0.5 * h * x)).sum::<f64>() }).sum::<f64>() * 0.5 * h })
}
pub fn midpoint(f: impl Fn(f64) -> f64, a: f64, b: f64, n: usize) -> f64 { let h = (b - a) / n as f64; (0..n).map(|k| f(a + (k as f64 + 0.5) * h)).sum::<f64>() * h }
/// ln(sinh(x)/x)
pub fn ln_sinhc(x: f64) -> f64 { let x = x.abs(); if x < 1e-2 { let y = x * x; y / 6.0 - y * y / 180.0 + y * y * y / 2835.0 } else { x + (-(-2.0 * x).exp_m1()).ln() - (2.0 * x).ln() } }
pub fn coth(x: f64) -> f64 { 1.0 / x.tanh() }
/// d/dx of x coth x
pub fn dxcoth(x: f64) -> f64 { if x < 1e-2 { 2.0 * x / 3.0 - 4.0 * x.powi(3) / 45.0 } else if x > 20.0 { 1.0 } else { coth(x) - x / x.sinh().powi(2) } }
/// x coth x
pub fn xcoth(x: f64) -> f64 { if x < 1e-4 { 1.0 + x * x / 3.0 } else { x * coth(x) } }

/// Potential energy of a link over kT, and where it can no longer hold.
pub fn link_potential(model: &str, p: &P) -> (Box<dyn Fn(f64) -> f64>, f64) {
    let (k, e) = (p.nondimensional_link_stiffness, p.nondimensional_link_energy);
    match model {
        "efjc" => (Box::new(move |s| 0.5 * k * (s - 1.0) * (s - 1.0)), f64::INFINITY),
        "ufjc/lennard_jones" => (Box::new(move |s: f64| k / 72.0 * (s.powi(-12) - 2.0 * s.powi(-6))), lj_lambda_max()),
        "ufjc/log_squared" => (Box::new(move |s: f64| 0.5 * k * s.ln().powi(2)), std::f64::consts::E),
        "ufjc/morse" => { let a = (k / 2.0 / e).sqrt(); (Box::new(move |s: f64| e * (1.0 - (-a * (s - 1.0)).exp()).powi(2)), 1.0 + 2f64.ln() / a) }
        _ => panic!(),
    }
}
pub struct Iso { pub gamma: f64, pub phi: f64, pub gamma_tol: f64, pub phi_tol: f64 }
/// ln of the one-link partition function and its derivative, by quadrature of s^2 sinh(eta s)/(eta s) exp(-u).
pub fn link_partition(model: &str, p: &P, eta: f64, rule: &dyn Fn(&dyn Fn(f64) -> f64, f64, f64) -> f64) -> (f64, f64) {
    if model == "swfjc" {
        let w = 1.0 + p.well_width / p.link_length;
        let f = |s: f64| 2.0 * s.ln() + ln_sinhc(eta * s);
        let top = f(w);
        let z = rule(&|s| (f(s) - top).exp(), 1.0, w);
        let d = rule(&|s| (f(s) - top).exp() * s * langevin(eta * s), 1.0, w);
        return (z.ln() + top, d / z);
    }
    let (u, smax) = link_potential(model, p);
    let (a, b) = if smax.is_finite() { (1e-6, smax) } else { let s = 1.0 / p.nondimensional_link_stiffness.sqrt(); ((1.0 - 14.0 * s).max(1e-9), 1.0 + eta / p.nondimensional_link_stiffness + 14.0 * s) };
    let f = |s: f64| 2.0 * s.ln() + ln_sinhc(eta * s) - u(s);
    let top = (0..400).map(|i| f(a + (b - a) * (i as f64 + 0.5) / 400.0)).fold(f64::NEG_INFINITY, f64::max);
    let z = rule(&|s| (f(s) - top).exp(), a, b);
    let d = rule(&|s| (f(s) - top).exp() * s * langevin(eta * s), a, b);
    (z.ln() + top, d / z)
}
/// Reference length per link and relative Gibbs free energy per link over kT (zero at zero load).
pub fn isotensional(module: &str, model: &str, p: &P) -> Option<Iso> {
    let eta = p.nondimensional_force;
    let k = p.nondimensional_link_stiffness;
    let l = if eta < 1e-2 { eta / 3.0 - eta.powi(3) / 45.0 } else { coth(eta) - 1.0 / eta };
    let fjc = -ln_sinhc(eta);
    let full = |x: f64, tg: f64, tp: f64| -> Iso {
        let g = |f: &dyn Fn(f64) -> f64, a: f64, b: f64| quad(f, a, b, 40);
        let (z, d) = link_partition(model, p, x, &g);
        let (z0, _) = link_partition(model, p, 1e-9, &g);
        Iso { gamma: d, phi: -(z - z0), gamma_tol: tg * d, phi_tol: tp * (1.0 + (z - z0).abs()) }
    };
    let tight = |gamma: f64, phi: f64| Some(Iso { gamma, phi, gamma_tol: 1e-9 * gamma + 1e-12, phi_tol: 1e-9 * phi.abs() + 1e-8 });
    let tail = module.split("isotensional").nth(1)?;
    match (model, tail) {
        ("ideal", "") => tight(eta / 3.0, -eta * eta / 6.0),
        ("fjc", "") => tight(l, fjc),
        ("efjc", "") | ("swfjc", "") => Some(full(eta, 1e-9, 1e-8)),
        ("efjc", "/asymptotic") => { let q = 1.0 + xcoth(eta) / k; tight(l + eta / k + dxcoth(eta) / k / q, fjc - 0.5 * eta * eta / k - (q / (1.0 + 1.0 / k)).ln()) }
        ("efjc", "/asymptotic/alternative") => tight(l + eta / k + dxcoth(eta) / k, fjc - 0.5 * eta * eta / k - (xcoth(eta) - 1.0) / k),
        ("efjc", "/asymptotic/reduced") => tight(l + eta / k, fjc - 0.5 * eta * eta / k),
        (m, t) if m.starts_with("ufjc") => {
            if t.is_empty() {
                // as good as its 64-point midpoint rule can be
                let mut r = full(eta, 1e-9, 1e-8);
                let mid = |f: &dyn Fn(f64) -> f64, a: f64, b: f64| midpoint(f, a, b, 64);
                let (z, d) = link_partition(model, p, eta, &mid);
                let (z0, _) = link_partition(model, p, 1e-9, &mid);
                r.gamma_tol += 2.0 * (d - r.gamma).abs();
                r.phi_tol += 2.0 * (z - z0 + r.phi).abs();
                return Some(r);
            }
            let lam = link_stretch(model, p, eta);
            let (u, _) = link_potential(model, p);
            let c = match m { "ufjc/lennard_jones" => 2.0 / 23.0, "ufjc/log_squared" => 0.4, _ => 1.0 / (1.0 + 1.5 * (k / 2.0 / p.nondimensional_link_energy).sqrt()) };
            let du = u(lam) - u(1.0) - eta * (lam - 1.0);
            if t == "/asymptotic/reduced" { return tight(l + lam - 1.0, fjc + du) }
            if t == "/asymptotic" { let q = 1.0 + xcoth(eta) / (c * k); return tight(l + lam - 1.0 + dxcoth(eta) / (c * k) / q, fjc + du - (q / (1.0 + 1.0 / (c * k))).ln()) }
            None
        }
        _ => None,
    }
}

// ---- double-double arithmetic
#[derive(Clone, Copy)]
pub struct D(pub f64, pub f64);
impl D {
    pub fn new(a: f64) -> D { D(a, 0.0) }
    pub fn add(self, o: D) -> D { let s = self.0 + o.0; let b = s - self.0; let e = (self.0 - (s - b)) + (o.0 - b) + self.1 + o.1; let t = s + e; D(t, e - (t - s)) }
    pub fn neg(self) -> D { D(-self.0, -self.1) }
    pub fn mul(self, o: D) -> D { let p = self.0 * o.0; let e = self.0.mul_add(o.0, -p) + self.0 * o.1 + self.1 * o.0; let t = p + e; D(t, e - (t - p)) }
    pub fn div(self, o: D) -> D { let q = D::new(self.0 / o.0); let r = self.add(q.mul(o).neg()); let q2 = D::new(r.0 / o.0); let r = r.add(q2.mul(o).neg()); q.add(q2).add(D::new(r.0 / o.0)) }
    pub fn powi(self, n: i32) -> D { let (mut b, mut r, mut k) = (self, D::new(1.0), n); while k > 0 { if k & 1 == 1 { r = r.mul(b) } b = b.mul(b); k >>= 1; } r }
    pub fn val(self) -> f64 { self.0 + self.1 }
}
/// Treloar's sum S(gamma) = sum_k (-1)^k C(N,k) (m - k/N)^(N-2), m = (1-gamma)/2, and its derivative with respect to gamma.
fn treloar(n: u8, g: f64) -> (D, D) {
    let nn = D::new(n as f64);
    let m = D::new(1.0).add(D::new(-g)).mul(D::new(0.5));
    let (mut s, mut d, mut c) = (D::new(0.0), D::new(0.0), D::new(1.0));
    for k in 0..n as i32 {
        let x = m.add(D::new(-(k as f64)).div(nn));
        if x.0 <= 0.0 { break }
        let t = c.mul(x.powi(n as i32 - 2));
        let u = c.mul(x.powi(n as i32 - 3)).mul(D::new(-0.5 * (n as f64 - 2.0)));
        if k % 2 == 0 { s = s.add(t); d = d.add(u); } else { s = s.add(t.neg()); d = d.add(u.neg()); }
        c = c.mul(D::new(n as f64 - k as f64)).div(D::new(k as f64 + 1.0));
    }
    (s, d)
}
/// Exact distribution of the end-to-end vector of a freely jointed chain, per contour length cubed: (ln P, force eta).
pub fn fjc_exact(n: u8, g: f64) -> (f64, f64) {
    let nn = n as f64;
    let (s, d) = treloar(n, g);
    // P = N^N / (8 pi g (N-2)!) S
    let lnfact: f64 = (1..=(n as u64 - 2)).map(|k| (k as f64).ln()).sum();
    let lnp = nn * nn.ln() - lnfact - (8.0 * PI * g).ln() + s.val().ln();
    (lnp, (1.0 / g - d.div(s).val()) / nn)
}
/// The same by the sampled Fourier transform of the characteristic function (exact, the support is compact).
pub fn fjc_fourier(n: u8, g: f64, terms: usize) -> f64 {
    let l = n as f64 + 0.5;
    let r = n as f64 * g;
    let mut s = 0.0;
    for j in 1..terms { let k = j as f64 * PI / l; s += k * (k.sin() / k).powi(n as i32) * (k * r).sin(); }
    s / (2.0 * PI * l) / r * (n as f64).powi(3)
}
/// Legendre approximation of the same: force, relative Helmholtz free energy per link.
pub fn fjc_legendre(g: f64) -> (f64, f64) { let e = ref_inverse_langevin(g); (e, e * g - ln_sinhc(e)) }

/// ln of Becker, Rosa and Everaers' distribution of the worm-like chain (2010), lengths over the contour length.
pub fn wlc_ln(kappa: f64, r: f64) -> f64 {
    let (a, b) = (14.054, 0.473);
    let c = [[-3.0 / 4.0, 23.0 / 64.0, -7.0 / 64.0], [-1.0 / 2.0, 17.0 / 16.0, -9.0 / 16.0]];
    let cc = 1.0 - (1.0 + (0.38 * kappa.powf(-0.95)).powf(-5.0)).powf(-0.2);
    let d = if kappa < 0.125 { 1.0 } else { 1.0 - 1.0 / (0.177 / (kappa - 0.111) + 6.4 * (kappa - 0.111).powf(0.783)) };
    let j0 = if kappa < 0.125 { 1.5 * (3.0 / (4.0 * PI * kappa)).ln() + (1.0 - 1.25 * kappa).ln() } else { (112.04 * kappa * kappa).ln() + 0.246 / kappa - a * kappa };
    let r2 = r * r;
    let mut sum = 0.0;
    for (i, row) in c.iter().enumerate() { for (j, x) in row.iter().enumerate() { sum += x * kappa.powi(i as i32 - 1) * r2.powi(j as i32 + 1); } }
    let den = 1.0 - b * b * r2;
    let arg = d * kappa * a * (1.0 + b) * r / den;
    j0 + 2.5 * ((1.0 - cc * r2) / (1.0 - r2)).ln() + sum / (1.0 - r2) - d * kappa * a * b * (1.0 + b) * r2 / den + arg + ref_bessel_scaled(0, arg).ln()
}
