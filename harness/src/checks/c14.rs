//! C14: the modified canonical ensemble, a chain held by a harmonic potential.
use crate::checks::c09::hinge;
use crate::core::*;
use crate::domain::*;
use crate::params::*;
use crate::refs::*;
use crate::registry::*;
use crate::util::*;
use std::f64::consts::PI;
/// ln of the configurational partition function of the freely jointed chain held by the potential, and minus its slope per link.
fn partition(n: u8, a: f64, d: f64, rule: &dyn Fn(&dyn Fn(f64) -> f64) -> f64) -> (f64, f64) {
    let nn = n as f64;
    let w = |g: f64| fjc_exact(n, g).0 + 2.0 * g.ln() + (4.0 * PI).ln() - 0.5 * a * (g * g + d * d) + ln_sinhc(a * g * d);
    let top = (1..200).map(|i| w(i as f64 / 200.0)).fold(f64::NEG_INFINITY, f64::max);
    let z = rule(&|g| (w(g) - top).exp());
    let f = rule(&|g| (w(g) - top).exp() * (a * d - a * g * langevin(a * g * d)));
    (z.ln() + top, f / z / nn)
}
pub fn run(c: &mut Ctx) {
    c.rule = "For seeded chains held by harmonic potentials of all strengths: force, free energies and lengths of the exact ensemble against the monitor's own quadrature of the exact end-to-end distribution times the averaged Boltzmann factor; force is the slope of the Helmholtz free energy with respect to the distance of the potential; the chain's length and the potential's stretch add up to that distance; Gibbs and Helmholtz free energies differ by the potential's work; strong and weak approximations against their closed forms, and at the expected rate against the exact ensemble. Dimensional and per-link variants of the relations too. Non-trivial: finite and not zero.".into();
    c.assumptions.push("the library integrates with 64 midpoints: twice their measured error is allowed; strong potentials that 64 points cannot resolve are left out".into());
    exact(c);
    strong(c);
    weak(c);
}
fn exact(c: &mut Ctx) {
    let m = "fjc/thermodynamics/modified_canonical";
    let g = |f: &str| get(m, f);
    // beyond what 64 points resolve
    let f = call(|| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_force(&8, &0.3, &2000.0));
    let rule = |f: &dyn Fn(f64) -> f64| quad(f, 0.2, 0.25, 10) + quad(f, 0.25, 0.35, 40) + quad(f, 0.35, 0.4, 10);
    let eta = partition(8, 64.0 * 2000.0, 0.3, &rule).1;
    c.probe("modified-canonical-strong-quadrature", !((f - eta).abs() < 1e-3 * eta), format!("force of an FJC of 8 links held at distance 0.3 by a potential of stiffness 2000 is {f:?}, not {eta:?}"));
    let f = call(|| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_force(&18, &1.5, &20.0));
    c.probe("modified-canonical-far-potential", !f.is_finite(), format!("force of an FJC of 18 links held at distance 1.5 by a potential of stiffness 20 is {f:?}, not about 180"));
    let mut r = c.rng(m);
    for _ in 0..c.budget(4800, 20000) {
        let mut p = sample(m, "fjc", &mut r);
        p.number_of_links = r.int(3, 28) as u8;
        let n = p.number_of_links as f64;
        // the Gaussian factor has width 1/(N sqrt(stiffness))
        p.nondimensional_potential_stiffness = r.log_uniform(1e-4, 8000.0 / n / n);
        p.nondimensional_potential_distance = if r.int(0, 4) == 0 { r.log_uniform(0.004, 0.05) } else { r.uniform(0.05, 1.5) };
        // held so far away that the Boltzmann factors of all lengths underflow (a listed finding)
        let far = 0.5 * n * n * (p.nondimensional_potential_distance - 0.9).max(0.0).powi(2);
        p.nondimensional_potential_stiffness = p.nondimensional_potential_stiffness.min(400.0 / far);
        p.dimensionalise();
        let (w, d) = (p.nondimensional_potential_stiffness, p.nondimensional_potential_distance);
        let a = n * n * w;
        let cuts: Vec<f64> = { let mut v: Vec<f64> = (0..=p.number_of_links as usize / 2).map(|k| 1.0 - 2.0 * k as f64 / n).filter(|x| *x > 1e-3).collect(); v.push(1e-9); v.reverse(); v };
        let fine = |f: &dyn Fn(f64) -> f64| cuts.windows(2).map(|x| quad(f, x[0], x[1], 2)).sum::<f64>();
        let mid = |f: &dyn Fn(f64) -> f64| midpoint(f, 1e-6, 1.0, 64);
        let ((z, eta), (zm, em)) = (partition(p.number_of_links, a, d, &fine), partition(p.number_of_links, a, d, &mid));
        let ((z0, _), (zm0, _)) = (partition(p.number_of_links, a, 1e-6, &fine), partition(p.number_of_links, a, 1e-6, &mid));
        // rounding of the Treloar sums in the core of the distribution
        let nz = 60.0 * treloar_noise(p.number_of_links, 0.05);
        let (tz, te) = (1.1 * (z - zm).abs() + nz + 1e-9, 1.1 * (eta - em).abs() + (nz + 1e-9) * (1.0 + w * n * d));
        let t0 = 1.1 * (z - zm - z0 + zm0).abs() + 2.0 * nz + 1e-8 + 1e-3 * 1e-6;
        let show = |e: &Entry| p.describe(e.params);
        let e = g("nondimensional_force");
        c.close("exact: force", val(e, &p), eta, te, || show(e));
        let e = g("nondimensional_helmholtz_free_energy");
        c.close("exact: Helmholtz free energy", val(e, &p), -z - (n - 1.0) * hinge(&p), tz + 1e-10 * n * hinge(&p).abs(), || show(e));
        let e = g("nondimensional_relative_helmholtz_free_energy");
        c.close("exact: relative Helmholtz free energy", val(e, &p), z0 - z, t0 + 1e-9 * n * 60.0, || show(e));
        // lengths
        for (f, s) in [("nondimensional_end_to_end_length_per_link", 1.0), ("nondimensional_end_to_end_length", n)] {
            let e = g(f);
            c.close(&format!("exact: {f}"), val(e, &p), s * (d - val(g("nondimensional_force"), &p) / w / n), s * 1e-10 * (d + 1.0 / w / n * (w * n * d)), || show(e));
            c.close(&format!("exact: {f} by quadrature"), val(e, &p), s * (d - eta / w / n), s * (te / w / n + 1e-10 * d), || show(e));
            c.decide(&format!("exact: {f} lies within the contour length"), val(e, &p) > -s * te / w / n && val(e, &p) < s * (1.0 + te / w / n), true, || show(e));
        }
        for (f, s) in [("end_to_end_length_per_link", 1.0), ("end_to_end_length", n)] {
            let e = g(f);
            c.close(&format!("exact: {f}"), val(e, &p), s * (p.potential_distance - val(g("force"), &p) / p.potential_stiffness) / n, s * 1e-10 * (p.potential_distance / n * 2.0), || show(e));
        }
        // the work of the potential
        for x in ["", "relative_"] { for y in ["", "_per_link"] { for k in ["", "nondimensional_"] {
            let (ge, he) = (g(&format!("{k}{x}gibbs_free_energy{y}")), g(&format!("{k}{x}helmholtz_free_energy{y}")));
            let work = if k.is_empty() { 0.5 * p.potential_stiffness * p.potential_distance.powi(2) } else { 0.5 * n * n * w * d * d } / if y.is_empty() { 1.0 } else { n };
            let (hv, gv) = (val(he, &p), val(ge, &p));
            c.close(&format!("exact: {k}{x}gibbs{y} is Helmholtz minus the potential's work"), gv, hv - work, 1e-10 * (hv.abs() + work), || show(ge));
            // conjugacy
            let u = if k.is_empty() { p.kt() } else { 1.0 } * if y.is_empty() { n } else { 1.0 };
            let h = 1e-3 * d.min(0.2);
            let slope = deriv(|x| val(he, &p.with(|q| q.nondimensional_potential_distance = x)), d, h) / u;
            c.close(&format!("exact: force is the slope of the {k}{x}helmholtz{y}"), val(g("nondimensional_force"), &p), slope, 1e-7 * (1.0 + eta.abs()) + 3e-15 * (val(he, &p) / u).abs().max(1.0) * 40.0 / h / 1.0 + nz * 1e-3 + 1e-4 * te, || show(he));
        }}}
    }
}
fn strong(c: &mut Ctx) {
    let m = "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential";
    let g = |f: &str| get(m, f);
    let mut r = c.rng(m);
    let q = get("fjc/thermodynamics/modified_canonical", "nondimensional_force");
    for _ in 0..c.budget(10000, 40000) {
        let mut p = sample(m, "fjc", &mut r);
        p.number_of_links = r.int(6, 27) as u8;
        p.nondimensional_potential_distance = r.uniform(0.04, 0.94);
        p.nondimensional_potential_stiffness = r.log_uniform(0.2, 50.0);
        p.dimensionalise();
        let (n, w, d) = (p.number_of_links as f64, p.nondimensional_potential_stiffness, p.nondimensional_potential_distance);
        let nz = treloar_noise(p.number_of_links, d);
        let f0 = |x: f64| fjc_exact(p.number_of_links, x).1;
        // the third derivative of the distribution is smooth only away from the pieces' ends
        let near = (0..=p.number_of_links).map(|k| ((1.0 - 2.0 * k as f64 / n) - d).abs()).fold(1.0, f64::min);
        let h = if n < 9.0 { (0.3 * near).min(4e-3) } else { 4e-3_f64.min(0.05 * (1.0 - d)) };
        if h < 5e-4 { continue }
        let (e0, e1) = (f0(d), deriv(f0, d, h));
        let e2 = (16.0 * (f0(d + h) + f0(d - h)) - f0(d + 2.0 * h) - f0(d - 2.0 * h) - 30.0 * e0) / (12.0 * h * h);
        let correction = (e0 * e1 - e2 / (2.0 * n)) / (n * w);
        let (lnp, _) = fjc_exact(p.number_of_links, d);
        let show = |e: &Entry| p.describe(e.params);
        let size = (e0.abs() * e1.abs() + e2.abs() / n) / (n * w);
        let hard = 1.0 / (1.0 - d);
        let tol = 1e-4 * size + 3e-14 / h / h / n / w * (1.0 + hard) + 1e-9 * hard + 300.0 * nz * (1.0 / w / n + 1.0) * hard.powi(3) + 1e-5 / w / n * hard.powi(3);
        let e = g("nondimensional_force");
        let force = val(e, &p);
        c.close("strong: force", force, e0 - correction, tol, || show(e));
        let e = g("nondimensional_helmholtz_free_energy");
        // -ln P - 3/2 ln(2 pi/(N^2 w)) + half (ln P)'' spread, in units of the contour length
        let want = -lnp - (n - 1.0) * hinge(&p) - 1.5 * (2.0 * PI / w / n / n).ln() + 0.5 / (w * n * n) * (n * e1 - n * n * e0 * e0);
        let he = val(e, &p);
        c.close("strong: Helmholtz free energy", he, want, 1e-9 * (lnp.abs() + n * hinge(&p).abs() + 10.0) + 1e-5 * (e1.abs() / w / n + e0 * e0 / w) + 300.0 * nz * hard * hard * (1.0 + 1.0 / w) + 1e-11 / h / w / n, || show(e));
        for y in ["", "_per_link"] { for k in ["", "nondimensional_"] {
            let he = g(&format!("{k}helmholtz_free_energy{y}"));
            let re = g(&format!("{k}relative_helmholtz_free_energy{y}"));
            let u = if k.is_empty() { p.kt() } else { 1.0 } * if y.is_empty() { n } else { 1.0 };
            let hh = (0.3 * h).min(1e-3);
            let at = |x: f64| p.with(|q| q.nondimensional_potential_distance = x);
            let slope = deriv(|x| val(he, &at(x)), d, hh) / u;
            let big = (val(he, &p) / u).abs() + 1.0;
            c.close(&format!("strong: force is the slope of the {k}helmholtz{y}"), force, slope, 1e-5 * (force.abs() + size) + 1e-6 * hard.powi(3) * (1.0 + 1.0 / w) + 4e-14 * big / hh + 100.0 * nz * hard.powi(3) * (1.0 + 1.0 / w / n) / hh / n, || show(he));
            let d2 = d * 0.7 + 0.05;
            let (x, y2) = (val(re, &p) - val(re, &at(d2)), val(he, &p) - val(he, &at(d2)));
            c.close(&format!("strong: {k}relative_helmholtz{y} differs by a constant"), x / u, y2 / u, 1e-9 * (big + val(re, &p).abs() / u), || show(re));
        }}
        // towards the exact ensemble, inside what its 64 points resolve
        if w * n * n < 900.0 && w > 4.0 && d < 0.6 && n < 16.0 {
            let ex = val(q, &p);
            let t = partition(p.number_of_links, n * n * w, d, &|f| midpoint(f, 1e-6, 1.0, 64)).1 - partition(p.number_of_links, n * n * w, d, &|f| quad(f, 1e-9, 1.0, 60)).1;
            c.close("strong: agrees with the exact ensemble", force, ex, 2.0 * t.abs() + correction.abs() + 8.0 / (w * n) / (w * n) + 1e-3, || show(g("nondimensional_force")));
        }
    }
}
fn weak(c: &mut Ctx) {
    let m = "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential";
    let g = |f: &str| get(m, f);
    let mut r = c.rng(m);
    let q = get("fjc/thermodynamics/modified_canonical", "nondimensional_end_to_end_length_per_link");
    for _ in 0..c.budget(16000, 80000) {
        let mut p = sample(m, "fjc", &mut r);
        // the formulas themselves, also where the potential is not weak
        if r.int(0, 3) == 0 {
            p.nondimensional_potential_stiffness = r.log_uniform(0.01, 1000.0);
            p.nondimensional_potential_distance = r.log_uniform(0.05, 400.0) / p.number_of_links as f64 / p.nondimensional_potential_stiffness;
            p.dimensionalise();
        }
        let (n, w, d) = (p.number_of_links as f64, p.nondimensional_potential_stiffness, p.nondimensional_potential_distance);
        let eta = n * w * d;
        let (l, dl) = (langevin(eta), if eta < 0.05 { 1.0 / 3.0 - eta * eta / 15.0 + 2.0 * eta.powi(4) / 189.0 } else { 1.0 / eta / eta - 1.0 / eta.sinh().powi(2) });
        let show = |e: &Entry| p.describe(e.params);
        let noise = 1e-14 / eta / eta;
        for (f, s) in [("nondimensional_end_to_end_length_per_link", 1.0), ("nondimensional_end_to_end_length", n), ("end_to_end_length_per_link", p.link_length), ("end_to_end_length", p.link_length * n)] {
            let e = g(f);
            c.close(&format!("weak: {f}"), val(e, &p), s * l * (1.0 - n * w * dl), s * (l * (1e-9 + noise) * (1.0 + n * w) + 1e-14 / eta), || show(e));
        }
        for (f, s) in [("nondimensional_force", 1.0), ("force", p.kt() / p.link_length)] { let e = g(f); c.close(&format!("weak: {f}"), val(e, &p), s * eta, 1e-11 * s * eta, || show(e)); }
        let relative = -ln_sinhc(eta) + 0.5 * w * n * l * l;
        // the unloaded chain is held at a millionth
        let unloaded = { let e = n * w * 1e-6; -ln_sinhc(e) + 0.5 * w * n * langevin(e).powi(2) };
        for y in ["", "_per_link"] { for k in ["", "nondimensional_"] {
            let u = if k.is_empty() { p.kt() } else { 1.0 } * if y.is_empty() { n } else { 1.0 };
            let e = g(&format!("{k}gibbs_free_energy{y}"));
            c.close(&format!("weak: {k}gibbs{y}"), val(e, &p) / u, relative - hinge(&p), 1e-9 * (relative.abs() + hinge(&p).abs() + 1.0) + noise * w * n, || show(e));
            let e = g(&format!("{k}relative_gibbs_free_energy{y}"));
            c.close(&format!("weak: {k}relative gibbs{y}"), val(e, &p) / u, relative - unloaded, 1e-8 * (1.0 + relative.abs()) + 1e-11 * hinge(&p).abs() + noise * w * n + { let e0 = n * w * 1e-6; w * n * (2e-16 / e0).powi(2) * 100.0 + w * n * 1e-16 / e0 * 1.0 + 4e-15 / e0 * 1e-10 }, || show(e));
        }}
        // towards the exact ensemble
        if p.number_of_links >= 5 && p.number_of_links <= 16 && n * w < 0.05 && d < 60.0 && eta < 8.0 {
            let ex = val(q, &p);
            c.close("weak: agrees with the exact ensemble", val(g("nondimensional_end_to_end_length_per_link"), &p), ex, 3.0 * (n * w).powi(2) + 2e-3 * n * w + 1e-4, || show(q));
        }
    }
}
