//! C13: models and approximations meet in their limits, at the expected rate.
use crate::checks::c03::slow;
use crate::core::*;
use crate::domain::*;
use crate::params::*;
use crate::registry::*;
use crate::util::*;
/// Distance of f from its limit before and after moving toward the limit by a factor of `step`: falls by step^order.
fn order(c: &mut Ctx, class: &str, d0: f64, d1: f64, step: f64, ord: f64, slack: f64, noise: f64, bound: f64, text: String) {
    let (a0, a1) = (d0.abs(), d1.abs());
    c.decide(&format!("{class}: distance"), a0 <= bound + noise, a0 > noise, || format!("{text} | distance {a0:e} bound {bound:e}"));
    if a0 < 50.0 * noise { return }
    if slack.is_infinite() { return }
    let want = a0 * step.powf(-ord);
    c.decide(&format!("{class}: rate"), a1 <= want * slack + noise && a1 >= want / slack - noise, true, || format!("{text} | distances {d0:e} {d1:e}, expected to fall by {:.3}", step.powf(ord)));
}
pub fn run(c: &mut Ctx) {
    c.rule = "Pairs of models and approximations with a common limit (EFJC and uFJC to FJC as links stiffen; EFJC variants to each other; SWFJC to FJC as the well narrows; FJC to ideal at small load; isometric to Legendre as chains lengthen; exact FJC density to the Gaussian one): the distance is measured at a seeded state and again closer to the limit; it must be within its bound and fall at the expected order. Non-trivial: the distance is above rounding noise.".into();
    for f in ["nondimensional_end_to_end_length_per_link", "nondimensional_relative_gibbs_free_energy_per_link"] {
        let fjc = get("fjc/thermodynamics/isotensional", f);
        let energy = f.contains("energy");
        // stiff links
        let to = |c: &mut Ctx, name: &str, e: &'static Entry, q: &'static Entry, ord: f64, lo: f64, hi: f64, slack: f64, bound: &dyn Fn(f64, f64) -> f64| {
            let mut r = c.rng(&format!("{name}{f}"));
            let budget = c.budget(4000, 20000);
            for _ in 0..if slow(e) || slow(q) { budget / 3 } else { budget } {
                let mut p = sample(e.module, e.model, &mut r);
                p.nondimensional_link_stiffness = r.log_uniform(lo, hi);
                p.nondimensional_link_energy = p.nondimensional_link_stiffness * r.uniform(0.5, 2.0);
                let eta = r.log_uniform(0.2, 12f64.min(0.1 * p.nondimensional_link_stiffness).min(0.3 * eta_max(e.model, &p)));
                p.nondimensional_force = eta;
                p.dimensionalise();
                let p1 = p.with(|p| { p.nondimensional_link_stiffness *= 4.0; p.nondimensional_link_energy *= 4.0; });
                let d = |p: &P| val(e, p) - val(q, p);
                let noise = if energy { 3e-8 } else { 1e-9 };
                let k = p.nondimensional_link_stiffness;
                let (d0, d1) = (d(&p), d(&p1));
                order(c, &format!("{name}: {f}"), d0, d1, 4.0, ord, slack, noise, bound(eta, k), p.describe(e.params));
            }
        };
        let first = |eta: f64, k: f64| if energy { (1.5 * eta * eta + 2.0 * eta) / k } else { 2.5 * (eta + 1.0) / k };
        let second = |eta: f64, k: f64| 30.0 * (eta + 1.0).powi(3) / k / k;
        let second2 = |eta: f64, k: f64| 3.0 * (eta + 1.0).powi(2) / k / k;
        for t in ["", "/asymptotic", "/asymptotic/alternative", "/asymptotic/reduced"] {
            to(c, &format!("efjc{t} to fjc"), get(&format!("efjc/thermodynamics/isotensional{t}"), f), fjc, 1.0, 200.0, 20000.0, 1.35, &first);
        }
        to(c, "efjc exact and asymptotic", get("efjc/thermodynamics/isotensional", f), get("efjc/thermodynamics/isotensional/asymptotic", f), 1.0, 60.0, 5000.0, 4.0, &|_, k| 40.0 * (-0.5 * k).exp());
        to(c, "efjc asymptotic and alternative", get("efjc/thermodynamics/isotensional/asymptotic", f), get("efjc/thermodynamics/isotensional/asymptotic/alternative", f), 2.0, 100.0, 2000.0, 1.8, &second2);
        to(c, "efjc asymptotic and reduced", get("efjc/thermodynamics/isotensional/asymptotic", f), get("efjc/thermodynamics/isotensional/asymptotic/reduced", f), 1.0, 100.0, 5000.0, 1.35, &first);
        for m in ["lennard_jones", "log_squared", "morse"] {
            let size = if m == "lennard_jones" { 8.0 } else { 1.0 };
            let first = |eta: f64, k: f64| size * first(eta, k);
            let second = |eta: f64, k: f64| size * size * second(eta, k);
            for t in ["/asymptotic", "/asymptotic/reduced"] {
                to(c, &format!("ufjc {m}{t} to fjc"), get(&format!("ufjc/{m}/thermodynamics/isotensional{t}"), f), fjc, 1.0, 400.0, 20000.0, 1.6, &first);
            }
            to(c, &format!("ufjc {m} asymptotic and reduced"), get(&format!("ufjc/{m}/thermodynamics/isotensional/asymptotic"), f), get(&format!("ufjc/{m}/thermodynamics/isotensional/asymptotic/reduced"), f), 1.0, 400.0, 5000.0, 1.6, &first);
            to(c, &format!("ufjc {m} reduced and efjc reduced"), get(&format!("ufjc/{m}/thermodynamics/isotensional/asymptotic/reduced"), f), get("efjc/thermodynamics/isotensional/asymptotic/reduced", f), 2.0, 400.0, 5000.0, 1.6, &second);
            to(c, &format!("ufjc {m} exact and asymptotic"), get(&format!("ufjc/{m}/thermodynamics/isotensional"), f), get(&format!("ufjc/{m}/thermodynamics/isotensional/asymptotic"), f), 2.0, if size > 1.0 { 1500.0 } else { 150.0 }, if size > 1.0 { 3000.0 } else { 250.0 }, if size > 1.0 { f64::INFINITY } else { 2.5 }, &|eta, k| second(eta, k) / size);
        }
        // narrow wells
        let e = get("swfjc/thermodynamics/isotensional", f);
        let mut r = c.rng(f);
        for _ in 0..c.budget(8000, 40000) {
            let mut p = sample(e.module, e.model, &mut r);
            let w = r.log_uniform(0.01, 0.1);
            p.well_width = w * p.link_length;
            p.nondimensional_force = r.log_uniform(0.8, 12.0);
            p.dimensionalise();
            let mut p1 = p.clone();
            p1.well_width *= 0.25;
            let (d0, d1) = (val(e, &p) - val(fjc, &p), val(e, &p1) - val(fjc, &p1));
            let noise = if energy { 3.0 * reference_noise("swfjc", &p1) } else { 60.0 * swfjc_noise(&p1, p.nondimensional_force) };
            order(c, &format!("swfjc to fjc: {f}"), d0, d1, 4.0, 1.0, 1.35, noise, w * (1.0 + p.nondimensional_force) * 1.5, p.describe(e.params) + &format!(", well={w:?}"));
        }
        // weak loads
        let q = get("ideal/thermodynamics/isotensional", f);
        for e in ENTRIES.iter().filter(|e| e.func == f && e.module == "fjc/thermodynamics/isotensional") {
            let mut r = c.rng("weak");
            for _ in 0..c.budget(4000, 20000) {
                let mut p = sample(e.module, e.model, &mut r);
                p.nondimensional_force = r.log_uniform(0.02, 0.6);
                p.dimensionalise();
                let p1 = p.with(|p| p.nondimensional_force *= 0.5);
                let d = |p: &P| val(e, p) / val(q, p) - 1.0;
                let noise = 1e-10 + if energy { 1e-9 / p.nondimensional_force.powi(2) } else { 1e-14 / p.nondimensional_force.powi(2) };
                order(c, &format!("fjc to ideal at weak load: {f}"), d(&p), d(&p1), 2.0, 2.0, 1.15, noise, 0.08 * p.nondimensional_force.powi(2), p.describe(e.params));
            }
        }
    }
    // small extensions
    for e in ENTRIES.iter().filter(|e| e.module == "fjc/thermodynamics/isometric/legendre" && (e.func == "nondimensional_force" || e.func == "nondimensional_relative_helmholtz_free_energy_per_link")) {
        let q = get("ideal/thermodynamics/isometric", e.func);
        let mut r = c.rng(e.func);
        for _ in 0..c.budget(4000, 20000) {
            let mut p = sample(e.module, e.model, &mut r);
            p.nondimensional_end_to_end_length_per_link = r.log_uniform(0.01, 0.3);
            p.dimensionalise();
            let p1 = p.with(|p| p.nondimensional_end_to_end_length_per_link *= 0.5);
            let d = |p: &P| val(e, p) / val(q, p) - 1.0;
            let noise = 1e-9 + if e.func.contains("energy") { 3e-11 / p1.nondimensional_end_to_end_length_per_link.powi(2) } else { 0.0 };
            order(c, &format!("fjc Legendre to ideal at small extension: {}", e.func), d(&p), d(&p1), 2.0, 2.0, 1.3, noise, p.nondimensional_end_to_end_length_per_link.powi(2), p.describe(e.params));
        }
    }
    // isometric chains that stiffen
    for e in ENTRIES.iter().filter(|e| e.module.contains("isometric") && (e.model == "efjc" || e.model.starts_with("ufjc")) && (e.func == "nondimensional_force" || e.func == "nondimensional_relative_helmholtz_free_energy_per_link")) {
        let q = get("fjc/thermodynamics/isometric/legendre", e.func);
        let mut r = c.rng(&short(e));
        for _ in 0..c.budget(4000, 20000) {
            let mut p = sample(e.module, e.model, &mut r);
            p.nondimensional_link_stiffness = r.log_uniform(1000.0, 20000.0);
            p.nondimensional_link_energy = p.nondimensional_link_stiffness * r.uniform(0.5, 2.0);
            p.nondimensional_end_to_end_length_per_link = r.uniform(0.1, 0.8);
            p.dimensionalise();
            let p1 = p.with(|p| { p.nondimensional_link_stiffness *= 4.0; p.nondimensional_link_energy *= 4.0; });
            let d = |p: &P| val(e, p) - val(q, p);
            order(c, &format!("{} to fjc", short(e)), d(&p), d(&p1), 4.0, 1.0, 1.6, 3e-6, 800.0 / p.nondimensional_link_stiffness, p.describe(e.params));
        }
    }
    // long chains
    let m = "fjc/thermodynamics/isometric";
    let (f, l) = (get(m, "nondimensional_force"), get("fjc/thermodynamics/isometric/legendre", "nondimensional_force"));
    let (pd, pi) = (get(m, "nondimensional_equilibrium_distribution"), get("ideal/thermodynamics/isometric", "nondimensional_equilibrium_distribution"));
    let mut r = c.rng("long");
    for _ in 0..c.budget(8000, 40000) {
        let mut p = sample(m, "fjc", &mut r);
        p.number_of_links = r.int(8, 14) as u8;
        p.nondimensional_end_to_end_length_per_link = r.uniform(0.15, 0.7);
        p.dimensionalise();
        let p1 = p.with(|p| p.number_of_links *= 2);
        let d = |p: &P| val(f, p) - val(l, p);
        let noise = 100.0 * treloar_noise(p1.number_of_links, p.nondimensional_end_to_end_length_per_link) * 20.0;
        order(c, "fjc isometric to Legendre with chain length: force", d(&p), d(&p1), 2.0, 1.0, 1.35, noise, 12.0 / p.number_of_links as f64, p.describe(f.params));
        // the central part of the distribution is Gaussian
        let x = r.uniform(0.1, 1.0);
        let q = |n: u8| p.with(|p| { p.number_of_links = n; p.nondimensional_end_to_end_length_per_link = x / (n as f64).sqrt(); });
        let d = |p: &P| val(pd, p) / val(pi, p) - 1.0;
        let (a, b) = (q(p.number_of_links), q(2 * p.number_of_links));
        let noise = 100.0 * treloar_noise(b.number_of_links, b.nondimensional_end_to_end_length_per_link);
        order(c, "fjc density to the Gaussian with chain length", d(&a), d(&b), 2.0, 1.0, 1.3, noise.max(4e-3 / p.number_of_links as f64), 1.0 / p.number_of_links as f64, a.describe(pd.params));
    }
}
