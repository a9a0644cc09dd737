//! C08: the Legendre transform between the ensembles.
use crate::checks::c03::slow;
use crate::core::*;
use crate::domain::*;
use crate::registry::*;
use crate::util::*;
pub fn run(c: &mut Ctx) {
    c.rule = "Every Helmholtz free energy of the isotensional Legendre modules equals the Gibbs free energy of the isotensional module plus force times end-to-end length at the same seeded state, and every Gibbs free energy of the isometric Legendre modules (FJC, WLC) equals the Helmholtz free energy minus force times length; the relative ones likewise, up to the value at the reference load. Every Helmholtz free energy of the isometric Legendre modules equals the isotensional Gibbs free energy at the returned force plus force times length (one kinetic term fewer than links). Non-trivial: the expected value is finite and not zero.".into();
    for e in ENTRIES.iter() {
        let tensional = e.module.contains("isotensional") && e.module.ends_with("legendre") && e.func.contains("helmholtz");
        let metric = e.module.contains("isometric") && e.func.contains("gibbs");
        if !tensional && !metric { continue }
        let up = e.module.trim_end_matches("/legendre");
        let nd = e.func.starts_with("nondimensional");
        let pre = if nd { "nondimensional_" } else { "" };
        let per = if e.func.ends_with("per_link") { "_per_link" } else { "" };
        let mut r = c.rng(&short(e));
        let budget = c.budget(4000, 25000);
        let budget = if slow(e) { budget / 4 } else { budget };
        for _ in 0..budget {
            let p = sample_for(e, &mut r);
            let n = links(e.func, &p);
            let u = unit(e.func, &p);
            let (x, y, size) = if tensional {
                let a = val(get(up, &e.func.replace("helmholtz", "gibbs")), &p);
                let len = val(get(up, &format!("{pre}end_to_end_length{per}")), &p);
                let b = len * if nd { p.nondimensional_force } else { p.force };
                (val(e, &p), a + b, a.abs() + b.abs())
            } else {
                let a = val(get(up, &e.func.replace("gibbs", "helmholtz")), &p);
                let f = val(get(up, &format!("{pre}force")), &p);
                let b = f * n * p.nondimensional_end_to_end_length_per_link * if nd { 1.0 } else { p.link_length };
                (val(e, &p), a - b, a.abs() + b.abs())
            };
            let mut tol = 1e-9 * size + 1e-11 * n * u;
            if e.func.contains("relative") { tol += 2e-6 * n * u + if e.model == "swfjc" { n * u * reference_noise("swfjc", &p) } else { 0.0 } }
            if e.model == "swfjc" { tol += n * u * 30.0 * swfjc_noise(&p, p.nondimensional_force) }
            if treloar(e) { tol += n * u * 50.0 * treloar_noise(p.number_of_links, p.nondimensional_end_to_end_length_per_link) * (1.0 + 1.0 / p.nondimensional_end_to_end_length_per_link) }
            c.close(&short(e), x, y, tol, || p.describe(e.params));
        }
    }
    // the fixed-length Legendre approximations: the Helmholtz free energy is the fixed-force Gibbs free energy at the returned force plus force times length
    for e in ENTRIES.iter().filter(|e| e.module.contains("isometric") && e.module.ends_with("legendre") && e.func.contains("helmholtz")) {
        let up = e.module.trim_end_matches("/legendre").replace("isometric", "isotensional");
        let (gibbs, force) = (get(&up, &e.func.replace("helmholtz", "gibbs")), get(e.module, "nondimensional_force"));
        let ufjc = e.model.starts_with("ufjc");
        let mut r = c.rng(&format!("{} at the returned force", short(e)));
        for _ in 0..c.budget(4000, 25000) {
            let p = sample_for(e, &mut r);
            let (n, u, g, eta) = (links(e.func, &p), unit(e.func, &p), p.nondimensional_end_to_end_length_per_link, val(force, &p));
            let (a, b) = (val(e, &p), val(gibbs, &p.with(|p| p.nondimensional_force = eta)));
            let mut extra = 0.0;
            if !e.func.contains("relative") {
                // one kinetic term fewer than links
                extra = crate::checks::c09::hinge(&p) / p.number_of_links as f64;
                if ufjc || e.model == "efjc" { extra += 0.5 * (2.0 * std::f64::consts::PI * p.link_length.powi(2) / p.nondimensional_link_stiffness).ln() / p.number_of_links as f64 }
            }
            let noise = if e.model == "swfjc" { 2.0 * reference_noise("swfjc", &p) + 100.0 * swfjc_noise(&p, eta.abs()) } else { 0.0 };
            let y = b + u * n * (eta * g + extra);
            c.close(&format!("{} at the returned force", short(e)), a, y, n * u * (2e-7 * (1.0 + eta.abs()) + noise) + 1e-9 * (a.abs() + b.abs()), || format!("force={eta:?} {}", p.describe(e.params)));
        }
    }
}
