//! C09: the isometric Legendre approximation inverts the isotensional relation.
use crate::core::*;
use crate::domain::*;
use crate::params::*;
use crate::registry::*;
use crate::util::*;
pub fn hinge(p: &P) -> f64 { (8.0 * std::f64::consts::PI.powi(2) * p.hinge_mass * p.link_length.powi(2) * p.kt() / planck().powi(2)).ln() }
pub fn run(c: &mut Ctx) {
    c.rule = "For every isometric Legendre module: the isotensional end-to-end length at the returned force is the given length; its Helmholtz free energies are those of the isotensional Legendre relation at that force, the relative ones directly, the absolute ones up to the kinetic term of one link less. Both directions: the force of an extension produced by a known force is that force. Small lengths, down to a millionth, follow the chain's own compliance at rest. Non-trivial: finite and not zero.".into();
    let modules: Vec<(&str, &str)> = { let mut v: Vec<(&str, &str)> = ENTRIES.iter().filter(|e| e.module.contains("isometric") && e.module.ends_with("legendre") && e.func == "nondimensional_force").map(|e| (e.module, e.model)).collect(); v.dedup(); v };
    for (module, model) in modules {
        let up = module.trim_end_matches("/legendre").replace("isometric", "isotensional");
        let force = get(module, "nondimensional_force");
        let len = get(&up, "nondimensional_end_to_end_length_per_link");
        let gibbs = get(&up, "nondimensional_gibbs_free_energy_per_link");
        let rgibbs = get(&up, "nondimensional_relative_gibbs_free_energy_per_link");
        let (psi, rpsi) = (get(module, "nondimensional_helmholtz_free_energy_per_link"), get(module, "nondimensional_relative_helmholtz_free_energy_per_link"));
        let mut r = c.rng(module);
        let name = module.replace("thermodynamics/", "");
        let ufjc = model.starts_with("ufjc");
        let newton = if ufjc { 4e-6 } else if model == "swfjc" { 1e-6 } else { 1e-9 };
        for _ in 0..c.budget(12000, 60000) {
            let p = sample(module, model, &mut r);
            let g = p.nondimensional_end_to_end_length_per_link;
            let eta = val(force, &p);
            let at = p.with(|p| p.nondimensional_force = eta);
            let back = val(len, &at);
            c.close(&format!("{name}: length at the returned force"), back, g, newton * (1.0 + g) + if model == "swfjc" { 100.0 * swfjc_noise(&p, eta.abs()) / eta.abs() } else { 0.0 }, || format!("force={eta:?} {}", p.describe(force.params)));
            // relative free energy
            let noise = if model == "swfjc" { 2.0 * reference_noise("swfjc", &p) + 100.0 * swfjc_noise(&p, eta.abs()) } else { 0.0 };
            let (a, b) = (val(rpsi, &p), val(rgibbs, &at) + eta * g);
            c.close(&format!("{name}: relative free energy"), a, b, 2e-7 * (1.0 + eta) + 1e-9 * (a.abs() + eta * g) + noise, || format!("force={eta:?} {}", p.describe(rpsi.params)));
            // absolute free energy: one kinetic term fewer than links
            let n = p.number_of_links as f64;
            let (a, b) = (val(psi, &p), val(gibbs, &at) + eta * g);
            let mut extra = hinge(&p);
            if ufjc || model == "efjc" { extra += 0.5 * (2.0 * std::f64::consts::PI * p.link_length.powi(2) / p.nondimensional_link_stiffness).ln(); }
            c.close(&format!("{name}: free energy"), a, b + extra / n, 2e-7 * (1.0 + eta) + 1e-9 * (a.abs() + b.abs() + 1.0) + noise, || format!("force={eta:?} {}", p.describe(psi.params)));
            // and the other way
            let q = sample(&up, model, &mut r);
            if q.nondimensional_force < 0.05 { continue }
            // the inverse of the EFJC forms is only well defined while the length grows with the force
            let eta = q.nondimensional_force;
            let g = val(len, &q);
            let slope = deriv(|x| val(len, &q.with(|p| p.nondimensional_force = x)), eta, 1e-3 * eta);
            if !(slope > 1e-6) || (ufjc && eta > 0.7 * eta_max(model, &q)) || (model == "fjc" && g > 0.97) || (model == "efjc" && q.nondimensional_link_stiffness < 40.0) { c.count("skipped: force not recoverable from the length"); continue }
            let q2 = q.with(|p| p.nondimensional_end_to_end_length_per_link = g);
            let x = val(force, &q2);
            c.close(&format!("{name}: force of the length at that force"), x, eta, 1e-8 * eta + (newton + if model == "swfjc" { 100.0 * swfjc_noise(&q, eta) / eta } else { 0.0 }) * 3.0 * (1.0 + g) / slope, || format!("true force={eta:?} {}", q2.describe(force.params)));
        }
        // small lengths, where the library switches to linear laws: the chain's own compliance at rest
        for _ in 0..c.budget(2400, 12000) {
            let p = sample(module, model, &mut r);
            let g = r.log_uniform(1e-6, 3e-3);
            let q = p.with(|p| p.nondimensional_end_to_end_length_per_link = g);
            let ratio = |x: f64| val(len, &p.with(|p| p.nondimensional_force = x)) / x;
            let compliance = if model == "swfjc" { let s = 1.0 + p.well_width / p.link_length; (s.powi(5) - 1.0) / (s.powi(3) - 1.0) / 5.0 } else { (4.0 * ratio(0.02) - ratio(0.04)) / 3.0 };
            let x = val(force, &q);
            c.close(&format!("{name}: force of a small length"), x * compliance, g, if ufjc { 3e-4 } else { 1e-5 } * g + 2e-15 / (3.0 * g) + if model == "swfjc" && g > 9.99e-4 { 100.0 * swfjc_noise(&p, x) / x } else { 0.0 }, || q.describe(force.params));
        }
    }
}
