//! C05: relative free energies are differences of the free energies, measured from zero load.
use crate::checks::c03::slow;
use crate::core::*;
use crate::domain::*;
use crate::registry::*;
use crate::util::*;
pub fn run(c: &mut Ctx) {
    c.rule = "For every relative free energy (212 functions): its change between two seeded states that differ only in the load equals the change of the free energy itself; it does not depend on the hinge mass; and it vanishes as the load goes to zero (evaluated at a load of 1e-3). Non-trivial: expected value finite and not zero.".into();
    c.assumptions.push("SWFJC: the value at small loads is not judged beyond the size of its known cancellation error (known finding); strong-potential modified canonical: the zero-load limit is outside its range of validity".into());
    for e in ENTRIES.iter().filter(|e| e.func.contains("relative_")) {
        let q = get(e.module, &e.func.replace("relative_", ""));
        let mut r = c.rng(&short(e));
        let budget = c.budget(4000, 25000);
        let budget = if slow(e) { budget / 4 } else { budget };
        for _ in 0..budget {
            let p = sample_for(e, &mut r);
            let k = r.uniform(0.3, 0.9);
            let mass = r.log_uniform(0.1, 10.0);
            let treloar = treloar(e);
            let p2 = p.with(|p| {
                p.nondimensional_force *= k;
                p.nondimensional_potential_distance *= k;
                p.nondimensional_end_to_end_length_per_link *= k;
                if treloar { p.nondimensional_end_to_end_length_per_link = p.nondimensional_end_to_end_length_per_link.max(0.02) }
            });
            // the hinge mass drops out of the difference
            let (m1, m2) = (p.with(|p| p.hinge_mass *= mass), p2.with(|p| p.hinge_mass *= mass));
            let (x1, x2, y1, y2) = (val(e, &p), val(e, &p2), val(q, &m1), val(q, &m2));
            let u = unit(e.func, &p) * links(e.func, &p);
            let mut tol = 1e-9 * (x1.abs() + x2.abs()) + 1e-12 * (y1.abs() + y2.abs()) + 1e-11 * u;
            if e.model == "swfjc" { tol += 100.0 * u * (swfjc_noise(&p, p.nondimensional_force.min(0.03)) + swfjc_noise(&p2, p2.nondimensional_force.min(0.01))) + u * 0.02 * (reference_noise("swfjc", &p) - 1e-8) }
            if treloar { tol += 1e-9 * u + 50.0 * u * (treloar_noise(p.number_of_links, p.nondimensional_end_to_end_length_per_link) + treloar_noise(p.number_of_links, p2.nondimensional_end_to_end_length_per_link)); }
            if e.module.ends_with("strong_potential") { tol += 1e-6 * (x1.abs() + x2.abs()) }
            c.close(&format!("{}: difference", short(e)), x1 - x2, y1 - y2, tol, || format!("{} and the load times {k}", p.describe(e.params)));
            // zero load
            if e.module.ends_with("strong_potential") || e.module.contains("modified_canonical") { continue }
            let z = p.with(|p| { p.nondimensional_force = 1e-3; p.nondimensional_end_to_end_length_per_link = 1e-3; });
            let x = val(e, &z);
            let mut bound = 1e-5 + reference_noise(e.model, &p) + 100.0 * if e.model == "swfjc" { swfjc_noise(&z, 1e-3) } else { 0.0 };
            if e.model == "wlc" { bound += 1e-4 * (1.0 + 2.0 * p.nondimensional_persistance_length) }
            if e.module == "fjc/thermodynamics/isometric" || (e.module == "fjc/thermodynamics/isometric/legendre" && e.func.contains("gibbs")) { bound += 100.0 * treloar_noise(p.number_of_links, 1e-3) }
            c.close(&format!("{}: zero at zero load", short(e)), x / u, 0.0, bound, || z.describe(e.params));
        }
    }
    // the recorded defect: at its reference load of 1e-6 the SWFJC partition function cancels completely
    let e = get("swfjc/thermodynamics/isotensional", "nondimensional_relative_gibbs_free_energy_per_link");
    let mut p = sample("swfjc/thermodynamics/isotensional", "swfjc", &mut Rng::new(7, "probe"));
    p = p.with(|p| { p.link_length = 1.0; p.well_width = 0.1; p.nondimensional_force = 1e-2; });
    p.well_width = 0.1;
    let s: f64 = 1.1;
    // -phi = eta^2/2 <s^2>/3, <s^2> = 3/5 (s^5-1)/(s^3-1)
    let expect = -0.5 * 1e-4 / 5.0 * (s.powi(5) - 1.0) / (s.powi(3) - 1.0);
    let got = val(e, &p);
    c.probe("swfjc-relative-reference", (got - expect).abs() > 1e-5 * expect.abs() + 1e-9, format!("link_length=1, well_width=0.1, nondimensional_force=0.01: nondimensional_relative_gibbs_free_energy_per_link={got:e}, expected {expect:e}"));
}
