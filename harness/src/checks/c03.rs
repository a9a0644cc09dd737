//! C03: every dimensional function is its nondimensional twin in physical units.
use crate::core::*;
use crate::domain::*;
use crate::registry::*;
use crate::util::*;
pub fn run(c: &mut Ctx) {
    c.rule = "Every dimensional function of the public interface (277) is called at seeded parameters (chain length, link length, mass, temperature, model constants, load) and compared with its nondimensional twin, called at the same state made nondimensional by the monitor, times the physical unit. Non-trivial: the expected value is finite and not zero.".into();
    let mut covered = 0;
    for e in ENTRIES.iter().filter(|e| !e.func.starts_with("nondimensional")) {
        let Some(q) = find(e.module, &format!("nondimensional_{}", e.func)) else { c.violate("missing twin", &short(e)); continue };
        covered += 1;
        let mut r = c.rng(&short(e));
        let budget = c.budget(6000, 40000);
        let budget = if slow(e) { budget / 6 } else { budget };
        for _ in 0..budget {
            let p = sample_for(e, &mut r);
            let s = unit(e.func, &p);
            let (x, y) = (val(e, &p), val(q, &p) * s);
            let mut tol = 1e-6 * y.abs() + 1e-9 * s * links(e.func, &p);
            if e.func.contains("relative") {
                tol += links(e.func, &p) * reference_noise(e.model, &p) * p.kt();
                if e.module.ends_with("strong_potential") { tol += 1e-3 * y.abs() + 1e-5 * p.kt() * links(e.func, &p) }
            }
            if e.func.contains("distribution") { tol = 1e-6 * y.abs() + 1e-290 * s; }
            if e.model == "swfjc" && e.module.contains("isometric") && e.func == "force" { let g = p.nondimensional_end_to_end_length_per_link; tol += (1e-4 + 30.0 * swfjc_noise(&p, 3.0 * g) / (3.0 * g * g)) * y.abs() }
            if e.model == "swfjc" && e.func.contains("length") { tol += 30.0 * s * links(e.func, &p) * swfjc_noise(&p, p.nondimensional_force) / p.nondimensional_force.min(1.0) }
            if treloar(e) { tol += 50.0 * treloar_noise(p.number_of_links, p.nondimensional_end_to_end_length_per_link) * (y.abs() + if e.func.contains("distribution") { 0.0 } else { s * p.number_of_links as f64 }); }
            c.close(&short(e), x, y, tol, || p.describe(e.params));
        }
    }
    c.counters.insert("dimensional functions compared".into(), covered);
}
/// Functions that integrate numerically on every call.
pub fn slow(e: &Entry) -> bool { (e.model == "wlc" && e.module.contains("isotensional")) || (e.model.starts_with("ufjc") && e.module.contains("isotensional") && !e.module.contains("asymptotic")) || e.module == "fjc/thermodynamics/modified_canonical" }
