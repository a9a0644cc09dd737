//! C04: chain quantities are the number of links times per-link quantities.
use crate::checks::c03::slow;
use crate::core::*;
use crate::domain::*;
use crate::registry::*;
use crate::util::*;
pub fn run(c: &mut Ctx) {
    c.rule = "Every function that has a per-link twin (250 pairs) is compared with the number of links times the twin at the same seeded state. For the models whose links are independent, the per-link twin is also compared between two chain lengths at the same state per link. Non-trivial: the expected value is finite and not zero.".into();
    for e in ENTRIES.iter() {
        let Some(q) = find(e.module, &format!("{}_per_link", e.func)) else { continue };
        let mut r = c.rng(&short(e));
        let budget = c.budget(4800, 30000);
        let budget = if slow(e) { budget / 4 } else { budget };
        for _ in 0..budget {
            let p = sample_for(e, &mut r);
            let n = p.number_of_links as f64;
            let (x, y) = (val(e, &p), val(q, &p) * n);
            let u = unit(e.func, &p);
            let mut tol = 1e-9 * y.abs() + 1e-11 * n * u;
            if e.func.contains("relative") { tol += n * u * 1e-9; }
            if e.module.ends_with("strong_potential") && e.func.contains("relative") { tol += 1e-6 * y.abs() }
            if e.model == "swfjc" { tol += n * u * 100.0 * swfjc_noise(&p, p.nondimensional_force.max(0.01)) }
            if e.model == "swfjc" && e.func.contains("relative") { tol += n * u * reference_noise("swfjc", &p) }
            if treloar(e) { tol += 50.0 * treloar_noise(p.number_of_links, p.nondimensional_end_to_end_length_per_link) * (y.abs() + u * n); }
            c.close(&short(e), x, y, tol, || p.describe(e.params));
            // links are independent: the same per-link value in a chain of another length
            if additive(e) {
                let m = r.int(3, 250) as u8;
                let p2 = p.with(|p| p.number_of_links = m);
                let (a, b) = (val(e, &p) / n, val(e, &p2) / m as f64);
                c.close(&format!("{} at two chain lengths", short(e)), a, b, (tol / n) * 2.0 + 1e-9 * b.abs(), || format!("{} and number_of_links={m}", p.describe(e.params)));
            }
        }
    }
}
/// Independent links: everything isotensional except the WLC, and Legendre-transformed free energies up to their kinetic term.
fn additive(e: &Entry) -> bool {
    if e.model == "wlc" || e.func.contains("distribution") { return false }
    if e.module.contains("isotensional") { return true }
    if e.module.ends_with("isometric/legendre") || e.module.contains("isometric/asymptotic") { return e.func.contains("relative_helmholtz") }
    false
}
