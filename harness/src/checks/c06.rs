//! C06: isotensional conjugacy.
use crate::checks::c03::slow;
use crate::core::*;
use crate::domain::*;
use crate::registry::*;
use crate::util::*;
pub fn run(c: &mut Ctx) {
    c.rule = "In every isotensional module, minus the five-point difference quotient of the Gibbs free energy (total and per link, absolute and relative, dimensional and not: 8 functions per module) with respect to the force is compared with the end-to-end length the module returns at that force. Non-trivial: the end-to-end length is finite and not zero.".into();
    for e in ENTRIES.iter().filter(|e| e.module.contains("isotensional") && e.func.contains("gibbs")) {
        let name = e.func.replace("relative_", "").replace("gibbs_free_energy", "end_to_end_length");
        let q = get(e.module, &name);
        let mut r = c.rng(&short(e));
        let budget = c.budget(4000, 25000);
        let budget = if slow(e) { budget / 4 } else { budget };
        for _ in 0..budget {
            let mut p = sample_for(e, &mut r);
            if e.model == "swfjc" && p.nondimensional_force < 0.05 { p = p.with(|p| p.nondimensional_force *= 10.0) }
            let eta = p.nondimensional_force;
            let h = 2e-3 * eta.max(0.1);
            let g = |x: f64| val(e, &p.with(|p| p.nondimensional_force = x));
            // unit of energy over unit of force is the unit of length
            let d = -deriv(g, eta, h) / unit(e.func, &p) * unit(q.func, &p);
            let y = val(q, &p);
            let u = unit(q.func, &p) * links(q.func, &p);
            let phi = (val(e, &p) / unit(e.func, &p) / links(e.func, &p)).abs();
            let mut tol = 2e-7 * y.abs() + u * (1e-10 + 2e-15 * (phi + 20.0) / h);
            if e.model == "swfjc" { let nz = swfjc_noise(&p, eta); tol += u * (20.0 * nz / h + 30.0 * nz / eta) }
            c.close(&short(e), d, y, tol, || p.describe(e.params));
        }
    }
}
