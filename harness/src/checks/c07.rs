//! C07: isometric conjugacy.
use crate::core::*;
use crate::domain::*;
use crate::registry::*;
use crate::util::*;
pub fn run(c: &mut Ctx) {
    c.rule = "In every isometric module, the five-point difference quotient of the Helmholtz free energy (total and per link, absolute and relative, dimensional and not) with respect to the end-to-end length is compared with the force the module returns at that length. Non-trivial: the force is finite and not zero.".into();
    for e in ENTRIES.iter().filter(|e| e.module.contains("isometric") && e.func.contains("helmholtz")) {
        let q = get(e.module, if e.func.starts_with("nondimensional") { "nondimensional_force" } else { "force" });
        let mut r = c.rng(&short(e));
        let ufjc = e.model.starts_with("ufjc");
        for _ in 0..c.budget(4000, 25000) {
            let mut p = sample_for(e, &mut r);
            if e.model == "swfjc" && p.nondimensional_end_to_end_length_per_link < 0.02 { p = p.with(|p| p.nondimensional_end_to_end_length_per_link *= 10.0) }
            let g = p.nondimensional_end_to_end_length_per_link;
            let mut h = 1e-3 * g.max(0.05);
            if !ufjc && e.model != "ideal" { let top = if e.model == "swfjc" { 1.0 + p.well_width / p.link_length } else { 1.0 }; if g < top { h = h.min(0.008 * (top - g)) } }
            if e.model == "efjc" { h = h.min(0.04 / p.nondimensional_link_stiffness.sqrt()) }
            // a short freely-jointed chain: its distribution is a spline, so the stencil must not straddle a knot
            let mut g = g;
            if treloar(e) && p.number_of_links <= 7 {
                let knot = |k: usize| 1.0 - 2.0 * k as f64 / p.number_of_links as f64;
                if let Some(k) = (0..=p.number_of_links as usize).map(knot).find(|k| (g - k).abs() < 2.0 * h) { g = k + if g < k && k > 4.0 * h { -2.5 * h } else { 2.5 * h } }
                p = p.with(|p| p.nondimensional_end_to_end_length_per_link = g);
            }
            let at = |x: f64| p.with(|p| p.nondimensional_end_to_end_length_per_link = x);
            let psi = |x: f64| val(e, &at(x));
            let u = unit(q.func, &p);
            let d = deriv(psi, g, h) / unit(e.func, &p) / links(e.func, &p) * u;
            let y = val(q, &p);
            let stiff = deriv(|x| val(q, &at(x)), g, h);
            let size = (val(e, &p) / unit(e.func, &p) / links(e.func, &p)).abs();
            let mut tol = 3e-7 * y.abs() + u * (1e-9 + 3e-15 * (size + 20.0) / h);
            if ufjc || e.model == "efjc" || e.model == "swfjc" { tol += 4e-6 * stiff.abs() * if ufjc { 1.0 } else { 1e-2 } }
            if e.model == "swfjc" { tol += u * (1e-5 + 20.0 * swfjc_noise(&p, (3.0 * g).min(3.0)) / h) }
            // a stiff chain: the exponents of its distribution grow with the persistence length, and with them the rounding and the curvature of the force
            if e.model == "wlc" { let z = p.nondimensional_persistance_length; tol += u * z * (1e-13 / h + 4e-9 / (1.0 - g).powi(2)) }
            if treloar(e) { let nz = treloar_noise(p.number_of_links, g); tol += u * 30.0 * nz * (1.0 / h / p.number_of_links as f64 + 1.0 / g / g + p.number_of_links as f64) }
            c.close(&short(e), d, y, tol, || p.describe(e.params));
        }
    }
}
