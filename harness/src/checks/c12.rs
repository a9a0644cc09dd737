//! C12: response curves rise, stay within their physical bounds, and order with the chain's stiffness.
use crate::checks::c03::slow;
use crate::core::*;
use crate::domain::*;
use crate::params::*;
use crate::registry::*;
use crate::util::*;
pub fn run(c: &mut Ctx) {
    c.rule = "Pairs of seeded states that differ in one quantity: a larger force gives a larger end-to-end length and a lower relative Gibbs free energy, a larger length a larger force and a higher relative Helmholtz free energy (stability), with separations from a part in ten thousand to the whole range; lengths lie between zero and the stretched contour length; the response is proportional to small loads; free energies are zero at rest, negative (Gibbs) and positive (Helmholtz) under load and lie within the product of force and length; stiffer links, narrower wells and less persistent chains stretch less at equal force. Non-trivial: the two states differ by more than the rounding noise.".into();
    for e in ENTRIES.iter().filter(|e| (e.module.contains("isotensional") && e.func.contains("length") || e.module.contains("isometric") && (e.func == "force" || e.func == "nondimensional_force"))) {
        let isotensional = e.module.contains("isotensional");
        let en = if isotensional { "nondimensional_relative_gibbs_free_energy_per_link" } else if e.model == "wlc" { "nondimensional_relative_helmholtz_free_energy" } else { "nondimensional_relative_helmholtz_free_energy_per_link" };
        let energy = get(e.module, en);
        let mut r = c.rng(&short(e));
        // small loads: the response is proportional to the load
        let lossy = isotensional && !e.module.contains("asymptotic") && !e.module.ends_with("legendre") && (e.model.starts_with("ufjc") || e.model == "efjc" || e.model == "wlc");
        for _ in 0..c.budget(800, 4000) {
            let mut p = sample(e.module, e.model, &mut r);
            // (near a quarter of the contour length the compliance of a held WLC passes through zero)
            if e.model == "wlc" && !isotensional { p.nondimensional_persistance_length = r.log_uniform(0.05, 0.2); p.dimensionalise(); }
            if treloar(e) && p.number_of_links < 8 { continue }
            // the curvature of the response: of order one per link, but a persistent chain turns as one long link
            let curve = if e.model == "wlc" { let m = p.number_of_links as f64 * p.nondimensional_persistance_length.min(1.0); 3.0 + if isotensional { m * m } else { 3.0 / p.nondimensional_persistance_length.min(1.0).powi(2) } } else { 3.0 };
            let (lo, hi) = if e.model == "swfjc" && isotensional || treloar(e) { (0.02, 0.04) } else if lossy { (5e-3, 0.02) } else if e.model == "wlc" { (1e-3, 0.02) } else { (1e-5, 0.02) };
            let x = r.log_uniform(lo, hi);
            let y = r.log_uniform(lo, hi);
            let at = |x: f64| val(e, &p.with(|p| if isotensional { p.nondimensional_force = x } else { p.nondimensional_end_to_end_length_per_link = x })) / unit(e.func, &p) / links(e.func, &p);
            let (a, b) = (at(x) / x, at(y) / y);
            let cancel = match e.model { "wlc" => 2e-11, _ => 4e-15 };
            let n = if treloar(e) { 60.0 * (treloar_noise(p.number_of_links, x) / x / x + treloar_noise(p.number_of_links, y) / y / y) } else { 0.0 };
            let n = n + if e.model == "swfjc" { let (u, v) = if isotensional { (x, y) } else { (3.0 * x.max(9.9e-4), 3.0 * y.max(9.9e-4)) }; 100.0 * (swfjc_noise(&p, u) / u / u + swfjc_noise(&p, v) / v / v) } else { 0.0 };
            let n = n + if e.model.starts_with("ufjc") { if isotensional { 3e-5 } else { 3e-4 } } else { 0.0 };
            c.close(&format!("{} is proportional to small loads", short(e)), a, b, b.abs() * (1.5 * curve * x.max(y).powi(2) + cancel * (x.powi(-2) + y.powi(-2)) + n), || format!("{} | at {x:?} and {y:?}", p.describe(e.params)));
        }
        let budget = c.budget(6000, 40000);
        for _ in 0..if slow(e) { budget / 5 } else { budget } {
            let mut p = sample(e.module, e.model, &mut r);
            if e.model == "wlc" && !isotensional { p.nondimensional_persistance_length = r.log_uniform(0.05, 0.2); p.dimensionalise(); }
            let x = if isotensional { p.nondimensional_force } else { p.nondimensional_end_to_end_length_per_link };
            let em = 0.8 * eta_max(e.model, &p);
            let top = if isotensional { em.min(if e.model == "wlc" { 30.0 } else { 300.0 }) } else { match e.model { "ideal" => 10.0, "swfjc" => 0.985 * (1.0 + p.well_width / p.link_length), m if m.starts_with("ufjc") || m == "efjc" => langevin(em.min(200.0)) + link_stretch(m, &p, em.min(200.0)) - 1.0, _ => 0.97 } };
            if x >= top * (1.0 - 2e-4) { continue }
            let y = x + (top - x) * r.log_uniform(1e-4, 1.0);
            let at = |x: f64| p.with(|p| if isotensional { p.nondimensional_force = x } else { p.nondimensional_end_to_end_length_per_link = x });
            let (a, b) = (at(x), at(y));
            let u = unit(e.func, &p) * links(e.func, &p);
            let (va, vb) = (val(e, &a) / u, val(e, &b) / u);
            let mut noise = 1e-9 * va.abs() + 1e-11;
            let mut en_noise = reference_noise(e.model, &p) + 1e-9;
            if e.model == "swfjc" { noise += 40.0 * (swfjc_noise(&p, x.min(1.0)) + swfjc_noise(&p, y.min(1.0))) / x.min(1.0) + if isotensional { 0.0 } else { 1e-6 * vb.abs() } }
            if treloar(e) { let nz = 60.0 * (treloar_noise(p.number_of_links, x) + treloar_noise(p.number_of_links, y)); noise += nz * (va.abs() + vb.abs() + 10.0); en_noise += nz; en_noise += 400.0 * treloar_noise(p.number_of_links, 1e-6); }
            if e.model == "wlc" { noise += 1e-6 * vb.abs(); en_noise += 1e-6 }
            c.decide(&format!("{} rises", short(e)), vb > va - noise, vb - va > noise, || format!("{} | at {x:?}: {va:?}, at {y:?}: {vb:?}", p.describe(e.params)));
            c.decide(&format!("{} is not negative", short(e)), va > -noise && va.is_finite() && vb.is_finite(), va > noise, || format!("{} | at {x:?}: {va:?}", p.describe(e.params)));
            let (ea, eb) = (val(energy, &a), val(energy, &b));
            if isotensional {
                let bound = match e.model { "ideal" => f64::INFINITY, "swfjc" => 1.0 + p.well_width / p.link_length, "fjc" | "wlc" => 1.0, m => { let s = |y: f64| link_stretch(m, &p, y); let soft = (3.0 / p.nondimensional_link_stiffness).max(6.0 * (s(1.001 * y) - s(0.999 * y)) / (0.002 * y)); s(y) * (1.0 + soft) + soft } };
                c.decide(&format!("{} stays within the contour length", short(e)), vb <= bound + noise, true, || format!("{} | at {y:?}: {vb:?} bound {bound:?}", p.describe(e.params)));
                c.decide(&format!("{} relative Gibbs free energy falls", e.module), eb < ea + en_noise && ea < en_noise, ea - eb > en_noise, || format!("{} | at {x:?}: {ea:?}, at {y:?}: {eb:?}", p.describe(energy.params)));
                c.decide(&format!("{} Gibbs free energy is concave", e.module), ea - eb >= va * (y - x) - en_noise - noise * y - 1e-9 * ea.abs() && ea - eb <= vb * (y - x) + en_noise + noise * y + 1e-9 * ea.abs(), true, || format!("{} | energies {ea:?} {eb:?} at {x:?} {y:?} lengths {va:?} {vb:?}", p.describe(energy.params)));
            } else {
                let f = if e.model == "wlc" { p.number_of_links as f64 } else { 1.0 };
                c.decide(&format!("{} relative Helmholtz free energy rises", e.module), eb > ea - en_noise && ea > -en_noise, eb - ea > en_noise, || format!("{} | at {x:?}: {ea:?}, at {y:?}: {eb:?}", p.describe(energy.params)));
                c.decide(&format!("{} Helmholtz free energy is convex", e.module), eb - ea >= f * va * (y - x) - en_noise - f * noise * y - 1e-9 * ea.abs() - 1e-6 * f * va * (y - x) && eb - ea <= f * vb * (y - x) * (1.0 + 1e-6) + en_noise + f * noise * y + 1e-9 * eb.abs(), true, || format!("{} | energies {ea:?} {eb:?} at {x:?} {y:?} forces {va:?} {vb:?}", p.describe(energy.params)));
            }
            // comparative statics, at equal force (not for the ufjc partition functions cut at the link's limit, which need not obey it)
            if e.model.starts_with("ufjc") && !e.module.contains("asymptotic") { continue }
            if !isotensional || e.module.ends_with("legendre") || !e.func.starts_with("nondimensional") || !e.func.ends_with("per_link") { continue }
            let softer = match e.model {
                "swfjc" => p.with(|q| q.well_width = p.well_width * r.uniform(1.01, 1.5)),
                "wlc" => p.with(|q| q.nondimensional_persistance_length = p.nondimensional_persistance_length * r.uniform(1.01, 1.5)),
                "fjc" | "ideal" => continue,
                _ => { let s = r.uniform(0.85, 0.99); p.with(|q| { q.nondimensional_link_stiffness *= s; q.nondimensional_link_energy *= s; }) }
            };
            let vs = val(e, &softer);
            if e.model != "swfjc" && e.model != "wlc" && x > 0.75 * eta_max(e.model, &softer) { continue }
            let noise = noise + if e.model == "swfjc" { 40.0 * swfjc_noise(&softer, x.min(1.0)) / x.min(1.0) } else { 0.0 };
            c.decide(&format!("{} grows with softer or more persistent chains", short(e)), vs > va - noise, vs - va > noise, || format!("{} | {va:?}, softer {vs:?}", p.describe(e.params)));
        }
    }
    // a recorded limit
    use polymers::physics::single_chain as sc;
    let ratio = |f: &dyn Fn(f64) -> f64| call(|| f(1e-6)) * 1e4 / call(|| f(1e-2));
    let ratios = [
        ratio(&|x| sc::efjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&80.0, &x)),
        ratio(&|x| sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&80.0, &x)),
        ratio(&|x| sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&80.0, &x)),
        ratio(&|x| sc::ufjc::morse::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&80.0, &40.0, &x)),
        ratio(&|x| sc::wlc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&8, &0.3, &x)),
    ];
    c.probe("small-force-cancellation", ratios.iter().any(|r| !((r - 1.0).abs() < 0.02)), format!("length per link over force at force 1e-6, relative to force 0.01, for EFJC, Lennard-Jones, log-squared and Morse (stiffness 80) and WLC: {ratios:?}"));
}
