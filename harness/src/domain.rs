//! Where each part of the library is meant to be used: the parameter domains the monitors draw from.
use crate::core::Rng;
use crate::params::P;

pub fn lj_lambda_max() -> f64 { (13.0f64 / 7.0).powf(1.0 / 6.0) }
/// Largest nondimensional force a link can carry, per link potential.
pub fn eta_max(model: &str, p: &P) -> f64 {
    let k = p.nondimensional_link_stiffness;
    match model {
        "ufjc/lennard_jones" => { let lm = lj_lambda_max(); k / 6.0 * (lm.powi(-7) - lm.powi(-13)) }
        "ufjc/log_squared" => k / std::f64::consts::E,
        "ufjc/morse" => (k * p.nondimensional_link_energy / 8.0).sqrt(),
        _ => f64::INFINITY,
    }
}
/// Link stretch at nondimensional force eta, on the stable branch (bisection on the force law).
pub fn link_stretch(model: &str, p: &P, eta: f64) -> f64 {
    let k = p.nondimensional_link_stiffness;
    let e = p.nondimensional_link_energy;
    let (f, hi): (Box<dyn Fn(f64) -> f64>, f64) = match model {
        "ufjc/lennard_jones" => (Box::new(move |x: f64| k / 6.0 * (x.powi(-7) - x.powi(-13))), lj_lambda_max()),
        "ufjc/log_squared" => (Box::new(move |x: f64| k * x.ln() / x), std::f64::consts::E),
        "ufjc/morse" => { let a = (k / 2.0 / e).sqrt(); (Box::new(move |x: f64| 2.0 * a * e * (-a * (x - 1.0)).exp() * (1.0 - (-a * (x - 1.0)).exp())), 1.0 + 2f64.ln() / a) }
        "efjc" => return 1.0 + eta / k,
        _ => return 1.0,
    };
    let (mut a, mut b) = (1.0, hi);
    for _ in 0..200 { let m = 0.5 * (a + b); if f(m) < eta { a = m } else { b = m } }
    0.5 * (a + b)
}
pub fn langevin(x: f64) -> f64 { if x.abs() < 1e-2 { x / 3.0 - x.powi(3) / 45.0 + 2.0 * x.powi(5) / 945.0 } else { 1.0 / x.tanh() - 1.0 / x } }

/// Draws from the part of the parameter space the function is meant for: mostly the bulk,
/// and often its edges (shortest and longest chains, weak and strong loads, round values, extreme environments).
pub fn sample(module: &str, model: &str, rng: &mut Rng) -> P {
    let treloar = model == "fjc" && (module.contains("isometric") && !module.ends_with("legendre") || module.ends_with("modified_canonical") || module.ends_with("strong_potential"));
    let (n_min, n_max) = n_range(module, model);
    let mut p = P::sample_environment(rng, n_min, n_max);
    if rng.int(0, 3) == 0 {
        p.number_of_links = *rng.pick(&[n_min, n_min + 1, n_max, n_max - 1, (n_min / 2 + n_max / 2), 8.max(n_min)]);
    }
    if rng.int(0, 3) == 0 {
        p.link_length = rng.log_uniform(1e-2, 1e2);
        p.hinge_mass = rng.log_uniform(1e-3, 1e3);
        p.temperature = rng.log_uniform(2.0, 3000.0);
        p.well_width = 0.5 * p.link_length;
    }
    let low = match model { "ufjc/lennard_jones" => 40.0, "ufjc/morse" => 30.0, "ufjc/log_squared" => 25.0, _ => 12.0 };
    let low = if rng.int(0, 3) == 0 { low } else { 50.0 };
    match model {
        "efjc" => p.nondimensional_link_stiffness = if module.ends_with("isotensional") || module.ends_with("isotensional/legendre") { rng.log_uniform(4.0, 20000.0) } else { rng.log_uniform(low, 20000.0) },
        "ufjc/lennard_jones" => p.nondimensional_link_stiffness = rng.log_uniform(if module.contains("asymptotic") { low } else { 60.0 }, if module.contains("asymptotic") { 20000.0 } else { 3000.0 }),
        "ufjc/log_squared" => p.nondimensional_link_stiffness = rng.log_uniform(if module.contains("asymptotic") { low } else { 60.0 }, if module.contains("asymptotic") { 20000.0 } else { 1000.0 }),
        "ufjc/morse" => { p.nondimensional_link_stiffness = rng.log_uniform(if module.contains("asymptotic") { low } else { 80.0 }, if module.contains("asymptotic") { 20000.0 } else { 2000.0 }); p.nondimensional_link_energy = rng.log_uniform(20.0, 500.0); }
        "swfjc" => p.well_width = p.link_length * rng.log_uniform(0.02, 1.2),
        "wlc" => p.nondimensional_persistance_length = if rng.int(0, 2) == 0 { rng.uniform(0.1, 0.15) } else { rng.log_uniform(0.05, 2.5) },
        _ => {}
    }
    let em = eta_max(model, &p);
    let top: f64 = match model { "wlc" => 25.0, "ideal" => 300.0, "swfjc" => 150.0, _ => 300.0 };
    p.nondimensional_force = match rng.int(0, 9) {
        0 | 1 => rng.log_uniform(0.01, 0.1),
        2 => rng.log_uniform(20.0f64.min(0.8 * em), top.min(0.8 * em)),
        3 => *rng.pick(&[0.1, 0.5, 1.0, 2.0, 3.0, 5.0, 10.0]),
        _ => rng.log_uniform(0.05, (0.8 * em).min(45.0).min(top)),
    }.min(0.8 * em);
    p.nondimensional_end_to_end_length_per_link = match rng.int(0, 9) {
        0 | 1 => rng.log_uniform(2e-3, 0.05),
        2 => if model != "swfjc" && rng.int(0, 2) == 0 { 1.0 - rng.log_uniform(2e-3, 0.03) } else { rng.uniform(0.9, 0.97) },
        3 => *rng.pick(&[0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.8, 0.9]),
        _ => rng.uniform(0.03, 0.95),
    };
    if treloar && p.nondimensional_end_to_end_length_per_link < 0.02 { p.nondimensional_end_to_end_length_per_link = rng.uniform(0.02, 0.1); }
    if module.contains("legendre") && module.contains("isometric") {
        match model {
            "swfjc" => { p.nondimensional_end_to_end_length_per_link *= 1.0 + p.well_width / p.link_length; if rng.int(0, 9) == 0 && p.well_width / p.link_length > 0.05 { p.nondimensional_end_to_end_length_per_link = 1.0 } }
            m if m == "efjc" || m.starts_with("ufjc") => {
                // a load the link carries, mapped to the extension it causes
                let eta = match rng.int(0, 5) { 0 => rng.log_uniform(0.01, 0.1), 1 => rng.log_uniform(20f64.min(0.5 * em), (0.8 * em).min(200.0)), _ => rng.log_uniform(0.05, (0.8 * em).min(60.0)) };
                p.nondimensional_end_to_end_length_per_link = langevin(eta) + link_stretch(model, &p, eta) - 1.0;
                // round extensions, and the contour length from both sides
                if rng.int(0, 9) == 0 {
                    let g = *rng.pick(&[1.0, 1.0, 1.0, 1.0 - 1.2e-16, 1.0 + 2.3e-16, 1.0 - 1e-13, 1.0 - 1e-9, 1.0 + 1e-12, 1.0 + 1e-6, 0.5, 0.75, 0.9, 1.1, 1.2, 1.5, 2.0]);
                    let most = (0.8 * em).min(200.0);
                    if g < langevin(most) + link_stretch(model, &p, most) - 1.0 { p.nondimensional_end_to_end_length_per_link = g }
                }
            }
            _ => {}
        }
    }
    if model == "ideal" { p.nondimensional_end_to_end_length_per_link = rng.log_uniform(0.01, 3.0); }
    p.nondimensional_potential_distance = rng.uniform(0.05, 0.95);
    p.nondimensional_potential_stiffness = if module.ends_with("strong_potential") { rng.log_uniform(0.5, 50.0) } else { rng.log_uniform(0.02, 8.0) };
    if module.ends_with("weak_potential") { p.nondimensional_potential_stiffness = rng.log_uniform(0.001, 2.0) / p.number_of_links as f64; p.nondimensional_potential_distance = rng.log_uniform(0.1, 10.0); }
    p.dimensionalise();
    p
}
/// The same for one function of the public interface.
pub fn sample_for(e: &crate::registry::Entry, rng: &mut Rng) -> P {
    let mut p = sample(e.module, e.model, rng);
    // the isotensional functions of the isometric Legendre module are built on the Treloar sums
    if e.module == "fjc/thermodynamics/isometric/legendre" && e.func.contains("gibbs") {
        p.number_of_links = rng.int(5, 30) as u8;
        p.nondimensional_end_to_end_length_per_link = p.nondimensional_end_to_end_length_per_link.max(0.02);
        p.dimensionalise();
    }
    // long chains keep their digits where few terms of the Treloar sums cancel, up to where the density underflows; relative free energies refer to the unloaded chain, which has lost them
    if crate::util::treloar(e) && !e.module.contains("modified_canonical") && !e.module.ends_with("strong_potential") && !e.func.contains("relative") && rng.int(0, 3) == 0 {
        long_treloar(&mut p, rng);
        p.dimensionalise();
    }
    p
}
pub fn long_treloar(p: &mut P, rng: &mut Rng) {
    p.number_of_links = if rng.int(0, 4) == 0 { 255 } else { rng.int(31, 255) as u8 };
    let n = p.number_of_links as f64;
    let least = 0.3 + 0.35 * (1.0 - (-(n - 30.0) / 60.0).exp());
    let most = (1.0 - 2.0 * 10f64.powf(-270.0 / (n - 2.0))).min(0.99);
    p.nondimensional_end_to_end_length_per_link = rng.uniform(least, most);
}
/// Chain lengths each part is used with.  The Treloar sums need at least three links (five for smooth densities) and lose all digits to cancellation in long chains.
pub fn n_range(module: &str, model: &str) -> (u8, u8) {
    match model {
        "ideal" => (1, 255),
        "fjc" if module.contains("isometric") && !module.ends_with("legendre") => (5, 30),
        "fjc" if module.ends_with("modified_canonical") || module.ends_with("strong_potential") => (5, 25),
        "wlc" => (2, 120),
        _ => (2, 255),
    }
}
