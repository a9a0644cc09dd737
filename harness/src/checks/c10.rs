//! C10: the thermodynamic functions are those of the models' partition functions.
use crate::checks::c09::hinge;
use crate::core::*;
use crate::domain::*;
use crate::params::*;
use crate::refs::*;
use crate::registry::*;
use crate::util::*;
use std::f64::consts::PI;
pub fn run(c: &mut Ctx) {
    c.rule = "Lengths, forces, free energies (absolute, relative, total, per link) and densities are compared with references the monitor computes itself: 20-point Gauss-Legendre quadrature of the one-link partition function (EFJC, SWFJC, Lennard-Jones, log-squared and Morse FJC), published closed forms of the asymptotic, alternative and reduced approximations with the link stretch found by bisection, Treloar's sum in double-double arithmetic cross-checked against a sampled Fourier transform (FJC isometric), the inverse Langevin function by bisection, and an independent transcription of Becker's distribution with its Laplace transform (WLC). Non-trivial: finite and not zero.".into();
    isotensional_models(c);
    // recorded limits
    let g = polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&1.3, &0.7, &0.01, &290.0);
    let exact = -(0.01f64.sinh() / 0.01).ln() - (8.0 * PI.powi(2) * 0.7 * 1.3 * 1.3 * KB * 290.0 / PLANCK.powi(2)).ln();
    let off = exact - g;
    c.probe("planck-constant-reduced", (off - 2.0 * (2.0 * PI).ln()).abs() < 1e-6, format!("Gibbs free energy per link over the thermal energy of an FJC (link 1.3 nm, hinge 0.7 kg/mol, force 0.01, 290 K) is {g:?}, not {exact:?}: the constant is {:?} J ns/mol, not {PLANCK:?}", polymers::physics::PLANCK_CONSTANT));
    let x = call(|| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_force(&120, &0.1));
    c.probe("treloar-cancellation", !((x - 0.2996).abs() < 0.003), format!("force of an FJC of 120 links at length per link 0.1 is {x:?}, not 0.2996"));
    let w = |eta: f64| call(|| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&40, &0.3, &eta));
    let (a, b) = (w(60.0), w(90.0));
    c.probe("wlc-isotensional-strong-force", !(b - a > 1e-3), format!("lengths per link of a WLC of 40 links and persistence 0.3 at forces 60 and 90 are {a:?} and {b:?}"));
    let l = call(|| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&5000.0, &5.0));
    c.probe("log-squared-stiff-quadrature", !((l - 0.80159312679).abs() < 1e-6), format!("length per link of a log-squared-FJC of stiffness 5000 at force 5 is {l:?}, not 0.8015931"));
    isometric_models(c);
    wlc(c);
}
fn half(p: &P) -> f64 { 0.5 * (2.0 * PI * p.link_length.powi(2) / p.nondimensional_link_stiffness).ln() }
fn isotensional_models(c: &mut Ctx) {
    let mut modules: Vec<(&str, &str)> = ENTRIES.iter().filter(|e| e.module.contains("isotensional") && !e.module.ends_with("legendre") && e.model != "wlc").map(|e| (e.module, e.model)).collect();
    modules.dedup();
    for (module, model) in modules {
        let name = module.replace("thermodynamics/", "");
        let len = get(module, "nondimensional_end_to_end_length_per_link");
        let phi = get(module, "nondimensional_gibbs_free_energy_per_link");
        let rel = get(module, "nondimensional_relative_gibbs_free_energy_per_link");
        let mut r = c.rng(module);
        let full = module.ends_with("isotensional") && model != "ideal" && model != "fjc";
        for _ in 0..if full { c.budget(2800, 15000) } else { c.budget(16000, 80000) } {
            let p = sample(module, model, &mut r);
            let Some(x) = isotensional(module, model, &p) else { c.violate("no reference", module); break };
            let noise = if model == "swfjc" { 100.0 * swfjc_noise(&p, p.nondimensional_force) } else { 0.0 };
            c.close(&format!("{name}: length"), val(len, &p), x.gamma, x.gamma_tol * 1.5 + noise / p.nondimensional_force, || p.describe(len.params));
            c.close(&format!("{name}: relative Gibbs free energy"), val(rel, &p), x.phi, 1.5 * x.phi_tol + noise + 2.0 * reference_noise(model, &p), || p.describe(rel.params));
            // absolute: configurational volume at zero load and the kinetic terms
            let k = p.nondimensional_link_stiffness;
            let mut zero_tol = 0.0;
            let zero = match (model, module.split("isotensional").nth(1).unwrap()) {
                ("ideal", _) | ("fjc", _) => 0.0,
                ("swfjc", _) => { let s = 1.0 + p.well_width / p.link_length; -((s.powi(3) - 1.0) / 3.0).ln() }
                ("efjc", "/asymptotic") => -(1.0 + 1.0 / k).ln() - half(&p),
                ("efjc", "/asymptotic/alternative") => -1.0 / k - half(&p),
                ("efjc", "/asymptotic/reduced") => -half(&p),
                ("efjc", _) => { let g = |f: &dyn Fn(f64) -> f64, a: f64, b: f64| quad(f, a, b, 40); -(link_partition(model, &p, 1e-9, &g).0 - 0.5 * (2.0 * PI / k).ln()) - half(&p) }
                (_, "") => {
                    let g = |f: &dyn Fn(f64) -> f64, a: f64, b: f64| quad(f, a, b, 40);
                    let m = |f: &dyn Fn(f64) -> f64, a: f64, b: f64| midpoint(f, if a < 1e-3 { 0.0 } else { a }, b, 64);
                    let z = link_partition(model, &p, 1e-9, &g).0;
                    zero_tol = 2.0 * (z - link_partition(model, &p, 1e-9, &m).0).abs();
                    -z - 2f64.ln()
                }
                (m, t) => {
                    let cc = match m { "ufjc/lennard_jones" => 2.0 / 23.0, "ufjc/log_squared" => 0.4, _ => 1.0 / (1.0 + 1.5 * (k / 2.0 / p.nondimensional_link_energy).sqrt()) };
                    let u0 = if m == "ufjc/lennard_jones" { -k / 72.0 } else { 0.0 };
                    u0 - half(&p) - if t == "/asymptotic" { (1.0 + 1.0 / (cc * k)).ln() } else { 0.0 }
                }
            };
            c.close(&format!("{name}: Gibbs free energy"), val(phi, &p), x.phi + zero - hinge(&p), 2.0 * x.phi_tol + 1e-9 * hinge(&p).abs() + 1e-8 + noise + zero_tol, || p.describe(phi.params));
        }
    }
}
fn isometric_models(c: &mut Ctx) {
    // ideal chain
    let m = "ideal/thermodynamics/isometric";
    let (f, psi, rel, pd, rd) = (get(m, "nondimensional_force"), get(m, "nondimensional_helmholtz_free_energy_per_link"), get(m, "nondimensional_relative_helmholtz_free_energy_per_link"), get(m, "nondimensional_equilibrium_distribution"), get(m, "nondimensional_equilibrium_radial_distribution"));
    let mut r = c.rng(m);
    for _ in 0..c.budget(16000, 80000) {
        let p = sample(m, "ideal", &mut r);
        let (g, n) = (p.nondimensional_end_to_end_length_per_link, p.number_of_links as f64);
        c.close("ideal isometric: force", val(f, &p), 3.0 * g, 1e-12 * g, || p.describe(f.params));
        c.close("ideal isometric: relative free energy", val(rel, &p), 1.5 * g * g, 1e-12 * g * g, || p.describe(rel.params));
        c.close("ideal isometric: free energy", val(psi, &p), 1.5 * g * g - hinge(&p), 1e-11 * (1.0 + g * g + hinge(&p).abs()), || p.describe(psi.params));
        let d = (1.5 * n / PI).powf(1.5) * (-1.5 * n * g * g).exp();
        if d > 1e-290 {
        c.close("ideal isometric: density", val(pd, &p), d, 1e-9 * (1.0 + n * g * g) * d, || p.describe(pd.params));
        c.close("ideal isometric: radial density", val(rd, &p), 4.0 * PI * g * g * d, 4e-9 * PI * g * g * (1.0 + n * g * g) * d, || p.describe(rd.params));
        }
    }
    // freely jointed chain, exactly
    let m = "fjc/thermodynamics/isometric";
    let (f, psi, rel, pd, rd) = (get(m, "nondimensional_force"), get(m, "nondimensional_helmholtz_free_energy_per_link"), get(m, "nondimensional_relative_helmholtz_free_energy_per_link"), get(m, "nondimensional_equilibrium_distribution"), get(m, "nondimensional_equilibrium_radial_distribution"));
    let mut r = c.rng(m);
    for i in 0..c.budget(16000, 80000) {
        let mut p = sample(m, "fjc", &mut r);
        // the shortest chains the sum is defined for, and lengths on either side of the places where it gains a term
        if i % 8 == 0 { p.number_of_links = r.int(3, 4) as u8; p.dimensionalise() }
        if i % 5 == 0 || p.number_of_links < 5 && r.unit() < 0.7 {
            let n = p.number_of_links as f64;
            let x = 1.0 - 2.0 * r.int(1, p.number_of_links as u64 / 2) as f64 / n + r.uniform(-0.05, 0.05) * 2.0 / n;
            if x > 0.03 && x < 0.98 { p = p.with(|p| p.nondimensional_end_to_end_length_per_link = x) }
        }
        let long = i % 6 == 1;
        if long { long_treloar(&mut p, &mut r); p.dimensionalise() }
        let (g, n) = (p.nondimensional_end_to_end_length_per_link, p.number_of_links as f64);
        let nz = treloar_noise(p.number_of_links, g);
        let (lnp, eta) = fjc_exact(p.number_of_links, g);
        let (ln0, _) = fjc_exact(p.number_of_links, if p.number_of_links < 7 { 1e-6 } else { 1e-5 });
        if i % 10 == 0 && p.number_of_links >= 7 {
            let four = fjc_fourier(p.number_of_links, g, 4000);
            let d = lnp.exp();
            if d > 1e-6 { c.close("reference against reference: Treloar sum and Fourier transform", d, four, 1e-6 * d + 1e-11 * n.powi(3), || p.describe(pd.params)); }
        }
        c.close("fjc isometric: density", val(pd, &p), lnp.exp(), (1e-9 + 50.0 * nz) * lnp.exp(), || p.describe(pd.params));
        c.close("fjc isometric: radial density", val(rd, &p), 4.0 * PI * g * g * lnp.exp(), 4.0 * PI * g * g * (1e-9 + 50.0 * nz) * lnp.exp(), || p.describe(rd.params));
        c.close("fjc isometric: force", val(f, &p), eta, 1e-9 * (eta.abs() + 1.0 / n / g) + 50.0 * nz * (1.0 / g / n + 1.0 / (1.0 - g)), || p.describe(f.params));
        if !long { c.close("fjc isometric: relative free energy", val(rel, &p), -(lnp - ln0) / n, 1e-8 + 1e-9 * lnp.abs() + 50.0 * nz / n + 300.0 * treloar_noise(p.number_of_links, 1e-6) / n + 1e3 * treloar_noise(p.number_of_links, 1e-6) * 1e6 * 1e-16, || p.describe(rel.params)); }
        c.close("fjc isometric: free energy", val(psi, &p), -(lnp - 3.0 * (n * p.link_length).ln()) / n - (1.0 - 1.0 / n) * hinge(&p), 1e-8 + 1e-9 * (lnp.abs() + hinge(&p).abs()) + 50.0 * nz / n, || p.describe(psi.params));
    }
    // freely jointed chain, Legendre approximation
    let m = "fjc/thermodynamics/isometric/legendre";
    let (f, psi, rel) = (get(m, "nondimensional_force"), get(m, "nondimensional_helmholtz_free_energy_per_link"), get(m, "nondimensional_relative_helmholtz_free_energy_per_link"));
    let mut r = c.rng(m);
    for _ in 0..c.budget(16000, 80000) {
        let p = sample(m, "fjc", &mut r);
        let (g, n) = (p.nondimensional_end_to_end_length_per_link, p.number_of_links as f64);
        let (eta, w) = fjc_legendre(g);
        c.close("fjc isometric Legendre: force", val(f, &p), eta, 1e-9 * eta / (1.0 - g), || p.describe(f.params));
        c.close("fjc isometric Legendre: relative free energy", val(rel, &p), w, 1e-9 * (1.0 + w) + 1e-8, || p.describe(rel.params));
        c.close("fjc isometric Legendre: free energy", val(psi, &p), w - (1.0 - 1.0 / n) * hinge(&p), 1e-9 * (1.0 + w + hinge(&p).abs()) + 1e-8, || p.describe(psi.params));
    }
}
fn wlc(c: &mut Ctx) {
    let m = "wlc/thermodynamics/isometric";
    let (f, psi, rel, pd, rd) = (get(m, "nondimensional_force"), get(m, "nondimensional_helmholtz_free_energy"), get(m, "nondimensional_relative_helmholtz_free_energy"), get(m, "nondimensional_equilibrium_distribution"), get(m, "nondimensional_equilibrium_radial_distribution"));
    let kinetic = |p: &P| (4.0 * (-1.0 / p.nondimensional_persistance_length).exp().acos().sin() * PI.powi(2) * p.hinge_mass * p.link_length.powi(2) * p.kt() / planck().powi(2)).ln();
    let mut r = c.rng(m);
    for _ in 0..c.budget(16000, 80000) {
        let p = sample(m, "wlc", &mut r);
        let (g, n, k) = (p.nondimensional_end_to_end_length_per_link, p.number_of_links as f64, p.nondimensional_persistance_length);
        let ln = wlc_ln(k, g);
        let near = 1.0 + 1e-3 / (1.0 - g).powi(2) / k;
        c.close("wlc isometric: free energy", val(psi, &p), -ln - (n - 1.0) * kinetic(&p), 1e-6 * near + 1e-9 * n * (1.0 + kinetic(&p).abs()), || p.describe(psi.params));
        c.close("wlc isometric: relative free energy", val(rel, &p), wlc_ln(k, 1e-6) - ln, 2e-6 * near, || p.describe(rel.params));
        let d = ln.exp();
        if d > 1e-290 {
            c.close("wlc isometric: density", val(pd, &p), d, 2e-6 * near * d, || p.describe(pd.params));
            c.close("wlc isometric: radial density", val(rd, &p), 4.0 * PI * g * g * d, 8e-6 * PI * g * g * near * d, || p.describe(rd.params));
        }
        let h = 2e-3 * (1.0 - g).min(g);
        let eta = -deriv(|x| wlc_ln(k, x), g, h) / n;
        c.close("wlc isometric: force", val(f, &p), eta, 3e-6 * (eta.abs() + 30.0 * k * g / n + g / n) + 1e-12 / h / n * (1.0 + ln.abs()), || p.describe(f.params));
    }
    let m = "wlc/thermodynamics/isotensional";
    let (len, phi, rel) = (get(m, "nondimensional_end_to_end_length_per_link"), get(m, "nondimensional_gibbs_free_energy_per_link"), get(m, "nondimensional_relative_gibbs_free_energy_per_link"));
    let mut r = c.rng(m);
    for _ in 0..c.budget(1600, 8000) {
        let p = sample(m, "wlc", &mut r);
        let (eta, n, k) = (p.nondimensional_force, p.number_of_links as f64, p.nondimensional_persistance_length);
        // ln Z = ln of 4 pi integral of P gamma^2 sinh(N eta gamma)/(N eta gamma)
        let lz = |eta: f64, rule: &dyn Fn(&dyn Fn(f64) -> f64) -> f64| {
            let e = |g: f64| wlc_ln(k, g) + 2.0 * g.ln() + ln_sinhc(n * eta * g);
            let top = (1..400).map(|i| e(i as f64 / 400.0)).fold(f64::NEG_INFINITY, f64::max);
            let z = rule(&|g| (e(g) - top).exp());
            let d = rule(&|g| (e(g) - top).exp() * g * langevin(n * eta * g));
            (z.ln() + top + (4.0 * PI).ln(), d / z)
        };
        let fine = |f: &dyn Fn(f64) -> f64| quad(f, 1e-6, 1.0 - 1e-12, 60);
        let mid = |f: &dyn Fn(f64) -> f64| midpoint(f, 1e-6, 1.0, 64);
        let ((z, g), (zm, gm)) = (lz(eta, &fine), lz(eta, &mid));
        let ((z0, _), (zm0, _)) = (lz(1e-6, &fine), lz(1e-6, &mid));
        c.close("wlc isotensional: length", val(len, &p), g, 1e-6 * g + 2.0 * (g - gm).abs(), || p.describe(len.params));
        c.close("wlc isotensional: relative free energy", val(rel, &p), -(z - z0) / n, 1e-6 * ((z - z0).abs() + 1.0) / n + 2.0 * (z - z0 - zm + zm0).abs() / n, || p.describe(rel.params));
        c.close("wlc isotensional: free energy", val(phi, &p), -(z + 2.0 * n.ln()) / n - kinetic(&p), 1e-6 * (z.abs() + 1.0) / n + 1e-9 * kinetic(&p).abs() + 2.0 * (z - zm).abs() / n, || p.describe(phi.params));
    }
}
