//! C11: the end-to-end distributions are probability densities, and the ones of their ensemble.
use crate::core::*;
use crate::domain::*;
use crate::params::*;
use crate::refs::*;
use crate::registry::*;
use crate::util::*;
use std::f64::consts::PI;
const MODULES: [(&str, &str); 5] = [("ideal/thermodynamics/isometric", "ideal"), ("fjc/thermodynamics/isometric", "fjc"), ("fjc/thermodynamics/isometric/legendre", "fjc"), ("wlc/thermodynamics/isometric", "wlc"), ("swfjc/thermodynamics/isometric/legendre", "swfjc")];
pub fn run(c: &mut Ctx) {
    c.rule = "For seeded chains of every model with an end-to-end distribution (ideal, FJC, FJC Legendre, SWFJC Legendre, WLC), through the objects, which carry the normalization: the radial distribution, dimensional and not, integrates to one over all lengths (the monitor's own Gauss-Legendre panels); the densities are finite and not negative; the radial one is 4 pi r^2 times the density; ratios of densities are Boltzmann factors of the Helmholtz free energy; the force is minus the logarithmic slope; the mean square length is the chain's. Non-trivial: finite and not zero.".into();
    c.assumptions.push("objects of the WLC and of the Legendre approximation normalize with a 64-point midpoint rule, whose own error (measured) is allowed twice over".into());
    for (m, model) in MODULES {
        let name = m.replace("thermodynamics/", "");
        let (npd, nrd, pd, rd) = (get(m, "nondimensional_equilibrium_distribution"), get(m, "nondimensional_equilibrium_radial_distribution"), get(m, "equilibrium_distribution"), get(m, "equilibrium_radial_distribution"));
        let (psi, force) = (get(m, "nondimensional_relative_helmholtz_free_energy"), get(m, "nondimensional_force"));
        let dpsi = get(m, "helmholtz_free_energy");
        let mut r = c.rng(m);
        for _ in 0..c.budget(3200, 10000) {
            let mut p = sample(m, model, &mut r);
            if model == "fjc" && !m.ends_with("legendre") && r.int(0, 2) == 0 { p.number_of_links = r.int(3, 12) as u8; p.dimensionalise(); }
            let n = p.number_of_links as f64;
            let nl = n * p.link_length;
            let well = 1.0 + p.well_width / p.link_length;
            // mean square length of one link
            let second = 0.6 * (well.powi(5) - 1.0) / (well.powi(3) - 1.0);
            let well = if model == "swfjc" { well } else { 1.0 };
            let Ok(models) = guard(|| Models::init(&p)) else { c.violate("construction", &p.describe(npd.params)); continue };
            let at = |e: &Entry, g: f64| { let q = p.with(|q| q.nondimensional_end_to_end_length_per_link = g); call(|| (e.nested)(&models, &q)) };
            let show = |g: f64| format!("{} length per link={g:?}", p.describe(npd.params));
            // normalization, over the pieces on which the density is smooth
            let cuts: Vec<f64> = match model {
                "ideal" => { let s = (1.0 / n).sqrt(); vec![0.0, s, 2.0 * s, 4.0 * s, 8.0 * s] }
                "fjc" if !m.ends_with("legendre") => { let mut v: Vec<f64> = (0..=p.number_of_links as usize / 2).map(|k| 1.0 - 2.0 * k as f64 / n).filter(|x| *x > 1e-9).collect(); v.push(0.0); v.reverse(); v }
                "fjc" => { let s = (1.0 / n).sqrt(); let mut v: Vec<f64> = vec![1e-6, 0.5 * s, s, 2.0 * s, 3.5 * s, 6.0 * s].into_iter().filter(|x| *x < 0.95).collect(); v.push(0.95); v.push(0.9985); v }
                "swfjc" => { let s = (second / n).sqrt(); let mut v: Vec<f64> = vec![0.005f64.min(0.05 * s), 0.5 * s, s, 2.0 * s, 3.5 * s, 6.0 * s].into_iter().filter(|x| *x < 0.9 * well).collect(); v.push(0.9 * well); v.push(0.99 * well); v }
                _ => (0..=20).map(|k| 1e-6 + k as f64 * (1.0 - 2e-6) / 20.0).collect(),
            };
            let whole = |f: &dyn Fn(f64) -> f64| cuts.windows(2).map(|w| quad(f, w[0], w[1], 2)).sum::<f64>();
            let one = whole(&|g| at(nrd, g));
            let dimensional = whole(&|g| at(rd, g) * nl);
            let approximate = m.ends_with("legendre") || model == "wlc";
            let slack = if approximate { 2.0 * (one - midpoint(|g| at(nrd, g), 0.0, well, 64)).abs() } else { 0.0 };
            let noise = if model == "fjc" && !m.ends_with("legendre") { 50.0 * treloar_noise(p.number_of_links, 0.03) } else { 0.0 };
            let tail = if m.ends_with("legendre") { 1e-6 + (1.0 - 0.9985f64).powf(n - 1.0) + if model == "swfjc" { 0.01f64.powf(n - 1.0) + 1e-7 + n * 100.0 * swfjc_noise(&p, 0.05) } else { 0.0 } } else { 0.0 };
            c.close(&format!("{name}: normalization"), one, 1.0, 1e-7 + slack + noise + 30.0 * tail, || show(-1.0));
            c.close(&format!("{name}: dimensional normalization"), dimensional, 1.0, 1e-7 + slack + noise + 30.0 * tail, || show(-1.0));
            // mean square end-to-end length
            let square = whole(&|g| at(nrd, g) * g * g) / one;
            match model {
                "ideal" | "fjc" if !m.ends_with("legendre") => { c.close(&format!("{name}: mean square length"), square, 1.0 / n, (1e-7 + noise) / n, || show(-1.0)); }
                "wlc" => { let k = p.nondimensional_persistance_length; c.close(&format!("{name}: mean square length"), square, 2.0 * k * (1.0 - k * (1.0 - (-1.0 / k).exp())), 0.1 * k, || show(-1.0)); }
                "swfjc" => { c.close(&format!("{name}: mean square length"), square, second / n, 2.5 * second / n / n, || show(-1.0)); }
                _ => { c.close(&format!("{name}: mean square length"), square, 1.0 / n, 2.5 / n / n, || show(-1.0)); }
            }
            // pointwise
            for _ in 0..4 {
                let (mut a, mut b) = (r.uniform(0.03, 0.95), r.uniform(0.03, 0.95));
                if model == "ideal" { a *= 4.0 / n.sqrt(); b *= 4.0 / n.sqrt(); }
                a *= well; b *= well;
                let (pa, pb) = (at(npd, a), at(npd, b));
                c.decide(&format!("{name}: finite and not negative"), pa.is_finite() && pa >= 0.0, pa > 0.0, || format!("{} density={pa:?}", show(a)));
                let ra = at(nrd, a);
                c.close(&format!("{name}: radial density"), ra, 4.0 * PI * a * a * pa, 1e-12 * ra.abs() + 1e-300, || show(a));
                let (da, dra) = (at(pd, a), at(rd, a));
                c.close(&format!("{name}: dimensional radial density"), dra, 4.0 * PI * (a * nl).powi(2) * da, 1e-12 * dra.abs() + 1e-300, || show(a));
                if pa < 1e-250 || pb < 1e-250 { continue }
                let t = |g: f64| if model == "swfjc" { n * 2.0 * swfjc_noise(&p, g) } else if model == "fjc" && !m.ends_with("legendre") { treloar_noise(p.number_of_links, g) } else { 0.0 };
                let nz = 50.0 * (t(a) + t(b));
                c.close(&format!("{name}: density is the Boltzmann factor of the free energy"), (pa / pb).ln(), at(psi, b) - at(psi, a), 1e-9 * (1.0 + pa.ln().abs() + pb.ln().abs() + at(psi, a).abs()) + nz, || format!("{} other={b:?}", show(a)));
                let big = at(dpsi, a).abs() / p.kt();
                c.close(&format!("{name}: density is the Boltzmann factor of the dimensional free energy"), (pa / pb).ln(), (at(dpsi, b) - at(dpsi, a)) / p.kt(), 1e-9 * (1.0 + pa.ln().abs() + pb.ln().abs() + big) + nz, || format!("{} other={b:?}", show(a)));
                if model == "fjc" && n < 7.0 && !m.ends_with("legendre") { continue }
                let h = 1e-3 * a.min(well - a).abs().max(1e-3 * a);
                let h = if model == "ideal" { 1e-3 * a } else { h };
                let slope = -deriv(|g| at(npd, g).ln(), a, h) / n;
                let eta = at(force, a);
                let nz = 20.0 * t(a) / h / n + 1e-14 * (1.0 + pa.ln().abs()) / h / n;
                // the Legendre distribution follows the Legendre force exactly, too
                c.close(&format!("{name}: force is the logarithmic slope"), eta, slope, 2e-6 * (eta.abs() + if model == "wlc" { 30.0 * p.nondimensional_persistance_length / n } else { 0.0 }) + 3.0 * nz + if model == "fjc" { 1e-6 / (well - a).powi(2) / n } else { 1e-7 }, || show(a));
            }
        }
    }
}
