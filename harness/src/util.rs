//! Shared pieces of the relation checks.
use crate::core::*;
use crate::params::*;
use crate::registry::*;

pub fn find(module: &str, func: &str) -> Option<&'static Entry> { ENTRIES.iter().find(|q| q.module == module && q.func == func) }
pub fn get(module: &str, func: &str) -> &'static Entry { find(module, func).unwrap_or_else(|| panic!("no {module}::{func}")) }
/// A value of the code under test; a panic is not a number.
pub fn val(e: &Entry, p: &P) -> f64 { call(|| (e.free)(p)) }
/// Five-point central difference.
pub fn deriv(f: impl Fn(f64) -> f64, x: f64, h: f64) -> f64 { (8.0 * (f(x + h) - f(x - h)) - (f(x + 2.0 * h) - f(x - 2.0 * h))) / (12.0 * h) }
/// Dimensional unit of a quantity: what one nondimensional unit is worth.
pub fn unit(func: &str, p: &P) -> f64 {
    let nl = p.number_of_links as f64 * p.link_length;
    if func.starts_with("nondimensional") { 1.0 }
    else if func.contains("energy") { p.kt() }
    else if func.contains("radial") { 1.0 / nl }
    else if func.contains("distribution") { 1.0 / nl.powi(3) }
    else if func == "force" { p.kt() / p.link_length }
    else { p.link_length }
}
pub fn links(func: &str, p: &P) -> f64 { if func.ends_with("per_link") || !(func.contains("energy") || func.contains("length")) { 1.0 } else { p.number_of_links as f64 } }
pub fn short(e: &Entry) -> String { format!("{}::{}", e.module.replace("thermodynamics/", ""), e.func) }
/// Relative rounding error of the SWFJC partition function at small loads, where its terms cancel.
pub fn swfjc_noise(p: &P, eta: f64) -> f64 {
    let s = 1.0 + p.well_width / p.link_length;
    2e-15 + 1e-15 * 3.0 * s / ((s.powi(3) - 1.0) * eta * eta) + if eta > 1.0 { 1e-15 / (s - 1.0) } else { 0.0 }
}
/// Error left in the relative quantities of the SWFJC by the same cancellation at their reference load of 1e-6.
pub fn reference_noise(model: &str, p: &P) -> f64 {
    match model {
        "swfjc" => { let s = 1.0 + p.well_width / p.link_length; 1e-15 * 3.0 * s / ((s.powi(3) - 1.0) * 1e-12) * 10.0 + 1e-8 }
        _ => 1e-8,
    }
}
/// Relative rounding error of the Treloar sum: sum of magnitudes over the sum.
pub fn treloar_noise(n: u8, g: f64) -> f64 {
    let nn = n as f64;
    let m = 0.5 * (1.0 - g);
    let (mut s, mut a, mut c) = (0.0f64, 0.0f64, 1.0f64);
    let mut k = 0;
    while (k as f64) / nn < m && k < n as usize {
        let t = c * (m - k as f64 / nn).powi(n as i32 - 2);
        s += if k % 2 == 0 { t } else { -t };
        a += t.abs();
        c = c * (nn - k as f64) / (k as f64 + 1.0);
        k += 1;
    }
    2.2e-16 * nn * a / s.abs() + 1e-15
}
/// Built on the Treloar sums, which cancel in long chains.
pub fn treloar(e: &Entry) -> bool { e.model == "fjc" && (e.module == "fjc/thermodynamics/isometric" || (e.module == "fjc/thermodynamics/isometric/legendre" && e.func.contains("gibbs")) || e.module.ends_with("modified_canonical") || e.module.ends_with("strong_potential")) }
/// The function's value and what the rounding of its dimensionless groups may do to it; none if it panics.
/// Densities come from the object, which carries their normalization.
pub fn conditioned(e: &Entry, p: &P) -> Option<(f64, f64)> {
    let f = |q: &P| guard(|| if e.func.contains("distribution") { (e.own)(q) } else { (e.free)(q) }).ok();
    let y = f(p)?;
    let mut noise = 0.0f64;
    for t in [1.0 + 5e-16, 1.0 - 5e-16, 1.0 + 1.5e-15, 1.0 - 1.5e-15, 1.0 + 4e-15, 1.0 - 4e-15] {
        let mut q = p.clone();
        q.nondimensional_link_stiffness *= t;
        q.nondimensional_link_energy *= t;
        q.nondimensional_persistance_length *= t;
        if let Some(z) = f(&q) { if z.is_finite() { noise = noise.max((z - y).abs()) } }
    }
    if e.model == "ufjc/morse" { for (t, u) in [(1.0 + 1.5e-15, 1.0), (1.0, 1.0 + 1.5e-15), (1.0 - 4e-15, 1.0), (1.0, 1.0 - 4e-15)] {
        let mut q = p.clone();
        q.nondimensional_link_stiffness *= t;
        q.nondimensional_link_energy *= u;
        if let Some(z) = f(&q) { if z.is_finite() { noise = noise.max((z - y).abs()) } }
    } }
    Some((y, 1e-11 * y.abs() + 100.0 * noise + if e.func.contains("energy") { 3e-13 * links(e.func, p) * unit(e.func, p) } else { 1e-300 }))
}
