use crate::core::*;
use crate::params::*;
use crate::registry::*;
use crate::domain::*;
use std::collections::BTreeMap;
pub fn find(module: &str, func: &str) -> Option<&'static Entry> { ENTRIES.iter().find(|q| q.module == module && q.func == func) }
pub fn deriv(f: &dyn Fn(f64) -> f64, x: f64, h: f64) -> f64 { (8.0*(f(x+h)-f(x-h)) - (f(x+2.0*h)-f(x-2.0*h)))/(12.0*h) }
pub fn run(a: &[String]) {
    let what = a[0].as_str();
    let filt = a.get(1).cloned().unwrap_or_default();
    let mut worst: BTreeMap<String, (f64, String)> = BTreeMap::new();
    let mut put = |k: String, r: f64, c: String| { let r = if r.is_nan() { f64::INFINITY } else { r }; let e = worst.entry(k).or_insert((-1.0, String::new())); if !(r <= e.0) { *e = (r, c); } };
    let mut rng = Rng::new(1, "x");
    for e in ENTRIES.iter().filter(|e| e.module.contains(&filt)) {
      for _ in 0..200 {
        let p = sample_for(e, &mut rng);
        let key = format!("{}::{}", e.module, e.func);
        match what {
          "dim" => {
            if e.func.starts_with("nondimensional") { continue }
            let q = find(e.module, &format!("nondimensional_{}", e.func)).unwrap();
            let l = p.link_length; let nl = p.number_of_links as f64 * l;
            let s = if e.func.contains("energy") { p.kt() } else if e.func.contains("radial") { 1.0/nl } else if e.func.contains("distribution") { 1.0/nl.powi(3) } else if e.func == "force" { p.kt()/l } else { l };
            let x = call(|| (e.free)(&p)); let y = call(|| (q.free)(&p)) * s;
            put(key, (x - y).abs() / (y.abs()+1e-3*s), format!("{x} {y} {}", p.describe(e.params)));
          }
          "link" => {
            let Some(q) = find(e.module, &format!("{}_per_link", e.func)) else { continue };
            let x = call(|| (e.free)(&p)); let y = call(|| (q.free)(&p)) * p.number_of_links as f64;
            put(key, (x - y).abs() / y.abs(), format!("{x} {y} {}", p.describe(e.params)));
          }
          "rel" => {
            if !e.func.contains("relative") { continue }
            let q = find(e.module, &e.func.replace("relative_", "")).unwrap();
            let mut p2 = sample_for(e, &mut rng);
            p2 = p.with(|p| { p.nondimensional_force *= rng.uniform(0.3,0.9); p.nondimensional_end_to_end_length_per_link *= rng.uniform(0.3,0.9); p.nondimensional_potential_distance *= rng.uniform(0.3,0.9); let _=&p2; });
            let x = call(|| (e.free)(&p)) - call(|| (e.free)(&p2)); let y = call(|| (q.free)(&p)) - call(|| (q.free)(&p2));
            let s = if e.func.starts_with("nond") { 1.0 } else { p.kt() };
            put(key, (x - y).abs() / (y.abs()+s), format!("{x} {y} {}", p.describe(e.params)));
          }
          "zero" => {
            if !e.func.contains("relative") || !e.func.starts_with("nond") || !e.func.ends_with("link") { continue }
            let p2 = p.with(|p| { p.nondimensional_force = 1e-3; p.nondimensional_end_to_end_length_per_link =1e-3; p.nondimensional_potential_distance =1e-3; });
            let x = call(|| (e.free)(&p2));
            put(key, x.abs(), format!("{x} {}", p2.describe(e.params)));
          }
          "conj" => {
            if e.func != "nondimensional_gibbs_free_energy_per_link" || !e.module.contains("isotensional") { continue }
            let Some(q) = find(e.module, "nondimensional_end_to_end_length_per_link") else { continue };
            let x = p.nondimensional_force;
            let y = call(|| (q.free)(&p));
            let d = -deriv(&|x| call(|| (e.free)(&p.with(|p| p.nondimensional_force = x))), x, 2e-3*x.max(0.1));
            put(key, (d - y).abs() / y.abs(), format!("fd={d} {y} {}", p.describe(e.params)));
          }
          "isom" => {
            if e.func != "nondimensional_helmholtz_free_energy_per_link" || !e.module.contains("isometric") { continue }
            let q = find(e.module, "nondimensional_force").unwrap();
            let x = p.nondimensional_end_to_end_length_per_link;
            let y = call(|| (q.free)(&p));
            let d = deriv(&|x| call(|| (e.free)(&p.with(|p| p.nondimensional_end_to_end_length_per_link = x))), x, 1e-3*x.min((1.0-x).abs()).max(0.05));
            put(key, (d - y).abs() / y.abs(), format!("fd={d} {y} {}", p.describe(e.params)));
          }
          "legt" => { // isotensional legendre: psi = phi + eta gamma
            if e.func != "nondimensional_helmholtz_free_energy_per_link" || !e.module.contains("isotensional") { continue }
            let up = e.module.trim_end_matches("/legendre");
            let g = find(up, "nondimensional_gibbs_free_energy_per_link").unwrap();
            let q = find(up, "nondimensional_end_to_end_length_per_link").unwrap();
            let x = call(|| (e.free)(&p));
            let y = call(|| (g.free)(&p)) + p.nondimensional_force*call(|| (q.free)(&p));
            put(key, (x - y).abs() / y.abs().max(1.0), format!("{x} {y} {}", p.describe(e.params)));
          }
          "legm" => { // isometric legendre: round trip
            if e.func != "nondimensional_force" || !e.module.contains("isometric") || !e.module.contains("legendre") { continue }
            let up = e.module.trim_end_matches("/legendre").replace("isometric", "isotensional");
            let g = find(&up, "nondimensional_end_to_end_length_per_link").unwrap();
            let x = call(|| (e.free)(&p));
            let y = call(|| (g.free)(&p.with(|p| p.nondimensional_force = x)));
            put(key, (y - p.nondimensional_end_to_end_length_per_link).abs() , format!("eta={x} {y} {}", p.describe(e.params)));
          }
          "legh" => { // isometric legendre helmholtz = isotensional gibbs at eta + eta gamma
            if e.func != "nondimensional_helmholtz_free_energy_per_link" || !e.module.contains("isometric") || !e.module.contains("legendre") { continue }
            let up = e.module.trim_end_matches("/legendre").replace("isometric", "isotensional");
            let f = find(e.module, "nondimensional_force").unwrap();
            let g = find(&up, "nondimensional_gibbs_free_energy_per_link").unwrap();
            let eta = call(|| (f.free)(&p));
            let x = call(|| (e.free)(&p));
            let y = call(|| (g.free)(&p.with(|p| p.nondimensional_force = eta))) + eta*p.nondimensional_end_to_end_length_per_link;
            put(key, (y - x).abs() , format!("x={x} {y} {}", p.describe(e.params)));
          }
          _ => {}
        }
      }
    }
    let mut v: Vec<_> = worst.into_iter().collect();
    v.sort_by(|a, b| b.1.0.partial_cmp(&a.1.0).unwrap());
    let lim: usize = a.get(2).map(|s| s.parse().unwrap()).unwrap_or(30);
    for (k, (r, c)) in v.iter().take(lim) { println!("{r:.2e} {} {c}", k.replace("thermodynamics/","")); }
    println!("{} lines", v.len());
}
