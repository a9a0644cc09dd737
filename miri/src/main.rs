//! Runs under Miri, which stops at the first undefined behavior.
//! "arrays": the two C functions that take arrays.  "all": one call of every function of the public interface.
#![allow(dead_code, unused_variables)]
#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/params.rs"]
mod params;
#[path = "../../harness/src/registry.rs"]
mod registry;
#[path = "../../harness/src/domain.rs"]
mod domain;
extern "C" {
    fn constitutive_hyperelastic_buche_silberstein_uniaxial_tension(element: *const f64, factor: f64, grid: *const f64, normalization: f64, method: u8, stiffness: f64, links: u8, stretch: f64) -> f64;
    fn constitutive_hyperelastic_buche_silberstein_equibiaxial_tension(element: *const f64, factor: f64, grid: *const f64, normalization: f64, method: u8, stiffness: f64, links: u8, stretch: f64) -> f64;
}
fn main() {
    let what = std::env::args().nth(1).unwrap_or_default();
    let seed = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    if what == "arrays" {
        let element = vec![1e-3f64; 65536];
        let grid: Vec<f64> = (0..256).map(|i| ((i as f64 + 1.0) / 257.0).atanh()).collect();
        let x = unsafe { constitutive_hyperelastic_buche_silberstein_uniaxial_tension(element.as_ptr(), 10.0, grid.as_ptr(), 1.0, 3, 50.0, 8, 1.2) };
        println!("observed uniaxial tension {x:?}");
        let x = unsafe { constitutive_hyperelastic_buche_silberstein_equibiaxial_tension(element.as_ptr(), 10.0, grid.as_ptr(), 1.0, 3, 50.0, 8, 1.2) };
        println!("observed equibiaxial tension {x:?}");
        assert!(element.iter().all(|x| *x == 1e-3) && grid[0] < grid[255]);
    } else {
        let mut r = core::Rng::new(seed, "miri");
        for e in registry::ENTRIES.iter() {
            if e.model == "wlc" && e.module.contains("isotensional") || e.model.starts_with("ufjc") && e.module.contains("isotensional") && !e.module.contains("asymptotic") || e.module == "fjc/thermodynamics/modified_canonical" { continue }
            let mut p = domain::sample_for(e, &mut r);
            let x = (e.free)(&p);
            println!("observed {}::{} {x:?}", e.module, e.func);
        }
        // one object per model shared by threads: a data race would stop the run
        let p = domain::sample_for(registry::ENTRIES.iter().find(|e| e.model == "efjc").unwrap(), &mut r);
        let m = registry::Models { ideal: polymers::physics::single_chain::ideal::Ideal::init(8, 1.0, 1.0), ..registry::Models::init(&p) };
        let done = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|s| for t in 0..3 {
            let (m, p, done) = (&m, &p, &done);
            s.spawn(move || for e in registry::ENTRIES.iter().filter(|e| (e.model == "efjc" || e.model == "ideal") && e.id % 3 != t) { (e.nested)(m, p); done.fetch_add(1, std::sync::atomic::Ordering::Relaxed); });
        });
        println!("observed {} calls on objects shared by three threads", done.into_inner());
    }
}
