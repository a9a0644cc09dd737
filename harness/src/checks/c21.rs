//! C21: totality, determinism, concurrent use.
use crate::checks::c03::slow;
use crate::core::*;
use crate::domain::*;
use crate::params::*;
use crate::registry::*;
use crate::util::*;
/// The whole admissible range: any environment, weak and strong parameters, loads from nothing to nearly all the chain bears.
pub fn hostile(e: &Entry, r: &mut Rng) -> P {
    let mut p = sample_for(e, r);
    p.link_length = r.log_uniform(1e-4, 1e4);
    p.hinge_mass = r.log_uniform(1e-5, 1e5);
    p.temperature = r.log_uniform(1e-2, 1e5);
    p.well_width = p.link_length * r.log_uniform(1e-2, 10.0);
    let (lo, hi) = n_range(e.module, e.model);
    let (lo, hi) = if e.module == "fjc/thermodynamics/isometric/legendre" && e.func.contains("gibbs") { (5, 30) } else { (lo, hi) };
    p.number_of_links = if r.coin() { r.int(lo as u64, hi as u64) as u8 } else { *r.pick(&[lo, hi, hi - 1, lo + 1]) };
    match e.model {
        "efjc" => p.nondimensional_link_stiffness = r.log_uniform(1.0, 1e6),
        "ufjc/lennard_jones" | "ufjc/log_squared" | "ufjc/morse" => { p.nondimensional_link_stiffness = r.log_uniform(10.0, 1e5); p.nondimensional_link_energy = r.log_uniform(5.0, 1e4) }
        "wlc" => p.nondimensional_persistance_length = r.log_uniform(0.01, 5.0),
        _ => {}
    }
    let em = eta_max(e.model, &p);
    p.nondimensional_force = match r.int(0, 3) { 0 => r.log_uniform(1e-6, 0.01), 1 => r.log_uniform(50.0, 700.0), _ => r.log_uniform(0.01, 50.0) }.min(0.95 * em);
    if e.func.contains("distribution") { p.well_width = p.link_length * r.log_uniform(0.02, 1.2) }
    if e.model.starts_with("ufjc") && !e.module.contains("asymptotic") { p.nondimensional_link_stiffness = r.log_uniform(60.0, 2e4); p.nondimensional_force = p.nondimensional_force.min(0.8 * eta_max(e.model, &p)).min(250.0); }
    // sinh of the force times the longest stretch integrated over is the recorded overflow
    if e.model == "ufjc/morse" && !e.module.contains("asymptotic") { p.nondimensional_force = p.nondimensional_force.min(680.0 / (1.0 + 2f64.ln() * (2.0 * p.nondimensional_link_energy / p.nondimensional_link_stiffness).sqrt())) }
    if e.model == "swfjc" { p.nondimensional_force /= 1.5 * (1.0 + p.well_width / p.link_length) }
    p.nondimensional_end_to_end_length_per_link = match r.int(0, 4) { 0 => r.log_uniform(1e-6, 0.01), 1 => 1.0 - r.log_uniform(0.002, 0.1), 2 => *r.pick(&[0.25, 0.5, 0.75]), _ => r.uniform(0.01, 0.99) };
    if e.module.contains("isometric/") && e.model.starts_with("ufjc") {
        let eta = r.log_uniform(1e-3, (0.9 * em).min(300.0));
        p.nondimensional_end_to_end_length_per_link = langevin(eta) + link_stretch(e.model, &p, eta) - 1.0;
    }
    if e.module.ends_with("weak_potential") { p.nondimensional_potential_distance = r.log_uniform(1e-3, 100.0); p.nondimensional_potential_stiffness = r.log_uniform(1e-3, 600.0) / p.nondimensional_potential_distance / p.number_of_links as f64; }
    else { p.nondimensional_potential_distance = r.log_uniform(1e-3, 0.99); p.nondimensional_potential_stiffness = r.log_uniform(1e-3, 100.0); }
    p.dimensionalise();
    p
}
/// Eight threads ask one function the same few questions at once, each twice in a row, as a shared memo would be asked.
fn hammer(c: &mut Ctx) {
    use polymers::math;
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    let mut r = c.rng("hammer");
    type Job = (String, Box<dyn Fn(usize) -> Option<u64> + Sync>, bool);
    let mut jobs: Vec<Job> = ENTRIES.iter().map(|e| {
        let p: Vec<P> = (0..4).map(|_| sample_for(e, &mut r)).collect();
        (short(e), Box::new(move |k: usize| guard(|| (e.free)(&p[k])).map(f64::to_bits).ok()) as Box<dyn Fn(usize) -> Option<u64> + Sync>, slow(e))
    }).collect();
    let scalar: [(&str, fn(f64) -> f64, f64); 6] = [("inverse_langevin", |x| math::inverse_langevin(&x), 0.99), ("lambert_w", |x| math::lambert_w(&x), 50.0), ("erf", |x| math::erf(&x), 5.0), ("erfc", |x| math::erfc(&x), 20.0), ("erfcx", |x| math::erfcx(&x), 50.0), ("bessel_i", |x| math::bessel_i(&1, &x), 30.0)];
    for (name, f, top) in scalar {
        let x: Vec<f64> = (0..4).map(|_| r.uniform(0.01, top)).collect();
        jobs.push((format!("math::{name}"), Box::new(move |k| guard(|| f(x[k])).map(f64::to_bits).ok()), false));
    }
    let serial: Vec<Vec<Option<u64>>> = jobs.iter().map(|j| (0..4).map(|k| (j.1)(k)).collect()).collect();
    // as many calls as fit into a slice of time
    let slice = c.budget(6, 120) as f64 * 1e-3;
    let calls: Vec<usize> = jobs.iter().map(|j| { let t = std::time::Instant::now(); for k in 0..4 { (j.1)(k); } ((slice * 4.0 / t.elapsed().as_secs_f64().max(1e-7)) as usize).clamp(8, 4_000_000) }).collect();
    let (wrong, barrier, asked) = (std::sync::Mutex::new(std::collections::BTreeMap::<usize, String>::new()), std::sync::Barrier::new(8), AtomicU64::new(0));
    std::thread::scope(|s| { for t in 0..8 {
        let (jobs, serial, calls, wrong, barrier, asked) = (&jobs, &serial, &calls, &wrong, &barrier, &asked);
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || for (j, job) in jobs.iter().enumerate() {
            barrier.wait();
            for i in 0..calls[j] {
                let k = (i / 2 + t) % 4;
                let y = (job.1)(k);
                if y != serial[j][k] { wrong.lock().unwrap().entry(j).or_insert_with(|| format!("question {k}: alone {:?}, together {:?}", serial[j][k].map(f64::from_bits), y.map(f64::from_bits))); }
            }
            asked.fetch_add(calls[j] as u64, Relaxed);
            PROGRESS.fetch_add(1, Relaxed);
        }).expect("thread");
    }});
    let wrong = wrong.into_inner().unwrap();
    for (j, job) in jobs.iter().enumerate() { c.decide("eight threads ask one function at once", !wrong.contains_key(&j), true, || format!("{} {} calls by each: {}", job.0, calls[j], wrong.get(&j).map(|x| x.as_str()).unwrap_or("equal"))); }
    *c.counters.entry("calls of one function by eight threads at once".into()).or_insert(0) += asked.load(Relaxed);
}
pub fn run(c: &mut Ctx) {
    c.rule = "Every function (554), compiled with overflow checks, is called over the whole admissible range (hostile environments, weak and strong parameters, shortest and longest chains, loads from a millionth to nearly all the chain bears): it must return, in time, a finite number. Its answers are recorded and replayed: in another order, from eight threads that share one object per model and call all functions in their own shuffled orders, together with threads sampling Monte Carlo and loading shared networks; every answer must be the recorded one bit for bit. Functions are also run under Miri, single-threaded and shared between threads, which stops at undefined behavior and data races. Non-trivial: the answer is finite and not zero.".into();
    let (seed, id) = (c.seed, c.id.clone());
    // totality and replay
    let budget = c.budget(900, 20000);
    c.parallel(ENTRIES.len(), |i, c| {
        let e = &ENTRIES[i];
        let mut r = Rng::new(seed, &format!("{id}/{}", short(e)));
        let f = |p: &P| guard(|| if e.func.contains("distribution") { (e.own)(p) } else { (e.free)(p) });
        let mut recorded: Vec<(P, u64)> = vec![];
        for _ in 0..budget / if slow(e) { 10 } else { 1 } {
            let p = hostile(e, &mut r);
            let y = f(&p);
            c.decide(&format!("{} is finite", short(e)), y.as_ref().is_ok_and(|y| y.is_finite()), y.as_ref().is_ok_and(|y| *y != 0.0), || format!("{y:?} at {}", p.describe(e.params)));
            if let Ok(y) = y { if recorded.len() < 60 { recorded.push((p, y.to_bits())) } }
        }
        for (p, y) in recorded.iter().rev() {
            let x = f(p).map(|x| x.to_bits()).ok();
            c.decide(&format!("{} answers the same again", short(e)), x == Some(*y), true, || format!("{:?} then {x:?} at {}", f64::from_bits(*y), p.describe(e.params)));
        }
    });
    // what was asked before does not matter: a question that shares all arguments but one with the last one
    let budget = c.budget(6, 80);
    c.parallel(ENTRIES.len(), |i, c| {
        let e = &ENTRIES[i];
        let mut r = Rng::new(seed, &format!("{id}/history/{}", short(e)));
        let siblings: Vec<&Entry> = ENTRIES.iter().filter(|n| n.module == e.module).collect();
        let f = |p: &P| guard(|| (e.free)(p)).map(f64::to_bits).ok();
        for _ in 0..budget {
            let (base, other) = (sample_for(e, &mut r), hostile(e, &mut r));
            for name in e.params {
                let mut p = base.clone();
                let x = p.get(name);
                if *name == "number_of_links" { p.number_of_links = if p.number_of_links > n_range(e.module, e.model).0 { p.number_of_links - 1 } else { p.number_of_links + 1 } }
                else { p.set(name, x * if r.int(0, 2) == 0 { 1.0 - r.log_uniform(1e-10, 1e-3) } else { r.uniform(0.85, 0.97) }) }
                // the same two questions in both orders, each first after an unrelated one
                f(&other);
                let first_base = f(&base);
                let second_p = f(&p);
                f(&other);
                let first_p = f(&p);
                let second_base = f(&base);
                let neighbour = &siblings[r.int(0, siblings.len() as u64 - 1) as usize];
                let _ = guard(|| (neighbour.free)(&base));
                let third_p = f(&p);
                for (first, next, q, what) in [(first_p, second_p, &p, "one that differs in"), (first_base, second_base, &base, "one that differs in"), (first_p, third_p, &p, "a neighbouring function was asked with another")] {
                    c.decide(&format!("{} does not depend on the call before", short(e)), first == next, first.is_some_and(|y| y != 0), || format!("{:?} after an unrelated call, {:?} after {what} {name} alone, at {} ({name} {x:?} in the other)", first.map(f64::from_bits), next.map(f64::from_bits), q.describe(e.params)));
                }
            }
        }
    });
    hammer(c);
    // concurrent use
    let rounds = c.budget(3, 60);
    for round in 0..rounds {
        let mut r = c.rng(&format!("threads {round}"));
        let p: Vec<P> = ENTRIES.iter().map(|e| sample_for(e, &mut r)).collect();
        // one object per model, shared by all threads, at parameters that suit the model
        let names = ["ideal", "fjc", "efjc", "swfjc", "wlc", "ufjc/lennard_jones", "ufjc/log_squared", "ufjc/morse"];
        let shared: Vec<(P, Models)> = names.iter().map(|n| { let e = ENTRIES.iter().filter(|e| e.model == *n).nth(r.int(0, 9) as usize).unwrap(); let p = sample_for(e, &mut r); let m = Models::init(&p); (p, m) }).collect();
        let of = |e: &Entry| names.iter().position(|n| *n == e.model).unwrap();
        let ask = |i: usize| { let e = &ENTRIES[i]; let (q, m) = &shared[of(e)]; (guard(|| (e.free)(&p[i])).map(f64::to_bits).ok(), guard(|| (e.nested)(m, q)).map(f64::to_bits).ok()) };
        let network = Box::new(polymers::constitutive::hyperelastic::BucheSilberstein::init(3, r.log_uniform(20.0, 500.0), r.int(5, 100) as u8));
        let damaged = Box::new(polymers::constitutive::hyperelastic_damage::BucheSilberstein::init(3, r.uniform(0.7, 1.3), r.log_uniform(20.0, 500.0), r.int(5, 100) as u8, r.uniform(1.0, 1.4)));
        let history: Vec<f64> = (0..4).map(|_| r.uniform(1.0, 2.0)).collect();
        let stress = || (network.uniaxial_tension(&history[0]).to_bits(), network.equibiaxial_tension(&history[1]).to_bits(), damaged.uniaxial_tension::<4>(&history).map(|x| x.map(f64::to_bits)));
        let serial: Vec<_> = (0..ENTRIES.len()).map(ask).collect();
        let stress_serial = stress();
        let wrong = std::sync::Mutex::new(Vec::<(usize, String)>::new());
        let asked = std::sync::atomic::AtomicU64::new(0);
        let overlap = std::sync::atomic::AtomicU64::new(0);
        let inside = std::sync::atomic::AtomicU64::new(0);
        let seeds: Vec<u64> = (0..8).map(|_| r.next()).collect();
        std::thread::scope(|s| { for t in 0..8 {
            let (serial, stress_serial, wrong, asked, overlap, inside, seeds, ask, stress) = (&serial, &stress_serial, &wrong, &asked, &overlap, &inside, &seeds, &ask, &stress);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                use std::sync::atomic::Ordering::Relaxed;
                let mut r = Rng::new(seeds[t], "order");
                let mut order: Vec<usize> = (0..ENTRIES.len()).collect();
                for i in (1..order.len()).rev() { order.swap(i, r.int(0, i as u64) as usize); }
                for (k, i) in order.into_iter().enumerate() {
                    if inside.fetch_add(1, Relaxed) > 0 { overlap.fetch_add(1, Relaxed); }
                    let x = ask(i);
                    inside.fetch_sub(1, Relaxed);
                    asked.fetch_add(1, Relaxed);
                    PROGRESS.fetch_add(1, Relaxed);
                    if x != serial[i] { wrong.lock().unwrap().push((i, format!("alone {:?}, together {:?}", serial[i], x))) }
                    if k % 180 == 90 {
                        if stress() != *stress_serial { wrong.lock().unwrap().push((usize::MAX, "stress of a shared network".into())) }
                        let y = polymers::physics::single_chain::frc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<10, 6>(&1.0, 500);
                        if !y.1.iter().all(|x| x.is_finite()) { wrong.lock().unwrap().push((usize::MAX, "histogram".into())) }
                    }
                }
            }).expect("thread");
        }});
        let wrong = wrong.into_inner().unwrap();
        *c.counters.entry("calls from eight threads".into()).or_insert(0) += asked.load(std::sync::atomic::Ordering::Relaxed);
        *c.counters.entry("calls that overlapped others".into()).or_insert(0) += overlap.load(std::sync::atomic::Ordering::Relaxed);
        for i in 0..ENTRIES.len() {
            let bad: Vec<&String> = wrong.iter().filter(|w| w.0 == i).map(|w| &w.1).collect();
            c.decide("eight threads get the serial answer", bad.is_empty(), true, || format!("{} round {round}: {} {}", short(&ENTRIES[i]), bad.first().map(|x| x.as_str()).unwrap_or("equal"), p[i].describe(ENTRIES[i].params)));
        }
        c.decide("eight threads load shared networks", wrong.iter().all(|w| w.0 != usize::MAX), true, || format!("round {round} {:?}", wrong.iter().find(|w| w.0 == usize::MAX)));
    }
    // recorded limits
    use polymers::physics::single_chain as sc;
    let x = call(|| sc::fjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&750.0));
    c.probe("free-energy-overflow", !x.is_finite(), format!("relative Gibbs free energy per link of the FJC at a nondimensional force of 750 is {x:?}"));
    let x = call(|| sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&52000.0, &5.0));
    c.probe("lennard-jones-stiff-overflow", !x.is_finite(), format!("length per link of the Lennard-Jones FJC at stiffness 52000, force 5 is {x:?}"));
    // the same under an interpreter that checks every access
    match std::env::var("MIRI_RESULT") {
        Ok(path) => {
            let said = std::fs::read_to_string(&path).unwrap_or_default();
            if said.contains("Undefined Behavior") { c.violate("Miri: undefined behavior", &said.lines().filter(|l| l.contains("Undefined Behavior") || l.contains("-->")).take(3).collect::<Vec<_>>().join(" ")) }
            let lines: Vec<&str> = said.lines().filter_map(|l| l.strip_prefix("observed ")).collect();
            for l in &lines { c.decide("Miri: checked call", true, true, || l.to_string()); }
            if lines.is_empty() && !said.contains("Undefined Behavior") { c.note(format!("Miri gave no answer: {}", said.lines().rev().take(3).collect::<Vec<_>>().join(" / "))); }
        }
        Err(_) => c.note("Miri was not run"),
    }
}
