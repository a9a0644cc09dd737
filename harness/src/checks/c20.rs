//! C20: the model objects.
use crate::checks::c03::slow;
use crate::core::*;
use crate::domain::*;
use crate::params::*;
use crate::registry::*;
use crate::util::*;
use std::collections::BTreeMap;
pub fn run(c: &mut Ctx) {
    c.rule = "Every method (554) is called on the object of its own module and on the part nested in its model at seeded parameters, and compared with the free function given those parameters and the dimensionless groups they form; densities, whose objects carry a normalization, must keep a constant ratio to the free function. Every nested part (82) must show the parameters given to the constructor at the top. In seeded histories many methods are called on one object in random order and repeated: answers and parameters must stay what they were, bit for bit. Non-trivial: finite and not zero.".into();
    // methods against functions
    let budget = c.budget(2000, 8000);
    let (seed, id) = (c.seed, c.id.clone());
    c.parallel(ENTRIES.len(), |i, c| {
        let e = &ENTRIES[i];
        let mut r = Rng::new(seed, &format!("{id}/{}", short(e)));
        for _ in 0..if slow(e) { budget / 6 } else { budget } {
            let p = sample_for(e, &mut r);
            let Some((y, tol)) = conditioned(e, &p) else { continue };
            let m = Models::init(&p);
            let (own, nested) = (call(|| (e.own)(&p)), call(|| (e.nested)(&m, &p)));
            if y.is_nan() && own.is_nan() && nested.is_nan() { continue }
            if y.is_infinite() && own == y && nested == y { continue }
            if !e.func.contains("distribution") { c.close(&format!("{} of its own object", short(e)), own, y, tol, || p.describe(e.params)); }
            c.close(&format!("{} of the nested object", short(e)), nested, y, tol, || p.describe(e.params));
            if e.func.contains("distribution") {
                let mut q = p.clone();
                let g = r.uniform(0.3, 1.0) * q.get(e.margs[0]);
                q.set(e.margs[0], g);
                let free = |p: &P| call(|| (e.free)(p));
                let (a, b) = (free(&p) * (e.own)(&q), free(&q) * own);
                if a.abs() > 1e-280 && a.is_finite() { c.close(&format!("{} normalized by a constant", short(e)), a, b, 1e-10 * a.abs(), || format!("{} and {}={g:?}", p.describe(e.params), e.margs[0])); }
            }
        }
    });
    // parameters reach every part
    let nodes = c.budget(1200, 6000);
    c.parallel(NODES.len(), |i, c| {
        let node = &NODES[i];
        let mut r = Rng::new(seed, &format!("{id}/{}", node.module));
        for _ in 0..nodes {
            let mut p = sample(node.module, node.module.split("/thermodynamics").next().unwrap(), &mut r);
            // no two parameters alike
            p.link_stiffness *= r.uniform(0.9, 1.1); p.link_energy *= r.uniform(0.9, 1.1);
            let m = Models::init(&p);
            let seen = (node.get)(&m);
            c.decide(&format!("{} shows its parameters", node.module), seen.len() == node.fields.len() && seen.len() >= 3, true, || p.describe(node.fields));
            for (name, x) in seen { c.decide(&format!("{} {name}", node.module), x.to_bits() == p.get(name).to_bits(), true, || format!("{x:?} not {:?}; {}", p.get(name), p.describe(node.fields))); }
        }
    });
    // histories of calls on one object
    let mut models: BTreeMap<&str, Vec<&'static Entry>> = BTreeMap::new();
    for e in ENTRIES.iter() { models.entry(e.model).or_default().push(e); }
    let models: Vec<(&str, Vec<&'static Entry>)> = models.into_iter().collect();
    let rounds = c.budget(120, 400);
    c.parallel(models.len() * rounds, |i, c| {
        let (name, entries) = &models[i % models.len()];
        let mut r = Rng::new(seed, &format!("{id}/history/{name}/{}", i / models.len()));
        let p = sample_for(entries[r.int(0, entries.len() as u64 - 1) as usize], &mut r);
        let m = Models::init(&p);
        let mut first: BTreeMap<usize, Option<u64>> = BTreeMap::new();
        let mut history = String::new();
        for step in 0..300 {
            let e = if step % 3 == 2 && !first.is_empty() { let k: Vec<usize> = first.keys().copied().collect(); &ENTRIES[*r.pick(&k)] } else { *r.pick(entries) };
            if slow(e) && step % 5 != 0 { continue }
            let x = guard(|| (e.nested)(&m, &p)).ok().map(|x| x.to_bits());
            history.push_str(&format!("{} ", e.id));
            if let Some(y) = first.get(&e.id) {
                let (x, y) = (x.map(f64::from_bits), y.map(f64::from_bits));
                c.decide(&format!("{name}: the same answer again"), x.map(f64::to_bits) == y.map(f64::to_bits), x.is_some_and(|x| x.is_finite() && x != 0.0), || format!("{} {:?} first {:?} at step {step}; {} calls={history}", short(e), x, y, p.describe(e.params)));
            } else { first.insert(e.id, x); }
        }
        let fresh = Models::init(&p);
        for node in NODES.iter().filter(|n| n.module.starts_with(name)) { c.decide(&format!("{name}: parameters after the calls"), (node.get)(&m).iter().zip((node.get)(&fresh)).all(|(a, b)| a.1.to_bits() == b.1.to_bits()), true, || format!("{} {}", node.module, p.describe(node.fields))); }
        for (k, y) in &first { if slow(&ENTRIES[*k]) { continue } let x = guard(|| (ENTRIES[*k].nested)(&fresh, &p)).ok().map(|x| x.to_bits()); c.decide(&format!("{name}: a new object answers alike"), x == *y, true, || format!("{} {}", short(&ENTRIES[*k]), p.describe(ENTRIES[*k].params))); }
    });
}
