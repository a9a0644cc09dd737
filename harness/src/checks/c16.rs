//! C16: hyperelastic damage: what a loading history leaves behind.
use crate::checks::c15::{efjc_reduced, gaussian_factor};
use crate::core::*;
use polymers::constitutive::hyperelastic_damage::BucheSilberstein;
use std::f64::consts::PI;
const GRID: usize = 256;
struct Reference { method: u8, gc: f64, k: f64, n: f64, j: f64, grid: Vec<f64>, element: Vec<f64>, norm: f64 }
/// Two sums and how much of them hangs on chains within rounding of breaking.
struct Point { stress: f64, scale: f64, unsure: f64, intact: f64, unsure_intact: f64 }
impl Reference {
    fn weight(&self, g: f64) -> f64 { if self.method == 3 { gaussian_factor(self.k, self.n) * g * g } else { self.n * efjc_reduced(self.k, g.max(1e-12)).1 } }
    fn new(method: u8, gc: f64, k: f64, n: u8, j: f64) -> Reference {
        let n = n as f64;
        let grid: Vec<f64> = (0..GRID).map(|i| gc * (i + 1) as f64 / GRID as f64).collect();
        let d = gc / GRID as f64;
        let mut element = vec![0.0; GRID * GRID];
        for a in 0..GRID { for b in 0..GRID {
            let (z, r) = (grid[a], grid[b]);
            let g = z.hypot(r);
            element[a * GRID + b] = efjc_reduced(k, g).0 / g * (2.0 * z * z - r * r) * 2.0 * PI * n * r * d * d / j / j / j;
        }}
        let mut s = Reference { method, gc, k, n, j, grid, element, norm: 0.0 };
        s.norm = s.grid.iter().map(|g| g * g * (-s.weight(*g)).exp()).sum::<f64>() * 4.0 * PI * d / j;
        s
    }
    fn at(&self, s: f64, m: f64) -> Point {
        let d = self.gc / GRID as f64;
        let jc = self.j.cbrt();
        let mut p = Point { stress: 0.0, scale: 0.0, unsure: 0.0, intact: 0.0, unsure_intact: 0.0 };
        for a in 0..GRID { for b in 0..GRID {
            let (z0, r0) = (self.grid[a] / s, self.grid[b] * s.sqrt());
            // convex in the stretch: the longest the chain has been is at one end of the stretches passed
            let longest = (z0 * m).hypot(r0 / m.sqrt()).max(z0.hypot(r0));
            if longest > self.gc * (1.0 + 1e-12) { continue }
            let w = (-self.weight(z0.hypot(r0) / jc)).exp();
            let (x, y) = (self.element[a * GRID + b] * w, self.grid[b] * w);
            if longest > self.gc * (1.0 - 1e-12) { p.unsure += x.abs(); p.unsure_intact += y }
            p.stress += x; p.scale += x.abs(); p.intact += y;
        }}
        let f = 4.0 * PI * d * d / self.j / self.j / self.norm;
        p.stress /= self.norm; p.scale /= self.norm; p.unsure /= self.norm; p.intact *= f; p.unsure_intact *= f;
        p
    }
}
const L: usize = 10;
fn history(r: &mut Rng, top: f64) -> [f64; L] {
    let mut h = [1.0; L];
    match r.int(0, 6) {
        0 => for x in h.iter_mut() { *x = r.uniform(1.0, top) },
        1 => { let mut x = 1.0; for y in h.iter_mut() { x = (x + r.uniform(-0.4, 0.6) * (top - 1.0)).clamp(1.0, top); *y = x } }
        // growing cycles
        2 => for i in 0..L { h[i] = if i % 2 == 0 { 1.0 + (top - 1.0) * (i + 2) as f64 / (L + 1) as f64 } else { 1.0 + (top - 1.0) * (i as f64 / L as f64) * r.unit() } },
        // one early spike
        3 => { for x in h.iter_mut() { *x = r.uniform(1.0, 1.0 + 0.6 * (top - 1.0)) } h[r.int(0, 4) as usize] = top }
        // up, down, up again through the same stretches
        4 => for i in 0..L { let q = [1.0, 0.3, 0.6, 1.0, 0.6, 0.3, 0.0, 0.6, 1.0, 0.7][i]; h[i] = 1.0 + q * (top - 1.0) },
        // held, and taken back or pushed on by very little
        5 => { h[0] = r.uniform(1.0, top); for i in 1..L { h[i] = match r.int(0, 3) { 0 => h[i - 1], 1 => (h[i - 1] - r.log_uniform(1e-9, 0.02)).max(1.0), 2 => h[i - 1] + r.log_uniform(1e-9, 0.02), _ => r.uniform(1.0, top) } } }
        _ => { h[0] = top; for i in 1..L { h[i] = h[i - 1] - (top - 1.0) / L as f64 * r.unit() } }
    }
    h
}
pub fn run(c: &mut Ctx) {
    c.rule = "Networks of seeded chain length, link stiffness, critical extension and swelling, driven through seeded loading histories (random, walks, growing cycles, early spikes, reloading, unloading): stress and intact fraction at every step against the documented integrals on the documented grid with the damage the history has done; prefixes of a history answer as the history did; only the largest stretch so far matters; reloading retraces; intact fraction never grows; virgin networks are whole at any swelling; unbreakable networks are the hyperelastic ones. Non-trivial: finite and not zero.".into();
    c.assumptions.push("the library's 256 by 256 grid is part of its documented behaviour: the direct comparison uses the same grid; chains within 1e-12 of breaking may count either way".into());
    let (budget, seed) = (c.budget(16, 480), c.seed);
    c.parallel(budget, |i, c| {
        let mut r = Rng::new(seed, &format!("C16/{i}"));
        let method = if i % 3 == 0 { 2u8 } else { 3 };
        let n = if r.int(0, 3) == 0 { *r.pick(&[2u8, 5, 8, 25, 100, 255]) } else { r.int(3, 100) as u8 };
        let k = if r.int(0, 3) == 0 { *r.pick(&[5.0, 50.0, 200.0, 1000.0]) } else { r.log_uniform(4.0, 6000.0) };
        let gc = if r.int(0, 3) == 0 { *r.pick(&[0.9, 1.0, 1.1, 1.2]) } else { r.uniform(0.4, 1.6) };
        let j = if r.coin() { 1.0 } else { r.log_uniform(1.0, 12.0) };
        let show = |h: &[f64]| format!("method={method} critical={gc:?} stiffness={k:?} links={n} swelling={j:?} history={h:?}");
        let Ok(b) = guard(|| Box::new(BucheSilberstein::init(method, gc, k, n, j))) else { c.decide("construction", false, true, || show(&[])); return };
        let q = Reference::new(method, gc, k, n, j);
        c.decide("remembers its parameters", b.number_of_links == n && b.nondimensional_link_stiffness == k && b.nondimensional_critical_extension == gc && b.swelling_ratio == j, true, || show(&[]));
        let Ok([virgin]) = guard(|| b.uniaxial_tension::<1>(&[1.0])) else { c.decide("virgin", false, true, || show(&[1.0])); return };
        // whole, where the grid resolves the chains and the critical extension is beyond nearly all of them
        let a = gaussian_factor(k, n as f64);
        let (cells, reach) = ((0.5 / a).sqrt() * j.cbrt() / gc * GRID as f64, gc * gc * a / j.powf(2.0 / 3.0));
        if method == 3 && cells > 8.0 && reach > 20.0 { c.close("virgin networks are whole", virgin[1], 1.0, 0.6 / cells + 1e-3, || show(&[1.0])); }
        for t in 0..if method == 2 { 1 } else { 2 } {
            // how far before everything breaks
            let top = if t == 0 { r.uniform(1.05, 1.0 + 3.0 * gc) } else { r.log_uniform(1.01, 8.0) };
            let h = history(&mut r, top);
            let Ok(y) = guard(|| b.uniaxial_tension::<L>(&h)) else { c.decide("history", false, true, || show(&h)); continue };
            let mut m: f64 = 1.0;
            let mut least = f64::INFINITY;
            for s in 0..L {
                m = m.max(h[s]);
                let p = q.at(h[s], m);
                let loaded = if h[s] == m { "at the front" } else { "below the maximum" };
                c.close(&format!("method {method}: stress {loaded}"), y[s][0], p.stress, 1e-8 * p.scale + 2.0 * p.unsure + 1e-13, || show(&h[..s + 1]));
                c.close(&format!("method {method}: intact fraction {loaded}"), y[s][1], p.intact, 1e-8 * p.intact + 2.0 * p.unsure_intact + 1e-14, || show(&h[..s + 1]));
                c.decide("intact fraction is a fraction", y[s][1] >= 0.0 && y[s][1] <= 1.0 + 0.6 / cells.min(1.0), true, || format!("{} intact={:?}", show(&h[..s + 1]), y[s][1]));
                least = least.min(y[s][1]);
            }
            // a long history: the short one, then many small cycles below or through its maximum
            if t == 0 && method == 3 && i % 6 == 1 {
                const M: usize = 70;
                let top = h.iter().cloned().fold(1.0, f64::max) * if r.coin() { 1.0 } else { 1.05 };
                let long: [f64; M] = std::array::from_fn(|s| if s < L { h[s] } else { r.uniform(1.0, top) });
                if let Ok(y) = guard(|| b.uniaxial_tension::<M>(&long)) {
                    let mut m: f64 = 1.0;
                    for s in 0..M {
                        m = m.max(long[s]);
                        let p = q.at(long[s], m);
                        c.close("long histories: stress", y[s][0], p.stress, 1e-8 * p.scale + 2.0 * p.unsure + 1e-13, || show(&long[..s + 1]));
                        c.close("long histories: intact fraction", y[s][1], p.intact, 1e-8 * p.intact + 2.0 * p.unsure_intact + 1e-14, || show(&long[..s + 1]));
                    }
                } else { c.decide("long histories", false, true, || show(&long)) }
            }
            // causality: a prefix of the history
            let Ok(z) = guard(|| b.uniaxial_tension::<4>(&h[..4])) else { c.decide("prefix", false, true, || show(&h[..4])); continue };
            c.decide("the past does not know the future", z[..] == y[..4], true, || format!("{} {z:?} {:?}", show(&h[..4]), &y[..4]));
            // only the maximum matters
            let mm = h.iter().cloned().fold(1.0, f64::max);
            let Ok(z) = guard(|| b.uniaxial_tension::<2>(&[mm, h[L - 1]])) else { c.decide("pair", false, true, || show(&h)); continue };
            c.close("only the largest stretch so far matters: stress", z[1][0], y[L - 1][0], 1e-9 * z[1][0].abs(), || show(&h));
            c.close("only the largest stretch so far matters: intact", z[1][1], y[L - 1][1], 1e-9 * z[1][1].abs(), || show(&h));
            // the same history again
            let Ok(w) = guard(|| b.uniaxial_tension::<L>(&h)) else { c.decide("again", false, true, || show(&h)); continue };
            c.decide("a new history starts undamaged", w == y, true, || format!("{} {w:?} {y:?}", show(&h)));
            // more damage, never less, at one stretch; reloading retraces; past the maximum the virgin curve
            let s = r.uniform(1.0, mm);
            let Ok(z) = guard(|| b.uniaxial_tension::<7>(&[s, mm, s, mm, mm * 1.1, s, mm * 1.3])) else { c.decide("reload", false, true, || show(&h)); continue };
            c.decide("intact fraction never grows at one stretch", z[2][1] <= z[0][1] * (1.0 + 1e-9) && z[5][1] <= z[2][1] * (1.0 + 1e-9) && z[4][1].is_finite(), z[2][1] != z[0][1], || format!("{} s={s:?} m={mm:?} {z:?}", show(&h)));
            c.decide("reloading retraces", z[3] == z[1], true, || format!("{} s={s:?} m={mm:?} {z:?}", show(&h)));
            let Ok([v]) = guard(|| b.uniaxial_tension::<1>(&[mm * 1.3])) else { continue };
            c.decide("past the maximum the virgin curve", v == z[6], true, || format!("{} s={s:?} m={mm:?} {z:?} {v:?}", show(&h)));
        }
        for bad in [0.999, 0.5, 0.0, -1.0, f64::NAN] {
            let o = guard(|| b.uniaxial_tension::<2>(&[1.2, bad]));
            c.decide("stretches below one are refused", o.is_err(), true, || format!("{} {o:?}", show(&[1.2, bad])));
        }
    });
    // unbreakable networks: the hyperelastic model, up to both grids
    let budget = c.budget(6, 60);
    c.parallel(budget, |i, c| {
        let mut r = Rng::new(seed, &format!("C16/limit/{i}"));
        let method = if i % 3 == 0 { 2u8 } else { 3 };
        let (n, k, gc) = (r.int(6, 20) as u8, r.uniform(30.0, 80.0), 2.2);
        let Ok(b) = guard(|| Box::new(BucheSilberstein::init(method, gc, k, n, 1.0))) else { return };
        let Ok(e) = guard(|| Box::new(polymers::constitutive::hyperelastic::BucheSilberstein::init(method, k, n))) else { return };
        for _ in 0..2 {
            let s = r.uniform(1.0, 1.8);
            let (x, y) = (guard(|| b.uniaxial_tension::<1>(&[s])).map(|x| x[0][0]).unwrap_or(f64::NAN), call(|| e.uniaxial_tension(&s)));
            c.close(&format!("method {method}: unbreakable is hyperelastic"), x, y, 0.05 * (s * s) + 0.05, || format!("method={method} critical={gc} stiffness={k:?} links={n} stretch={s:?}"));
        }
    });
    for m in [0u8, 1, 4, 255] {
        let o = guard(|| { let b = Box::new(BucheSilberstein::init(m, 1.2, 50.0, 8, 1.0)); b.uniaxial_tension::<1>(&[1.5]) });
        c.decide("unimplemented methods are refused", o.is_err(), true, || format!("method={m}: {o:?}"));
    }
}
