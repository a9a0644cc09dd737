//! C17: Monte Carlo sampling of chain configurations.
use crate::core::*;
use crate::refs::*;
use polymers::physics::single_chain::{efjc, efrc, fjc, frc};
use rand_distr::Normal;
use std::collections::BTreeMap;
/// Mean of independent samples against what it should be.  Seven standard errors.
const SIGMAS: f64 = 7.0;
#[derive(Default, Clone, Copy)]
struct Mean { n: f64, s: f64, q: f64 }
impl Mean { fn add(&mut self, x: f64) { self.n += 1.0; self.s += x; self.q += x * x; } fn mean(&self) -> f64 { self.s / self.n } fn error(&self) -> f64 { ((self.q / self.n - self.mean().powi(2)).max(0.0) / self.n).sqrt() } }
#[derive(Default)]
struct Means { m: BTreeMap<String, (Mean, f64)> }
impl Means {
    fn add(&mut self, what: String, x: f64, expected: f64) { let e = self.m.entry(what).or_insert((Mean::default(), expected)); e.0.add(x); }
    fn decide(&self, c: &mut Log, name: &str, case: &str) {
        for (k, (m, e)) in &self.m { let class = k.split(" #").next().unwrap(); c.close(&format!("{name}: {class}"), m.mean(), *e, SIGMAS * m.error() + 1e-9 + 3.0 / m.n, || format!("{case} {k} samples={}", m.n)); }
    }
}
/// Products of two things of every two places along the chain, which should average to zero.
struct Pairs { what: &'static str, n: usize, s: Vec<f64>, variance: f64, samples: f64 }
impl Pairs {
    fn new(what: &'static str, n: usize, variance: f64) -> Pairs { Pairs { what, n, s: vec![0.0; n * n], variance, samples: 0.0 } }
    fn add<const D: usize>(&mut self, x: &[[f64; D]]) { self.samples += 1.0; for i in 0..self.n { for j in 0..i { let mut p = 0.0; for d in 0..D { p += x[i][d] * x[j][d]; } self.s[i * self.n + j] += p; } } }
    fn decide(&self, c: &mut Log, name: &str, case: &str) {
        if self.n < 2 || self.samples == 0.0 { return }
        let z = |k: usize| self.s[k] / (self.samples * self.variance).sqrt();
        let k = (0..self.s.len()).max_by(|a, b| z(*a).abs().total_cmp(&z(*b).abs())).unwrap();
        c.close(&format!("{name}: {} of any two links are independent", self.what), z(k), 0.0, SIGMAS, || format!("{case} links {} and {} of {} samples={}", k / self.n, k % self.n, self.n, self.samples));
    }
}
fn dot(a: &[f64; 3], b: &[f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn norm(a: &[f64; 3]) -> f64 { dot(a, a).sqrt() }
fn links<const N: usize>(x: &[[f64; 3]; N]) -> [[f64; 3]; N] { std::array::from_fn(|i| if i == 0 { x[0] } else { std::array::from_fn(|k| x[i][k] - x[i - 1][k]) }) }
/// Distinct places along the chain (a sample may not be counted twice).
fn picks(v: &[usize]) -> Vec<usize> { let mut v = v.to_vec(); v.sort(); v.dedup(); v }
#[derive(Clone, Copy, PartialEq)]
enum Kind { Free, Rotating }
/// theta: angle between links (rotating chains); kappa: stiffness of the links (infinite: rigid).
fn chain<const N: usize>(c: &mut Log, samples: usize, kind: Kind, theta: f64, kappa: f64, place: u64) {
    let mut rng = rand::rng();
    let soft = kappa.is_finite();
    let name = match (kind, soft) { (Kind::Free, false) => "fjc", (Kind::Free, true) => "efjc", (Kind::Rotating, false) => "frc", (Kind::Rotating, true) => "efrc" };
    let case = format!("{name} links={N} angle={theta:?} stiffness={kappa:?}");
    let dist = Normal::new(1.0, if soft { 1.0 / kappa.sqrt() } else { 0.0 }).unwrap();
    let cos = theta.cos();
    let mut m = Means::default();
    let (mut worst_length, mut worst_angle) = (0.0f64, 0.0f64);
    let mut distinct = std::collections::BTreeSet::new();
    let v = if soft { 1.0 / kappa } else { 0.0 };
    // links looked at: the ends, the middle and two others
    let (first, second) = ((place % N as u64) as usize, (place / 1009 % N as u64) as usize);
    let at = picks(&[0, N / 2, N - 1, first, second]);
    let mut last: Option<[f64; 3]> = None;
    let (mut lengths, mut directions, mut turns) = (Pairs::new("lengths", N, v * v), Pairs::new("directions", N, 1.0 / 3.0), Pairs::new("torsions", N.saturating_sub(2), 0.5));
    let mut before: Option<(Vec<[f64; 1]>, Vec<[f64; 2]>)> = None;
    for s in 0..samples {
        let x: [[f64; 3]; N] = match (kind, soft) {
            (Kind::Free, false) => fjc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(&mut rng),
            (Kind::Free, true) => efjc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(dist, &mut rng),
            (Kind::Rotating, false) => frc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(&theta, &mut rng),
            (Kind::Rotating, true) => efrc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(&theta, dist, &mut rng),
        };
        if s < 20000 { distinct.insert(x[N - 1].map(|x| x.to_bits())); }
        if let Some(y) = last { if kind == Kind::Free { m.add("samples are independent".into(), dot(&x[N - 1], &y) / N as f64, 0.0); m.add("samples are independent, squares".into(), (dot(&x[N - 1], &x[N - 1]) / N as f64 - 1.0 - v) * (dot(&y, &y) / N as f64 - 1.0 - v), 0.0); } else { m.add("samples are independent, across the axis".into(), x[N - 1][1] * y[1] / N as f64, 0.0); m.add("samples are independent, first links".into(), x[0][2] * y[2], 0.0); } }
        // not of overlapping pairs, whose means would not be independent
        last = if s % 2 == 0 { Some(x[N - 1]) } else { None };
        let b = links(&x);
        let l: [f64; N] = std::array::from_fn(|i| norm(&b[i]));
        let (mut stretch, mut turn) = (vec![], vec![]);
        if soft { stretch = l.iter().map(|l| [l - 1.0]).collect(); lengths.add(&stretch); }
        if kind == Kind::Free { directions.add(&std::array::from_fn::<_, N, _>(|i| b[i].map(|x| x / l[i]))); } else if N > 2 {
            let p: Vec<[f64; 3]> = (0..N - 1).map(|i| { let p = cross(&b[i], &b[i + 1]); let w = norm(&p); p.map(|x| x / w) }).collect();
            turn = (0..N - 2).map(|i| [dot(&p[i], &p[i + 1]), dot(&cross(&p[i], &p[i + 1]), &b[i + 1]) / l[i + 1]]).collect();
            turns.add(&turn);
        }
        if let Some((u, w)) = before {
            if soft { m.add("lengths in the next sample are independent".into(), stretch.iter().zip(&u).map(|(a, b)| a[0] * b[0]).sum(), 0.0); }
            if !turn.is_empty() { m.add("torsions in the next sample are independent".into(), turn.iter().zip(&w).map(|(a, b)| a[0] * b[0] + a[1] * b[1]).sum(), 0.0); }
        }
        if soft {
            for i in at.iter().cloned() { if kind == Kind::Free { for k in 0..3 { m.add(format!("length and direction are independent #{i} {k}"), (l[i] - 1.0) * b[i][k] / l[i], 0.0); } } }
            for i in at.iter().cloned() { if i > 0 && i <= turn.len() { m.add(format!("length and torsion are independent, cosine #{i}"), (l[i] - 1.0) * turn[i - 1][0], 0.0); m.add(format!("length and torsion are independent, sine #{i}"), (l[i] - 1.0) * turn[i - 1][1], 0.0); } }
        }
        before = if s % 2 == 0 { Some((stretch, turn)) } else { None };
        if !soft { for i in 0..N { worst_length = worst_length.max((l[i] - 1.0).abs()); } }
        else { for i in at.iter().cloned() {
            m.add(format!("link length #{i}"), l[i], 1.0);
            m.add(format!("link length, second moment #{i}"), (l[i] - 1.0).powi(2), v);
            m.add(format!("link length, third moment #{i}"), (l[i] - 1.0).powi(3), 0.0);
            m.add(format!("link length, fourth moment #{i}"), (l[i] - 1.0).powi(4), 3.0 * v * v);
            if i + 1 < N { m.add(format!("link lengths are independent #{i}"), (l[i] - 1.0) * (l[i + 1] - 1.0), 0.0); }
        } }
        let r2 = dot(&x[N - 1], &x[N - 1]);
        match kind {
            Kind::Free => {
                for i in at.iter().cloned() {
                    for k in 0..3 {
                        let u = b[i][k] / l[i];
                        m.add(format!("isotropy, first moment #{i} {k}"), u, 0.0);
                        m.add(format!("isotropy, second moment #{i} {k}"), u * u, 1.0 / 3.0);
                        m.add(format!("isotropy, third moment #{i} {k}"), u * u * u, 0.0);
                        m.add(format!("isotropy, fourth moment #{i} {k}"), u.powi(4), 0.2);
                        m.add(format!("isotropy, mixed moment #{i} {k}"), u * b[i][(k + 1) % 3] / l[i], 0.0);
                        m.add(format!("isotropy, mixed square moment #{i} {k}"), (u * b[i][(k + 1) % 3] / l[i]).powi(2), 1.0 / 15.0);
                    }
                    if i + 1 < N {
                        let d = dot(&b[i], &b[i + 1]) / l[i] / l[i + 1];
                        m.add(format!("links are independent #{i}"), d, 0.0);
                        m.add(format!("links are independent, second moment #{i}"), d * d, 1.0 / 3.0);
                    }
                }
                if first != second { let d = dot(&b[first], &b[second]) / l[first] / l[second]; m.add("distant links are independent".into(), d, 0.0); m.add("distant links are independent, second moment".into(), d * d, 1.0 / 3.0); }
                let n = N as f64;
                m.add("mean square length".into(), r2, n * (1.0 + v));
                if !soft { m.add("mean fourth power of the length".into(), r2 * r2, (5.0 * n * n - 2.0 * n) / 3.0); }
                else { let (m2, m4) = (1.0 + v, 1.0 + 6.0 * v + 3.0 * v * v); m.add("mean fourth power of the length".into(), r2 * r2, n * m4 + n * (n - 1.0) * m2 * m2 * 5.0 / 3.0); }
                if N > 2 { let h = N / 2; m.add("mean square length of a part".into(), dot(&x[h], &x[h]), (h as f64 + 1.0) * (1.0 + v)); }
            }
            Kind::Rotating => {
                for i in 0..N - 1 { let d = dot(&b[i], &b[i + 1]) / l[i] / l[i + 1]; worst_angle = worst_angle.max((d - cos).abs()); }
                // torsion, about links away from the ends
                let mut torsions = Vec::new();
                for i in picks(&[0, N / 2, first, second]) { if i + 2 < N {
                    let (p, q) = (cross(&b[i], &b[i + 1]), cross(&b[i + 1], &b[i + 2]));
                    let (ct, st) = (dot(&p, &q) / norm(&p) / norm(&q), dot(&cross(&p, &q), &b[i + 1]) / norm(&p) / norm(&q) / l[i + 1]);
                    let t = st.atan2(ct);
                    torsions.push((i, ct, st));
                    for k in 1..4 { m.add(format!("torsion is uniform, cosine #{i} {k}"), (k as f64 * t).cos(), 0.0); m.add(format!("torsion is uniform, sine #{i} {k}"), (k as f64 * t).sin(), 0.0); }
                    m.add(format!("torsion is uniform, square #{i}"), t * t, std::f64::consts::PI.powi(2) / 3.0);
                    if i + 3 < N {
                        let w = cross(&b[i + 2], &b[i + 3]);
                        let ct2 = dot(&q, &w) / norm(&q) / norm(&w);
                        m.add(format!("torsions are independent #{i}"), ct * ct2, 0.0);
                    }
                }}
                for a in &torsions { for b in &torsions { if a.0 < b.0 { m.add(format!("distant torsions are independent, cosines #{} {}", a.0, b.0), a.1 * b.1, 0.0); m.add(format!("distant torsions are independent, sines #{} {}", a.0, b.0), a.2 * b.2, 0.0); } } }
                let n = N as f64;
                for (i, k) in if N == 3 { vec![(0usize, 2usize)] } else { vec![(0, 2), (N / 2, N - 1), (0, N - 1)] } { if k < N && k > i && !(N == 2) { m.add(format!("correlation of links #{i} {k}"), dot(&b[i], &b[k]) / l[i] / l[k], cos.powi((k - i) as i32)); } }
                let mean = n * (1.0 + cos) / (1.0 - cos) - 2.0 * cos * (1.0 - cos.powi(N as i32)) / (1.0 - cos).powi(2);
                m.add("mean square length".into(), r2, mean + n * v);
                // the first link is one more rotation about a fixed axis
                m.add("first link about the axis #1".into(), b[0][1], 0.0);
                m.add("first link about the axis #2".into(), b[0][2], 0.0);
                m.add("first link about the axis, mixed".into(), b[0][1] * b[0][2], 0.0);
            }
        }
    }
    if !soft { c.close(&format!("{name}: links keep their length"), worst_length, 0.0, 1e-13 * N as f64 + if kind == Kind::Free { 1e-12 } else { 1e-10 }, || case.clone()); }
    if kind == Kind::Rotating { c.close(&format!("{name}: links keep their angle"), worst_angle, 0.0, 1e-12 * N as f64 + 1e-9, || case.clone()); }
    c.decide(&format!("{name}: samples differ"), distinct.len() == samples.min(20000), true, || format!("{case} distinct={}", distinct.len()));
    m.decide(c, name, &case);
    for p in [lengths, directions, turns] { p.decide(c, name, &case); }
}
/// The histogram functions.
fn histogram<const B: usize, const N: usize>(c: &mut Log, samples: usize, kind: Kind, theta: f64, kappa: f64) {
    let soft = kappa.is_finite();
    let name = match (kind, soft) { (Kind::Free, false) => "fjc", (Kind::Free, true) => "efjc", (Kind::Rotating, false) => "frc", (Kind::Rotating, true) => "efrc" };
    let case = format!("{name} links={N} bins={B} samples={samples} angle={theta:?} stiffness={kappa:?}");
    let n = N as f64;
    let cos = theta.cos();
    // longest chain: given, or planar and zigzag
    let zig = if N % 2 == 0 { ((1.0 + cos) / 2.0).sqrt() } else { ((1.0 + cos) / 2.0 + (1.0 - cos) / 2.0 / n / n).sqrt() };
    let top = match (kind, soft) { (Kind::Free, false) => 1.0, (Kind::Rotating, false) => zig, _ => 1.0 + 8.0 / (n * kappa).sqrt() };
    let run = || match (kind, soft) {
        (Kind::Free, false) => fjc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<B, N>(samples),
        (Kind::Free, true) => efjc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<B, N>(&top, &kappa, samples),
        (Kind::Rotating, false) => frc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<B, N>(&theta, samples),
        (Kind::Rotating, true) => efrc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<B, N>(&top, &kappa, &theta, samples),
    };
    let Ok((x, p)) = guard(run) else { c.decide(&format!("{name}: histogram"), false, true, || format!("{case} panicked")); return };
    let h = top / B as f64;
    // the same from the configurations: two samples of one distribution
    let mut counts = [0.0; B];
    let dist = Normal::new(1.0, if soft { 1.0 / kappa.sqrt() } else { 0.0 }).unwrap();
    let mut rng = rand::rng();
    for _ in 0..samples {
        let e = match (kind, soft) {
            (Kind::Free, false) => fjc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(&mut rng),
            (Kind::Free, true) => efjc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(dist, &mut rng),
            (Kind::Rotating, false) => frc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(&theta, &mut rng),
            (Kind::Rotating, true) => efrc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(&theta, dist, &mut rng),
        }[N - 1];
        let i = (norm(&e) / n / h) as usize;
        if i < B { counts[i] += 1.0 }
    }
    // a rigid pair of links at a fixed angle has one length, which may fall on an edge
    if !(kind == Kind::Rotating && N == 2 && !soft) {
        let z = |i: usize| { let o = p[i] * h * samples as f64; (o - counts[i]).abs() / (o + counts[i] + 6.0).sqrt() };
        let i = (0..B).max_by(|a, b| z(*a).total_cmp(&z(*b))).unwrap();
        c.close(&format!("{name}: histogram of the configurations"), z(i), 0.0, SIGMAS, || format!("{case} bin={i} observed={:?} of configurations={:?}", p[i] * h, counts[i] / samples as f64));
    }
    let worst = (0..B).map(|i| (x[i] - (i as f64 + 0.5) * h).abs()).fold(0.0, f64::max);
    c.close(&format!("{name}: bin centers"), worst, 0.0, 1e-12, || case.clone());
    let total: f64 = p.iter().sum::<f64>() * h;
    c.close(&format!("{name}: every sample is counted"), total, 1.0, 1e-9, || case.clone());
    c.decide(&format!("{name}: densities are not negative"), p.iter().all(|y| *y >= 0.0 && y.is_finite()), true, || case.clone());
    // mean square length from the histogram: within half a bin of each sample
    let square: f64 = (0..B).map(|i| p[i] * h * x[i] * x[i]).sum();
    let v = if soft { 1.0 / kappa } else { 0.0 };
    let exact = if kind == Kind::Free { n * (1.0 + v) } else { n * (1.0 + cos) / (1.0 - cos) - 2.0 * cos * (1.0 - cos.powi(N as i32)) / (1.0 - cos).powi(2) + n * v } / n / n;
    let spread = top * top / (samples as f64).sqrt() * 0.5;
    c.close(&format!("{name}: mean square length of the histogram"), square, exact, SIGMAS * spread + h * exact.sqrt() + h * h, || case.clone());
    if kind == Kind::Free && !soft && N > 2 {
        // against the exact distribution
        let f = |g: f64| if g <= 0.0 || g >= 1.0 { 0.0 } else { let y = fjc_exact(N as u8, g).0.exp(); 4.0 * std::f64::consts::PI * g * g * y };
        let w: Vec<f64> = (0..B).map(|i| quad(&f, i as f64 * h, (i as f64 + 1.0) * h, 4)).collect();
        let whole: f64 = w.iter().sum();
        let mut worst = (0.0f64, 0usize);
        for i in 0..B {
            let (e, o) = (w[i] / whole * samples as f64, p[i] * h * samples as f64);
            let z = (o - e).abs() / (e.max(0.0) + 6.0 + 1e-4 * e * e.sqrt()).sqrt();
            if z > worst.0 { worst = (z, i) }
        }
        c.close(&format!("{name}: histogram of the exact distribution"), worst.0, 0.0, SIGMAS, || format!("{case} bin={} observed={:?} expected={:?}", worst.1, p[worst.1] * h, w[worst.1] / whole));
    }
}
pub fn run(c: &mut Ctx) {
    c.rule = "Monte Carlo sampling of freely jointed and freely rotating chains, rigid and extensible (real random generator, not seeded by the monitor): every sampled rigid link has length one and every sampled angle is the given one; links are isotropic and independent, torsions uniform and independent, extensible links normally distributed; mean square and mean fourth power of the length are the exact ones; histograms count every sample, are normalized, and follow the exact distribution. Means are decided at seven standard errors. Non-trivial: samples differ.".into();
    c.assumptions.push("the generator cannot be seeded from outside, so runs differ; at seven standard errors a false alarm has a chance of about 1e-12 per decision".into());
    c.assumptions.push("the extensible models are compiled against the monitor's stand-in for rand_distr's Normal, since they do not compile with the pinned rand".into());
    let k = c.budget(4, 60);
    let mut r = c.rng("angles");
    let mut jobs: Vec<Box<dyn Fn(&mut Log) + Sync>> = Vec::new();
    let inf = f64::INFINITY;
    macro_rules! free { ($($n:literal $s:literal),*) => { $( { let (kappa, w) = (r.log_uniform(20.0, 2000.0), r.next());
        jobs.push(Box::new(move |c: &mut Log| chain::<$n>(c, $s * k, Kind::Free, 1.0, inf, w)));
        jobs.push(Box::new(move |c: &mut Log| chain::<$n>(c, $s * k, Kind::Free, 1.0, kappa, w))); } )* } }
    free!(1 300000, 2 300000, 3 200000, 5 150000, 8 100000, 32 30000, 128 8000);
    macro_rules! rotating { ($($n:literal $s:literal),*) => { $( for t in [r.uniform(0.05, 0.6), r.uniform(0.6, 1.5), r.uniform(1.6, 2.9)] { let (kappa, w) = (r.log_uniform(50.0, 2000.0), r.next());
        jobs.push(Box::new(move |c: &mut Log| chain::<$n>(c, $s * k, Kind::Rotating, t, inf, w)));
        jobs.push(Box::new(move |c: &mut Log| chain::<$n>(c, $s * k, Kind::Rotating, t, kappa, w))); } )* } }
    rotating!(2 100000, 3 150000, 4 100000, 7 80000, 16 40000, 33 20000, 100 6000);
    macro_rules! bins { ($($b:literal $n:literal $s:literal),*) => { $( { let kappa = r.log_uniform(50.0, 2000.0); let t = [r.uniform(0.2, 1.5), r.uniform(1.6, 2.7), r.log_uniform(0.001, 0.2)];
        jobs.push(Box::new(move |c: &mut Log| histogram::<$b, $n>(c, $s * k, Kind::Free, 1.0, inf)));
        jobs.push(Box::new(move |c: &mut Log| histogram::<$b, $n>(c, $s * k, Kind::Free, 1.0, kappa)));
        for t in t { {
            jobs.push(Box::new(move |c: &mut Log| histogram::<$b, $n>(c, $s * k, Kind::Rotating, t, inf)));
            jobs.push(Box::new(move |c: &mut Log| histogram::<$b, $n>(c, $s * k, Kind::Rotating, t, kappa)));
        } } } )* } }
    bins!(20 2 50000, 10 3 200000, 37 3 200000, 100 4 200000, 25 5 200000, 50 6 200000, 64 8 100000, 20 9 100000, 100 12 100000, 30 25 30000, 1 7 2000, 200 16 50000);
    c.parallel(jobs.len(), |i, log| jobs[i](log));
}
