//! C22: the Julia interface, its sources interpreted and run against the library built from the tree.
use crate::checks::c03::slow;
use crate::core::*;
use crate::domain::*;
use crate::params::*;
use crate::registry::*;
use crate::util::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
struct Case { class: String, show: String, shape: String, answers: Vec<(f64, f64)> }
enum Arg { Scalar(f64), Array(Vec<usize>, Vec<f64>) }
impl Arg {
    fn text(&self, name: &str) -> String {
        let t = if name == "number_of_links" { "u" } else { "f" };
        let v = |x: f64| if t == "u" { format!("{}", x as u8) } else { format!("{x:?}") };
        match self {
            Arg::Scalar(x) => format!("{t}:{}", v(*x)),
            Arg::Array(shape, values) => format!("A:{t}:{}:{}", shape.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("x"), values.iter().map(|x| v(*x)).collect::<Vec<_>>().join(",")),
        }
    }
    /// Element at a position, the first index running fastest; leading dimensions are aligned.
    fn at(&self, index: &[usize]) -> f64 {
        match self {
            Arg::Scalar(x) => *x,
            Arg::Array(shape, values) => { let (mut k, mut stride) = (0, 1); for (d, n) in shape.iter().enumerate() { k += if *n == 1 { 0 } else { index[d] } * stride; stride *= n; } values[k] }
        }
    }
}
fn extra(model: &str) -> &'static [&'static str] { match model { "efjc" | "ufjc/lennard_jones" | "ufjc/log_squared" => &["link_stiffness"], "ufjc/morse" => &["link_stiffness", "link_energy"], "swfjc" => &["well_width"], "wlc" => &["persistance_length"], _ => &[] } }
fn class(model: &str) -> &'static str { match model { "ideal" => "IDEAL", "fjc" => "FJC", "efjc" => "EFJC", "swfjc" => "SWFJC", "wlc" => "WLC", "ufjc/lennard_jones" => "LENNARDJONESFJC", "ufjc/log_squared" => "LOGSQUAREDFJC", "ufjc/morse" => "MORSEFJC", m => panic!("{m}") } }
/// A free function's value and what rounding may do to it.
fn free(e: &Entry, p: &P) -> Option<(f64, f64)> {
    if !e.func.contains("distribution") { return conditioned(e, p) }
    let y = guard(|| (e.free)(p)).ok()?;
    Some((y, 1e-11 * y.abs() + 1e-300))
}
fn vary(name: &str, x: f64, r: &mut Rng) -> f64 { if name == "number_of_links" { (x + r.int(0, 3) as f64).min(255.0) } else { x * if r.int(0, 3) == 0 { 1.0 } else { r.uniform(0.9, 1.0) } } }
/// Arguments for the given parameters, and the shape they broadcast to.
fn arguments(e: &Entry, names: &[&str], p: &P, pattern: u64, r: &mut Rng) -> (Vec<Arg>, Vec<usize>) {
    let load = names.iter().position(|n| *n == e.margs[0]).unwrap_or(0);
    let n = if slow(e) { 2 } else { r.int(2, 5) as usize };
    // (a normalization is one number)
    let single = |k: usize| names[k].starts_with("normalization");
    let some = r.int(0, names.len() as u64 - 1) as usize;
    let some = if single(some) { load } else { some };
    let mut one = |k: usize, shape: Vec<usize>, r: &mut Rng| { let m = shape.iter().product(); Arg::Array(shape, (0..m).map(|_| vary(names[k], p.get(names[k]), r)).collect()) };
    let mut args: Vec<Arg> = names.iter().map(|n| Arg::Scalar(p.get(n))).collect();
    let shape = match pattern {
        1 => { let n = if r.int(0, 15) == 0 && !slow(e) { 400 } else { n }; args[load] = one(load, vec![n], r); vec![n] }
        2 => {
            let sets: Vec<P> = (0..n).map(|_| sample_for(e, r)).collect();
            for (k, name) in names.iter().enumerate() { if !single(k) { args[k] = Arg::Array(vec![n], sets.iter().map(|q| q.get(name)).collect()) } }
            vec![n]
        }
        3 => { args[load] = one(load, vec![2, n], r); vec![2, n] }
        4 => { args[some] = one(some, vec![n], r); vec![n] }
        5 if some != load => { args[load] = one(load, vec![n], r); args[some] = one(some, vec![1, 2], r); vec![n, 2] }
        6 => { args[load] = Arg::Array(vec![0], vec![]); vec![0] }
        7 => { args[load] = one(load, vec![2, 1, 2], r); args[some] = if some == load { one(load, vec![2, 1, 2], r) } else { one(some, vec![2], r) }; vec![2, 1, 2] }
        _ => vec![],
    };
    (args, shape)
}
pub fn run(c: &mut Ctx) {
    c.rule = "The Julia sources of the tree (170 files) are run by an interpreter of the part of Julia they are written in, against the library built from the tree: every free function (554) with seeded arguments as scalars, vectors, matrices, cubes, empty arrays and mixtures that broadcast; every method of every model built by its own constructor or reached through each of its parents; attributes read back. Results are compared with the Rust functions element by element, in Julia's (column-major) order. Non-trivial: the call reached the library and returned a finite number.".into();
    let target = std::env::var("CARGO_TARGET_DIR").unwrap_or("/verif/target".into());
    let library = format!("{target}/debug/deps/libpolymers.so");
    let source = format!("{}/src/Polymers.jl", crate::core::repo());
    let mut cases: Vec<Case> = vec![];
    let mut text = String::new();
    for e in ENTRIES.iter() {
        let mut r = c.rng(&short(e));
        let budget = c.budget(40, 400) / if slow(e) { 3 } else { 1 };
        let rest = e.module.strip_prefix(e.model).unwrap().trim_start_matches('/');
        let depths = if rest.is_empty() { 0 } else { rest.split('/').count() as u64 };
        let offset = r.int(0, 7);
        'case: for i in 0..budget as u64 {
            let mut p = sample_for(e, &mut r);
            p.normalization = r.log_uniform(0.1, 10.0);
            let method = i % 2 == 1;
            let mut names: Vec<&str> = if method { e.margs.to_vec() } else { e.params.to_vec() };
            // in Julia these take the number of links too
            if !method && e.module == "wlc/thermodynamics/isometric" && e.func.starts_with("nondimensional_equilibrium") { names.insert(0, "number_of_links") }
            if names.is_empty() { continue }
            // all arguments as vectors: a method's own parameters stay
            let pattern = match (i / 2 + offset) % 8 { 2 if method => 1, k => k };
            let (args, shape) = arguments(e, &names, &p, pattern, &mut r);
            let mut answers = vec![];
            let m: usize = shape.iter().product();
            for k in 0..m {
                let (mut index, mut left) = (vec![], k);
                for d in &shape { index.push(left % d); left /= d; }
                let mut q = p.clone();
                for (a, name) in args.iter().zip(&names) { q.set(name, a.at(&index)); }
                let y = if method { conditioned(e, &q) } else { free(e, &q) };
                let Some(y) = y else { c.count("skipped: the Rust function panics"); continue 'case };
                answers.push(y);
            }
            let mut ctor = vec!["number_of_links", "link_length", "hinge_mass"];
            ctor.extend(extra(e.model));
            let depth = r.int(0, depths);
            let _ = writeln!(text, "{}\t{}\t{}\t{rest}\t{depth}\t{}\t{}\t{}\t{}\t{}", cases.len(), if method { "M" } else { "F" }, e.model, class(e.model), ctor.join(","), ctor.iter().map(|n| Arg::Scalar(p.get(n)).text(n)).collect::<Vec<_>>().join(";"), e.func, args.iter().zip(&names).map(|(a, n)| a.text(n)).collect::<Vec<_>>().join(";"));
            cases.push(Case { class: format!("{} {}", if method { "method" } else { "function" }, short(e)), show: format!("shape {shape:?} {}", p.describe(if method { &ctor } else { e.params })) + &args.iter().zip(&names).map(|(a, n)| format!(" {n}={}", a.text(n))).collect::<String>(), shape: shape.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("x"), answers });
        }
    }
    let (given, report) = (format!("{}/evidence/{}.cases.log", c.dir, c.id), format!("{}/evidence/{}.observed.log", c.dir, c.id));
    std::fs::write(&given, text).expect("cases");
    mark("the Julia interface");
    let answer = std::process::Command::new("/opt/veriftools/pyvenv/bin/python3").args(["-B", &format!("{}/py/julia_observe.py", c.dir), &library, &source, &given, &report]).output().expect("python");
    let observed = std::fs::read_to_string(&report).unwrap_or_default();
    let mut lines: BTreeMap<usize, Vec<&str>> = BTreeMap::new();
    for l in observed.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "load" if f[1] == "failed" => c.violate("the Julia package loads", f[2]),
            "load" => c.count("the package is written in Julia the interpreter does not know"),
            "note" => { c.count("source not read: Julia the interpreter does not know"); println!("note: {}", f[1]) }
            "types" => {
                let Some(e) = ENTRIES.iter().find(|e| e.symbol == Some(f[1])) else { c.count("calls of functions the registry does not list"); continue };
                let takes = e.params.iter().map(|n| if *n == "number_of_links" { "UInt8" } else { "Float64" }).collect::<Vec<_>>().join(",");
                c.decide("C functions are called with the types they take", f[2] == "Float64" && f[3] == takes, true, || format!("{} takes ({takes}) and returns Float64, is called with ({}) for {}", f[1], f[3], f[2]));
            }
            "constant" => {
                let given = if f[1] == "BOLTZMANN_CONSTANT" { polymers::physics::BOLTZMANN_CONSTANT } else { polymers::physics::PLANCK_CONSTANT };
                let x = if f[2] == "none" { f64::NAN } else { crate::checks::c19::hex(f[2]).expect("number") };
                c.close("constants of nature", x, given, 1e-15 * given, || f[1].into());
            }
            "calls" => c.counted("calls into the library", f[1].parse().unwrap_or(0)),
            "end" => {}
            n => { lines.insert(n.parse().expect("number"), f); }
        }
    }
    if !observed.ends_with("end\n") {
        let said = String::from_utf8_lossy(&answer.stderr).lines().rev().take(3).collect::<Vec<_>>().join(" / ");
        use std::os::unix::process::ExitStatusExt;
        let at = cases.get(lines.len()).map(|k| format!("{} {}", k.class, k.show)).unwrap_or_default();
        if matches!(answer.status.signal(), Some(4 | 6 | 7 | 8 | 11)) { c.violate("Julia survives the call", &format!("{} {said} at {at}", answer.status)) } else { panic!("the observer stopped: {} {said}", answer.status) }
    }
    for (i, k) in cases.iter().enumerate() {
        let Some(f) = lines.get(&i) else { continue };
        if f[1] == "unread" { c.count("call not made: Julia the interpreter does not know"); continue }
        if f[1] != "ok" { c.decide(&format!("{} answers", k.class), false, true, || format!("{}: {}", k.show, f.get(4).unwrap_or(&""))); continue }
        let wrong = f.get(4).unwrap_or(&"");
        c.decide("attributes, arguments and type", wrong.is_empty(), true, || format!("{} {}: {wrong}", k.class, k.show));
        c.decide("shape of the result", f[2] == k.shape, true, || format!("{} {}: {} not {}", k.class, k.show, f[2], k.shape));
        let values: Vec<f64> = if f[3].is_empty() { vec![] } else { f[3].split(',').map(|x| crate::checks::c19::hex(x).expect("number")).collect() };
        c.decide("elements of the result", values.len() == k.answers.len(), true, || format!("{} {}: {} elements", k.class, k.show, values.len()));
        for (j, (x, (y, tol))) in values.iter().zip(&k.answers).enumerate() {
            if x.is_nan() && y.is_nan() { c.count("both are NaN"); continue }
            if x.is_infinite() && x == y { c.count("both are the same infinity"); continue }
            c.close(&k.class, *x, *y, *tol, || format!("{} element {j}", k.show));
        }
    }
}
