//! C19: the Python interface.
use crate::checks::c03::slow;
use crate::core::*;
use crate::domain::*;
use crate::params::*;
use crate::registry::*;
use crate::util::*;
use polymers::constitutive::{hyperelastic, hyperelastic_damage};
use std::collections::BTreeMap;
use std::fmt::Write as _;
/// What Python should answer for one case.
struct Case { class: String, show: String, values: Vec<f64>, shape: String, answers: Vec<Vec<(f64, f64)>>, flat: bool }
/// Arguments of the constructors besides number of links, link length and hinge mass.
fn extra(model: &str) -> &'static [&'static str] { match model { "efjc" | "ufjc/lennard_jones" | "ufjc/log_squared" => &["link_stiffness"], "ufjc/morse" => &["link_stiffness", "link_energy"], "swfjc" => &["well_width"], "wlc" => &["persistance_length"], _ => &[] } }
fn class(model: &str) -> &'static str { match model { "ideal" => "Ideal", "fjc" => "FJC", "efjc" => "EFJC", "swfjc" => "SWFJC", "wlc" => "WLC", "ufjc/lennard_jones" => "LENNARDJONESFJC", "ufjc/log_squared" => "LOGSQUAREDFJC", "ufjc/morse" => "MORSEFJC", _ => panic!("model {model}") } }
/// How an array of n values is laid out in memory, and its shape.
fn layout(r: &mut Rng, i: usize) -> (&'static str, usize, String, usize) {
    let n = r.int(1, 9) as usize;
    match i % 14 {
        0 | 1 => ("flat", n, format!("{n}"), n),
        2 => ("scalar", 1, String::new(), 1),
        3 => ("strided", n, format!("{n}"), n),
        4 => ("reversed", n + 1, format!("{}", n + 1), n + 1),
        5 => ("matrix", 2 * n, format!("2x{n}"), 2 * n),
        6 => ("fortran", 2 * n, format!("2x{n}"), 2 * n),
        7 => ("cube", 4 * n, format!("2x{n}x2"), 4 * n),
        8 => ("column", n, format!("{n}"), n),
        9 => ("empty", 0, "0".into(), 0),
        10 => ("readonly", n, format!("{n}"), n),
        11 => ("repeated", 1, "4".into(), 4),
        12 => ("empty2", 0, "3x0".into(), 0),
        _ => match r.int(0, 7) { 0 => ("flat", 1300, "1300".into(), 1300), 1 => ("matrix", 1050, "2x525".into(), 1050), 2 => ("strided", 600, "600".into(), 600), 3 => ("fortran", 1050, "2x525".into(), 1050), _ => ("flat", 40, "40".into(), 40) },
    }
}
pub fn hex(s: &str) -> Option<f64> {
    let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s) };
    let x = match t { "nan" => f64::NAN, "inf" => f64::INFINITY, _ => {
        let t = t.strip_prefix("0x")?;
        let (m, e) = t.split_once('p')?;
        let (i, f) = m.split_once('.').unwrap_or((m, ""));
        let bits = u64::from_str_radix(&format!("{i}{f}"), 16).ok()?;
        let e: i32 = e.parse().ok()?;
        let e = e - 4 * f.len() as i32;
        // exact: the mantissa has at most 53 bits
        (bits as f64) * 2f64.powi(e / 2) * 2f64.powi(e - e / 2)
    } };
    Some(if neg { -x } else { x })
}
pub fn run(c: &mut Ctx) {
    c.rule = "Every method of every Python class (554 and the constitutive models') is called from Python on seeded objects, built by its own class or reached through each of its parents, by position or by keyword, with arrays of all layouts (one to three dimensions, zero-dimensional, empty, strided, reversed, Fortran order, read-only, repeated); values, order and shape are compared with the Rust functions at the same arguments, attributes with the constructor's arguments, arguments with what they were before the call. Non-trivial: expected value finite and not zero.".into();
    let folder = std::env::var("POLYMERS_PY").unwrap_or_else(|_| format!("{}/py/module", std::env::var("CARGO_TARGET_DIR").unwrap_or("/verif/target".into())));
    let mut cases: Vec<Case> = vec![];
    let mut text = String::new();
    for e in ENTRIES.iter() {
        let mut r = c.rng(&short(e));
        let budget = c.budget(28, 420) / if slow(e) { 4 } else { 1 };
        let rest = e.module.strip_prefix(e.model).unwrap().trim_start_matches('/');
        let segments: Vec<&str> = rest.split('/').collect();
        let offset = r.int(0, 13) as usize;
        'case: for i in 0..budget {
            let p = sample_for(e, &mut r);
            let (kind, n, shape, m) = layout(&mut r, i + offset);
            let (n, shape, m) = if slow(e) && n > 8 { (4, match kind { "matrix" | "fortran" => "2x2".to_string(), "cube" => "2x1x2".into(), _ => "4".into() }, 4) } else { (n, shape, m) };
            let first = e.margs[0];
            let values: Vec<f64> = (0..n).map(|_| p.get(first) * if r.int(0, 4) == 0 { 1.0 } else { r.uniform(0.5, 1.0) }).collect();
            let mut answers = vec![];
            for v in &values {
                let mut q = p.clone();
                q.set(first, *v);
                let Some(answer) = conditioned(e, &q) else { c.count("skipped: the Rust function panics"); continue 'case };
                answers.push(answer);
            }
            while answers.len() < m { let a = answers[0]; answers.push(a); }
            let mut names = vec!["number_of_links", "link_length", "hinge_mass"];
            names.extend(extra(e.model));
            let ctor: Vec<String> = names.iter().map(|n| if *n == "number_of_links" { format!("u{}", p.number_of_links) } else { format!("f{:?}", p.get(n)) }).collect();
            let depth = r.int(0, segments.len() as u64) as usize;
            let scalars: Vec<String> = e.margs[1..].iter().map(|n| format!("{:?}", p.get(n))).collect();
            let _ = writeln!(text, "{}\tphysics/single_chain/{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", cases.len(), e.model, rest, depth, class(e.model), names.join(","), ctor.iter().map(|x| if x.starts_with('f') { format!("f{}", &x[1..]) } else { x.clone() }).collect::<Vec<_>>().join(","), e.func, e.margs.join(","), scalars.join(","), kind, values.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>().join(","));
            cases.push(Case { class: short(e), show: format!("{} array of {first}, built at level {depth} of {rest}; {}", kind, p.describe(e.params)), values, shape, answers: vec![answers], flat: false });
        }
    }
    // constitutive models
    let mut r = c.rng("constitutive");
    for i in 0..c.budget(16, 120) {
        let (kind, n, shape, m) = layout(&mut r, i);
        let damage = i % 2 == 1;
        let (n, shape, m) = if n > 12 { (12, "12".to_string(), 12) } else { (n, shape, m) };
        let kind = if n == 12 && shape == "12" { "flat" } else { kind };
        let method = if i % 8 < 2 { 2u8 } else { 3 };
        let (n, m, kind, shape) = if method == 2 && n > 2 { (2, 2, "reversed", "2".to_string()) } else { (n, m, kind, shape) };
        let values: Vec<f64> = (0..n).map(|_| if damage { r.uniform(1.0, 2.5) } else { r.uniform(0.8, 2.5) }).collect();
        let (k, links) = (r.log_uniform(20.0, 1000.0), r.int(4, 200) as u8);
        let mut sequence = values.clone();
        while sequence.len() < m { let a = sequence[0]; sequence.push(a) }
        let tol = |y: f64| 1e-10 * y.abs() + 1e-9;
        let (root, name, names, ctor, func, answers, show);
        if damage {
            let (g, s) = (r.uniform(0.6, 1.6), r.uniform(1.0, 1.6));
            let b = Box::new(hyperelastic_damage::BucheSilberstein::init(method, g, k, links, s));
            let mut padded = sequence.clone();
            padded.resize(if m <= 2 { 2 } else { 12 }, 1.0);
            let y = if m == 0 { vec![] } else if m <= 2 { b.uniaxial_tension::<2>(&padded)[..m].to_vec() } else { b.uniaxial_tension::<12>(&padded)[..m].to_vec() };
            let y: (Vec<f64>, Vec<f64>) = (y.iter().map(|v| v[0]).collect(), y.iter().map(|v| v[1]).collect());
            answers = vec![y.0.iter().map(|y| (*y, tol(*y))).collect(), y.1.iter().map(|y| (*y, tol(*y))).collect()];
            root = "constitutive/hyperelastic_damage"; name = "BucheSilberstein"; func = "uniaxial_tension";
            names = "method,nondimensional_critical_extension,nondimensional_link_stiffness,number_of_links,swelling_ratio";
            ctor = format!("u{method},f{g:?},f{k:?},u{links},f{s:?}");
            show = format!("damage method={method} critical={g:?} stiffness={k:?} links={links} swelling={s:?} {kind} array {values:?}");
        } else {
            let b = Box::new(hyperelastic::BucheSilberstein::init(method, k, links));
            let bi = r.coin();
            answers = vec![sequence.iter().map(|x| { let y = if bi { b.equibiaxial_tension(x) } else { b.uniaxial_tension(x) }; (y, tol(y)) }).collect()];
            root = "constitutive/hyperelastic"; name = "BucheSilberstein"; func = if bi { "equibiaxial_tension" } else { "uniaxial_tension" };
            names = "method,nondimensional_link_stiffness,number_of_links";
            ctor = format!("u{method},f{k:?},u{links}");
            show = format!("hyperelastic method={method} stiffness={k:?} links={links} {kind} array {values:?}");
        }
        let _ = writeln!(text, "{}\t{root}\t\t0\t{name}\t{names}\t{ctor}\t{func}\t{}\t\t{kind}\t{}", cases.len(), if damage { "stretches" } else { "stretch" }, values.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>().join(","));
        cases.push(Case { class: format!("{root}::{func}"), show, values, shape, answers, flat: damage });
    }
    let (given, report) = (format!("{}/evidence/{}.cases.log", c.dir, c.id), format!("{}/evidence/{}.observed.log", c.dir, c.id));
    std::fs::write(&given, text).expect("cases");
    mark("the Python interface");
    let answer = std::process::Command::new("/opt/veriftools/pyvenv/bin/python3").args([&format!("{}/py/observe.py", c.dir), &folder, &given, &report]).output().expect("python");
    let observed = std::fs::read_to_string(&report).unwrap_or_default();
    let lines: BTreeMap<usize, Vec<&str>> = observed.lines().filter_map(|l| { let f: Vec<&str> = l.split('\t').collect(); Some((f[0].parse().ok()?, f)) }).collect();
    if !observed.ends_with("end\n") {
        let said = String::from_utf8_lossy(&answer.stderr).lines().rev().take(3).collect::<Vec<_>>().join(" / ");
        use std::os::unix::process::ExitStatusExt;
        let at = cases.get(lines.len()).map(|k| format!("{} {}", k.class, k.show)).unwrap_or_default();
        let crash = matches!(answer.status.signal(), Some(4 | 6 | 7 | 8 | 11));
        let import = lines.is_empty() && (said.contains("dynamic module does not define") || said.contains("undefined symbol") || said.contains("SystemError") || said.contains("cannot import"));
        if crash || import { c.violate(if crash { "Python survives the call" } else { "the extension can be imported" }, &format!("{} {said} at {at}", answer.status)) } else { panic!("the observer stopped: {} {said}", answer.status) }
    }
    for (i, k) in cases.iter().enumerate() {
        let Some(f) = lines.get(&i) else { continue };
        if f[1] != "ok" { c.decide(&format!("{} answers", k.class), false, true, || format!("{}: {}", k.show, f.get(6).unwrap_or(&""))); continue }
        let wrong = f.get(6).unwrap_or(&"");
        c.decide("attributes, argument and type", wrong.is_empty(), true, || if wrong.is_empty() { k.class.clone() } else { format!("{} {}: {wrong}", k.class, k.show) });
        let given = f[3];
        assert_eq!(given, k.shape, "layout of the observer");
        let shape = if k.flat { format!("{}", k.answers[0].len()) } else { k.shape.clone() };
        c.decide("shape of the result", f[2] == shape, true, || format!("{} {}: {} not {shape}", k.class, k.show, f[2]));
        let parts: Vec<Vec<f64>> = f[4].split(';').map(|p| if p.is_empty() { vec![] } else { p.split(',').map(|x| hex(x).expect("number")).collect() }).collect();
        c.decide("parts of the result", parts.len() == k.answers.len() && parts.iter().zip(&k.answers).all(|(a, b)| a.len() == b.len()), true, || format!("{} {}: {:?} parts", k.class, k.show, parts.len()));
        for (part, want) in parts.iter().zip(&k.answers) { for (j, (x, (y, tol))) in part.iter().zip(want).enumerate() {
            if x.is_nan() && y.is_nan() { c.count("both are NaN"); continue }
            if x.is_infinite() && x == y { c.count("both are the same infinity"); continue }
            if x == y { c.close(&k.class, *x, *y, *tol, || format!("{} element {j}", k.show)); continue }
            c.close(&k.class, *x, *y, *tol, || format!("{} element {j} = {:?}", k.show, k.values.get(j)));
        } }
    }
}
