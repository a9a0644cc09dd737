//! C18: the C interface.
use crate::checks::c03::slow;
use crate::checks::c15::{efjc_reduced, gaussian_factor, GRID};
use crate::core::*;
use crate::domain::*;
use crate::registry::*;
use crate::util::*;
use polymers::constitutive::hyperelastic::BucheSilberstein;
use std::f64::consts::PI;
use std::ffi::{c_char, c_int, c_void, CString};
extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn mmap(at: *mut c_void, length: usize, prot: c_int, flags: c_int, fd: c_int, offset: i64) -> *mut c_void;
    fn munmap(at: *mut c_void, length: usize) -> c_int;
    fn mprotect(at: *mut c_void, length: usize, prot: c_int) -> c_int;
}
const PAGE: usize = 4096;
/// Values in read-only memory, up against pages that may not be touched at both ends.
struct Fenced { base: *mut c_void, length: usize, at: *const f64 }
impl Fenced {
    fn new(v: &[f64], flush_left: bool) -> Fenced { unsafe {
        let bytes = v.len() * 8;
        let inner = bytes.div_ceil(PAGE) * PAGE;
        let length = inner + 2 * PAGE;
        let base = mmap(std::ptr::null_mut(), length, 3, 0x22, -1, 0);
        assert!(base as isize != -1, "mmap");
        let body = (base as *mut u8).add(PAGE);
        let at = if flush_left { body } else { body.add(inner - bytes) } as *mut f64;
        std::ptr::copy_nonoverlapping(v.as_ptr(), at, v.len());
        assert_eq!(mprotect(base, length, 0), 0);
        assert_eq!(mprotect(body as *mut c_void, inner, 1), 0);
        Fenced { base, length, at }
    } }
}
impl Drop for Fenced { fn drop(&mut self) { unsafe { munmap(self.base, self.length); } } }
pub fn run(c: &mut Ctx) {
    c.rule = "The shared library built from the tree is loaded as a C program loads it; every documented C function (554, one per function of the Rust interface) is found by name, called with seeded parameters, and compared with the Rust function; the two that take arrays are called with read-only arrays fenced by inaccessible pages, and compared with the model's object; a Miri run of the same two checks every access. Non-trivial: finite and not zero.".into();
    let so = std::env::var("POLYMERS_SO").unwrap_or_else(|_| format!("{}/debug/deps/libpolymers.so", std::env::var("CARGO_TARGET_DIR").unwrap_or("/verif/target".into())));
    let handle = unsafe { dlopen(CString::new(so.clone()).unwrap().as_ptr(), 2) };
    if handle.is_null() { c.violate("the shared library loads", &so); return }
    let symbol = |s: &str| unsafe { dlsym(handle, CString::new(s).unwrap().as_ptr()) };
    let mut called = 0u64;
    for e in ENTRIES.iter() {
        let Some(name) = e.symbol else { continue };
        let at = symbol(name);
        c.decide("every function has its C symbol", !at.is_null(), true, || name.to_string());
        if at.is_null() { continue }
        called += 1;
        let mut r = c.rng(name);
        let budget = c.budget(400, 10000) / if slow(e) { 8 } else { 1 };
        for i in 0..budget {
            let p = sample_for(e, &mut r);
            // a panic cannot cross the C interface: call Rust first
            let Ok(y) = guard(|| (e.free)(&p)) else { c.count("skipped: the Rust function panics"); continue };
            if i % 16 == 0 { mark(&format!("{name} {}", p.describe(e.params))); }
            let x = (e.ccall)(at, &p);
            if x.is_nan() && y.is_nan() { c.count("both are NaN"); continue }
            if x.is_infinite() && x == y { c.count("both are the same infinity"); continue }
            if x == y { c.close(&short(e), x, y, 1e-300, || p.describe(e.params)); } else { c.close(&short(e), x, y, 1e-10 * y.abs() + 1e-300, || p.describe(e.params)); }
        }
    }
    c.counters.insert("C functions called".into(), called);
    // arrays
    type F = unsafe extern "C" fn(*const f64, f64, *const f64, f64, u8, f64, u8, f64) -> f64;
    let names = ["constitutive_hyperelastic_buche_silberstein_uniaxial_tension", "constitutive_hyperelastic_buche_silberstein_equibiaxial_tension"];
    let f: Vec<*mut c_void> = names.iter().map(|n| symbol(n)).collect();
    for i in 0..2 { c.decide("every function has its C symbol", !f[i].is_null(), true, || names[i].to_string()); }
    if f.iter().any(|p| p.is_null()) { return }
    let f: Vec<F> = f.into_iter().map(|p| unsafe { std::mem::transmute::<*mut c_void, F>(p) }).collect();
    let mut r = c.rng("arrays");
    for i in 0..c.budget(10, 100) {
        let method = if i % 3 == 0 { 2u8 } else { 3 };
        let (k, n) = (r.log_uniform(5.0, 1000.0), r.int(2, 255) as u8);
        let nn = n as f64;
        let w: Vec<f64> = (0..GRID).map(|i| (i + 1) as f64 / (GRID as f64 + 1.0)).collect();
        let grid: Vec<f64> = w.iter().map(|w| w.atanh()).collect();
        let dw = 1.0 / (GRID as f64 + 1.0);
        let mut element = vec![0.0; GRID * GRID];
        let mut scale = 0.0f64;
        for a in 0..GRID { for b in 0..GRID {
            let (z, r) = (grid[a], grid[b]);
            element[a * GRID + b] = efjc_reduced(k, z.hypot(r)).0 / z.hypot(r) * (2.0 * z * z - r * r) * 2.0 * PI * nn * r * dw * dw / (1.0 - w[a] * w[a]) / (1.0 - w[b] * w[b]);
            scale = scale.max(element[a * GRID + b].abs());
        }}
        let factor = if method == 3 { gaussian_factor(k, nn) } else { 0.0 };
        let weight = |g: f64| if method == 3 { factor * g * g } else { nn * efjc_reduced(k, g).1 };
        let norm = (0..GRID).map(|i| grid[i] * grid[i] / (1.0 - w[i] * w[i]) * (-weight(grid[i])).exp()).sum::<f64>() * 4.0 * PI * dw;
        let b = Box::new(BucheSilberstein::init(method, k, n));
        for left in [true, false] {
            let (fe, fg) = (Fenced::new(&element, left), Fenced::new(&grid, left));
            for t in 0..2 {
                let s = r.uniform(0.8, 2.5);
                let y = if t == 0 { b.uniaxial_tension(&s) } else { b.equibiaxial_tension(&s) };
                let show = || format!("method={method} stiffness={k:?} links={n} stretch={s:?} arrays fenced on the {}", if left { "left" } else { "right" });
                mark(&format!("{} {}", names[t], show()));
                let x = unsafe { f[t](fe.at, factor, fg.at, norm, method, k, n, s) };
                c.close(names[t], x, y, 1e-7 * (y.abs() + s * s + nn * 1e-3), show);
            }
        }
    }
    // arrays no network has: any magnitudes and signs, zeros, unordered grids
    for i in 0..c.budget(12, 120) {
        let method = if i % 3 == 0 { 2u8 } else { 3 };
        let (k, n) = (r.log_uniform(5.0, 1000.0), r.int(2, 255) as u8);
        let nn = n as f64;
        let grid: Vec<f64> = (0..GRID).map(|_| r.log_uniform(0.01, 1.5)).collect();
        let low = *r.pick(&[-1.0, -12.0, -40.0, -250.0]);
        let element: Vec<f64> = (0..GRID * GRID).map(|_| match r.int(0, 9) { 0 => 0.0, 1 => -0.0, 2..=4 => -(10f64.powf(r.uniform(low, 1.0))), _ => 10f64.powf(r.uniform(low, 1.0)) }).collect();
        let (factor, norm) = (r.log_uniform(0.5, 60.0), r.log_uniform(0.1, 10.0));
        let weight = |g: f64| if method == 3 { factor * g * g } else { nn * efjc_reduced(k, g).1 };
        for left in [true, false] {
            let (fe, fg) = (Fenced::new(&element, left), Fenced::new(&grid, left));
            for t in 0..2 {
                let s = r.uniform(0.8, 1.6);
                let (a, b) = if t == 0 { (1.0 / s, s.sqrt()) } else { (s * s, 1.0 / s) };
                let (mut y, mut scale) = (0.0, 0.0);
                for u in 0..GRID { for v in 0..GRID {
                    let x = element[u * GRID + v] * (-weight((grid[u] * a).hypot(grid[v] * b))).exp() / norm * if t == 0 { 1.0 } else { -1.0 };
                    y += x; scale += x.abs();
                }}
                let show = || format!("method={method} stiffness={k:?} links={n} stretch={s:?} arbitrary arrays down to 1e{low} fenced on the {}", if left { "left" } else { "right" });
                mark(&format!("{} {}", names[t], show()));
                let x = unsafe { f[t](fe.at, factor, fg.at, norm, method, k, n, s) };
                c.close(&format!("{} of arbitrary arrays", names[t]), x, y, 1e-7 * scale + 1e-300, show);
            }
        }
    }
    // the same two under an interpreter that checks every access
    match std::env::var("MIRI_RESULT") {
        Ok(path) => {
            let said = std::fs::read_to_string(&path).unwrap_or_default();
            if said.contains("Undefined Behavior") { c.violate("Miri: undefined behavior in the C functions that take arrays", &said.lines().filter(|l| l.contains("Undefined Behavior") || l.contains("-->")).take(4).collect::<Vec<_>>().join(" / ")); }
            let lines: Vec<&str> = said.lines().filter_map(|l| l.strip_prefix("observed ")).collect();
            for l in &lines { c.decide("Miri: checked call", true, true, || l.to_string()); }
            if lines.is_empty() && !said.contains("Undefined Behavior") { c.note(format!("Miri gave no answer: {}", said.lines().rev().take(3).collect::<Vec<_>>().join(" / "))); }
        }
        Err(_) => c.note("Miri was not run"),
    }
}
