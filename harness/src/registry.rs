// Generated by tools/gen_registry.py from the public API; committed, not regenerated by the checks.
#![allow(clippy::all)]
use super::params::P;
use polymers::physics::single_chain as sc;
use std::ffi::c_void;
pub struct Entry { pub id: usize, pub module: &'static str, pub model: &'static str, pub func: &'static str, pub params: &'static [&'static str], pub margs: &'static [&'static str], pub free: fn(&P) -> f64, pub nested: fn(&Models, &P) -> f64, pub own: fn(&P) -> f64, pub symbol: Option<&'static str>, pub ccall: fn(*const c_void, &P) -> f64 }
pub struct Models {
    pub ideal: sc::ideal::Ideal,
    pub fjc: sc::fjc::FJC,
    pub efjc: sc::efjc::EFJC,
    pub swfjc: sc::swfjc::SWFJC,
    pub wlc: sc::wlc::WLC,
    pub lennard_jones: sc::ufjc::lennard_jones::LENNARDJONESFJC,
    pub log_squared: sc::ufjc::log_squared::LOGSQUAREDFJC,
    pub morse: sc::ufjc::morse::MORSEFJC,
}
impl Models { pub fn init(p: &P) -> Models { Models {
    ideal: sc::ideal::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass),
    fjc: sc::fjc::FJC::init(p.number_of_links, p.link_length, p.hinge_mass),
    efjc: sc::efjc::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness),
    swfjc: sc::swfjc::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width),
    wlc: sc::wlc::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length),
    lennard_jones: sc::ufjc::lennard_jones::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness),
    log_squared: sc::ufjc::log_squared::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness),
    morse: sc::ufjc::morse::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy),
} } }
fn no_symbol(_: *const c_void, _: &P) -> f64 { f64::NAN }
fn f0(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::force(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m0(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.force(&p.end_to_end_length, &p.temperature) }
fn o0(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).force(&p.end_to_end_length, &p.temperature) }
fn c0(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f1(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_force(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m1(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o1(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c1(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f2(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m2(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o2(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c2(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f3(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m3(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o3(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c3(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f4(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m4(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o4(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c4(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f5(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m5(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o5(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c5(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f6(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m6(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o6(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c6(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f7(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m7(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o7(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c7(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f8(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m8(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o8(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c8(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f9(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m9(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o9(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c9(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f10(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::force(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m10(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.legendre.force(&p.end_to_end_length, &p.temperature) }
fn o10(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).force(&p.end_to_end_length, &p.temperature) }
fn c10(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f11(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m11(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o11(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c11(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f12(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m12(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o12(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c12(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f13(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m13(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o13(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c13(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f14(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m14(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o14(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c14(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f15(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m15(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o15(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c15(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f16(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m16(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o16(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c16(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f17(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m17(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o17(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c17(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f18(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m18(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o18(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c18(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f19(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m19(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o19(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c19(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f20(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::force(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m20(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.force(&p.end_to_end_length, &p.temperature) }
fn o20(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).force(&p.end_to_end_length, &p.temperature) }
fn c20(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f21(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m21(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o21(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c21(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f22(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m22(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o22(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c22(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f23(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m23(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o23(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c23(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f24(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m24(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o24(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c24(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f25(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m25(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o25(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c25(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f26(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m26(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o26(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c26(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f27(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m27(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o27(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c27(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f28(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m28(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o28(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c28(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f29(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m29(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o29(p: &P) -> f64 { sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c29(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f30(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m30(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.end_to_end_length(&p.force, &p.temperature) }
fn o30(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length(&p.force, &p.temperature) }
fn c30(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f31(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m31(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o31(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c31(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f32(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m32(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o32(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c32(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f33(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m33(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o33(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c33(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f34(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m34(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.gibbs_free_energy(&p.force, &p.temperature) }
fn o34(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy(&p.force, &p.temperature) }
fn c34(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f35(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m35(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o35(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c35(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f36(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m36(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o36(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c36(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f37(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m37(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o37(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c37(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f38(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m38(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o38(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c38(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f39(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m39(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o39(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c39(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f40(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m40(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o40(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c40(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f41(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m41(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o41(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c41(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f42(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m42(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.end_to_end_length(&p.force, &p.temperature) }
fn o42(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length(&p.force, &p.temperature) }
fn c42(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f43(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m43(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o43(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c43(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f44(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m44(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o44(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c44(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f45(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m45(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o45(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c45(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f46(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m46(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.gibbs_free_energy(&p.force, &p.temperature) }
fn o46(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy(&p.force, &p.temperature) }
fn c46(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f47(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m47(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o47(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c47(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f48(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m48(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o48(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c48(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f49(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m49(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o49(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c49(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f50(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m50(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o50(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c50(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f51(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m51(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o51(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c51(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f52(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m52(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o52(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c52(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f53(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m53(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o53(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c53(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f54(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m54(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.end_to_end_length(&p.force, &p.temperature) }
fn o54(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length(&p.force, &p.temperature) }
fn c54(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f55(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m55(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o55(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c55(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f56(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m56(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o56(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c56(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f57(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m57(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o57(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c57(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f58(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m58(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.gibbs_free_energy(&p.force, &p.temperature) }
fn o58(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy(&p.force, &p.temperature) }
fn c58(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f59(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m59(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o59(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c59(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f60(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m60(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o60(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c60(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f61(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m61(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o61(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c61(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f62(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m62(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o62(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c62(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f63(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m63(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o63(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c63(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f64(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m64(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o64(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c64(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f65(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m65(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o65(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c65(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f66(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m66(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o66(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.force, &p.temperature) }
fn c66(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f67(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m67(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o67(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c67(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f68(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m68(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o68(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c68(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f69(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m69(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o69(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c69(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f70(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m70(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o70(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c70(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f71(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m71(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o71(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c71(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f72(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m72(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o72(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c72(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f73(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m73(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o73(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c73(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f74(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m74(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o74(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.force, &p.temperature) }
fn c74(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f75(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m75(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o75(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c75(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f76(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m76(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o76(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c76(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f77(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m77(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o77(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c77(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f78(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m78(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o78(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c78(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f79(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m79(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o79(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c79(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f80(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m80(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o80(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c80(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f81(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m81(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o81(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c81(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f82(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m82(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&p.force, &p.temperature) }
fn o82(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length(&p.force, &p.temperature) }
fn c82(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f83(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m83(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o83(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c83(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f84(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m84(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o84(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c84(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f85(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m85(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o85(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c85(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f86(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m86(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&p.force, &p.temperature) }
fn o86(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy(&p.force, &p.temperature) }
fn c86(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f87(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m87(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o87(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c87(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f88(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m88(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o88(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c88(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f89(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m89(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o89(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c89(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f90(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m90(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o90(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c90(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f91(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m91(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o91(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c91(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f92(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m92(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o92(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c92(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f93(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m93(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o93(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c93(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f94(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m94(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o94(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.force, &p.temperature) }
fn c94(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f95(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m95(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o95(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c95(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f96(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m96(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o96(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c96(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f97(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m97(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o97(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c97(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f98(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m98(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o98(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c98(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f99(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m99(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o99(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c99(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f100(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m100(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o100(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c100(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f101(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m101(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o101(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c101(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f102(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m102(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o102(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.force, &p.temperature) }
fn c102(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f103(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m103(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o103(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c103(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f104(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m104(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o104(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c104(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f105(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m105(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o105(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c105(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f106(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m106(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o106(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c106(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f107(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m107(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o107(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c107(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f108(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m108(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o108(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c108(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f109(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m109(m: &Models, p: &P) -> f64 { m.efjc.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o109(p: &P) -> f64 { sc::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c109(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f110(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::force(&p.number_of_links, &p.link_length, &p.end_to_end_length, &p.temperature) }
fn m110(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.force(&p.end_to_end_length, &p.temperature) }
fn o110(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).force(&p.end_to_end_length, &p.temperature) }
fn c110(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length, p.temperature) }
fn f111(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::nondimensional_force(&p.number_of_links, &p.nondimensional_end_to_end_length_per_link) }
fn m111(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.nondimensional_force(&p.nondimensional_end_to_end_length_per_link) }
fn o111(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_force(&p.nondimensional_end_to_end_length_per_link) }
fn c111(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_end_to_end_length_per_link) }
fn f112(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.end_to_end_length, &p.temperature) }
fn m112(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o112(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c112(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.end_to_end_length, p.temperature) }
fn f113(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.end_to_end_length, &p.temperature) }
fn m113(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o113(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c113(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.end_to_end_length, p.temperature) }
fn f114(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.end_to_end_length, &p.temperature) }
fn m114(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o114(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c114(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length, p.temperature) }
fn f115(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.end_to_end_length, &p.temperature) }
fn m115(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o115(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c115(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length, p.temperature) }
fn f116(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m116(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o116(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c116(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f117(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m117(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o117(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c117(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f118(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_end_to_end_length_per_link) }
fn m118(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn o118(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn c118(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_end_to_end_length_per_link) }
fn f119(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.nondimensional_end_to_end_length_per_link) }
fn m119(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn o119(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn c119(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_end_to_end_length_per_link) }
fn f120(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::equilibrium_distribution(&p.number_of_links, &p.link_length, &p.end_to_end_length) }
fn m120(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.equilibrium_distribution(&p.end_to_end_length) }
fn o120(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).equilibrium_distribution(&p.end_to_end_length) }
fn c120(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length) }
fn f121(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::nondimensional_equilibrium_distribution(&p.number_of_links, &p.nondimensional_end_to_end_length_per_link) }
fn m121(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.nondimensional_equilibrium_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn o121(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_equilibrium_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn c121(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_end_to_end_length_per_link) }
fn f122(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::equilibrium_radial_distribution(&p.number_of_links, &p.link_length, &p.end_to_end_length) }
fn m122(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.equilibrium_radial_distribution(&p.end_to_end_length) }
fn o122(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).equilibrium_radial_distribution(&p.end_to_end_length) }
fn c122(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length) }
fn f123(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::nondimensional_equilibrium_radial_distribution(&p.number_of_links, &p.nondimensional_end_to_end_length_per_link) }
fn m123(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.nondimensional_equilibrium_radial_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn o123(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_equilibrium_radial_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn c123(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_end_to_end_length_per_link) }
fn f124(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::force(&p.number_of_links, &p.link_length, &p.end_to_end_length, &p.temperature) }
fn m124(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.force(&p.end_to_end_length, &p.temperature) }
fn o124(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).force(&p.end_to_end_length, &p.temperature) }
fn c124(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length, p.temperature) }
fn f125(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::nondimensional_force(&p.nondimensional_end_to_end_length_per_link) }
fn m125(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.nondimensional_force(&p.nondimensional_end_to_end_length_per_link) }
fn o125(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_force(&p.nondimensional_end_to_end_length_per_link) }
fn c125(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_end_to_end_length_per_link) }
fn f126(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.end_to_end_length, &p.temperature) }
fn m126(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o126(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c126(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.end_to_end_length, p.temperature) }
fn f127(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.end_to_end_length, &p.temperature) }
fn m127(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o127(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c127(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.end_to_end_length, p.temperature) }
fn f128(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.end_to_end_length, &p.temperature) }
fn m128(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o128(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c128(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length, p.temperature) }
fn f129(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.end_to_end_length, &p.temperature) }
fn m129(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o129(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c129(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length, p.temperature) }
fn f130(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m130(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o130(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c130(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f131(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m131(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o131(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c131(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f132(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_end_to_end_length_per_link) }
fn m132(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn o132(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn c132(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_end_to_end_length_per_link) }
fn f133(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn m133(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn o133(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn c133(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_end_to_end_length_per_link) }
fn f134(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::equilibrium_distribution(&p.number_of_links, &p.link_length, &p.normalization, &p.end_to_end_length) }
fn m134(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.equilibrium_distribution(&p.end_to_end_length) }
fn o134(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).equilibrium_distribution(&p.end_to_end_length) }
fn c134(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.normalization, p.end_to_end_length) }
fn f135(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_distribution(&p.number_of_links, &p.normalization, &p.nondimensional_end_to_end_length_per_link) }
fn m135(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.nondimensional_equilibrium_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn o135(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_equilibrium_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn c135(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.normalization, p.nondimensional_end_to_end_length_per_link) }
fn f136(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::equilibrium_radial_distribution(&p.number_of_links, &p.link_length, &p.normalization, &p.end_to_end_length) }
fn m136(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.equilibrium_radial_distribution(&p.end_to_end_length) }
fn o136(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).equilibrium_radial_distribution(&p.end_to_end_length) }
fn c136(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.normalization, p.end_to_end_length) }
fn f137(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_radial_distribution(&p.number_of_links, &p.normalization, &p.nondimensional_end_to_end_length_per_link) }
fn m137(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.nondimensional_equilibrium_radial_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn o137(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_equilibrium_radial_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn c137(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.normalization, p.nondimensional_end_to_end_length_per_link) }
fn f138(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.end_to_end_length, &p.temperature) }
fn m138(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.gibbs_free_energy(&p.end_to_end_length, &p.temperature) }
fn o138(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).gibbs_free_energy(&p.end_to_end_length, &p.temperature) }
fn c138(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.end_to_end_length, p.temperature) }
fn f139(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.end_to_end_length, &p.temperature) }
fn m139(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.gibbs_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o139(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).gibbs_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c139(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.end_to_end_length, p.temperature) }
fn f140(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.end_to_end_length, &p.temperature) }
fn m140(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.relative_gibbs_free_energy(&p.end_to_end_length, &p.temperature) }
fn o140(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_gibbs_free_energy(&p.end_to_end_length, &p.temperature) }
fn c140(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length, p.temperature) }
fn f141(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::relative_gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.end_to_end_length, &p.temperature) }
fn m141(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.relative_gibbs_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o141(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_gibbs_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c141(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length, p.temperature) }
fn f142(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m142(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o142(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_gibbs_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c142(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f143(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m143(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o143(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c143(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f144(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_end_to_end_length_per_link) }
fn m144(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn o144(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_gibbs_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn c144(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_end_to_end_length_per_link) }
fn f145(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy_per_link(&p.number_of_links, &p.nondimensional_end_to_end_length_per_link) }
fn m145(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn o145(p: &P) -> f64 { sc::fjc::thermodynamics::isometric::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn c145(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_end_to_end_length_per_link) }
fn f146(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::end_to_end_length(&p.number_of_links, &p.link_length, &p.force, &p.temperature) }
fn m146(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.end_to_end_length(&p.force, &p.temperature) }
fn o146(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).end_to_end_length(&p.force, &p.temperature) }
fn c146(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.force, p.temperature) }
fn f147(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::end_to_end_length_per_link(&p.link_length, &p.force, &p.temperature) }
fn m147(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o147(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c147(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.force, p.temperature) }
fn f148(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_force) }
fn m148(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nondimensional_force) }
fn o148(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_end_to_end_length(&p.nondimensional_force) }
fn c148(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_force) }
fn f149(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nondimensional_force) }
fn m149(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nondimensional_force) }
fn o149(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_end_to_end_length_per_link(&p.nondimensional_force) }
fn c149(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_force) }
fn f150(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.force, &p.temperature) }
fn m150(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.gibbs_free_energy(&p.force, &p.temperature) }
fn o150(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).gibbs_free_energy(&p.force, &p.temperature) }
fn c150(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.force, p.temperature) }
fn f151(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.force, &p.temperature) }
fn m151(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o151(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c151(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.force, p.temperature) }
fn f152(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.force, &p.temperature) }
fn m152(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o152(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c152(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.force, p.temperature) }
fn f153(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.link_length, &p.force, &p.temperature) }
fn m153(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o153(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c153(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.force, p.temperature) }
fn f154(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_force, &p.temperature) }
fn m154(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o154(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c154(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_force, p.temperature) }
fn f155(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_force, &p.temperature) }
fn m155(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o155(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c155(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_force, p.temperature) }
fn f156(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_force) }
fn m156(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force) }
fn o156(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force) }
fn c156(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_force) }
fn f157(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force) }
fn m157(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force) }
fn o157(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force) }
fn c157(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_force) }
fn f158(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.force, &p.temperature) }
fn m158(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o158(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).helmholtz_free_energy(&p.force, &p.temperature) }
fn c158(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.force, p.temperature) }
fn f159(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.force, &p.temperature) }
fn m159(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o159(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c159(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.force, p.temperature) }
fn f160(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.force, &p.temperature) }
fn m160(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o160(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c160(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.force, p.temperature) }
fn f161(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.force, &p.temperature) }
fn m161(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o161(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c161(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.force, p.temperature) }
fn f162(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_force, &p.temperature) }
fn m162(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o162(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c162(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_force, p.temperature) }
fn f163(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_force, &p.temperature) }
fn m163(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o163(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c163(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_force, p.temperature) }
fn f164(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_force) }
fn m164(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force) }
fn o164(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force) }
fn c164(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_force) }
fn f165(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force) }
fn m165(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force) }
fn o165(p: &P) -> f64 { sc::fjc::thermodynamics::isotensional::legendre::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force) }
fn c165(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_force) }
fn f166(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::end_to_end_length(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m166(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.end_to_end_length(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o166(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).end_to_end_length(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c166(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f167(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::end_to_end_length_per_link(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m167(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.end_to_end_length_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o167(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).end_to_end_length_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c167(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f168(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m168(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.nondimensional_end_to_end_length(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o168(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_end_to_end_length(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c168(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f169(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::nondimensional_end_to_end_length_per_link(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m169(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.nondimensional_end_to_end_length_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o169(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_end_to_end_length_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c169(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f170(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::force(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m170(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.force(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o170(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).force(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c170(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f171(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::nondimensional_force(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m171(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.nondimensional_force(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o171(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_force(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c171(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f172(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m172(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.helmholtz_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o172(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).helmholtz_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c172(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f173(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m173(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.helmholtz_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o173(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).helmholtz_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c173(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f174(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m174(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.relative_helmholtz_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o174(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_helmholtz_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c174(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f175(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m175(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.relative_helmholtz_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o175(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_helmholtz_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c175(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f176(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn m176(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.nondimensional_helmholtz_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn o176(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_helmholtz_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn c176(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness, p.temperature) }
fn f177(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn m177(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn o177(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn c177(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness, p.temperature) }
fn f178(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m178(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o178(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c178(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f179(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::nondimensional_relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m179(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o179(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c179(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f180(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m180(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.gibbs_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o180(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).gibbs_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c180(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f181(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m181(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.gibbs_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o181(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).gibbs_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c181(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f182(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m182(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.relative_gibbs_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o182(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_gibbs_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c182(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f183(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::relative_gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m183(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.relative_gibbs_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o183(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_gibbs_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c183(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f184(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn m184(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.nondimensional_gibbs_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn o184(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_gibbs_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn c184(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness, p.temperature) }
fn f185(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::nondimensional_gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn m185(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn o185(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn c185(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness, p.temperature) }
fn f186(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m186(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.nondimensional_relative_gibbs_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o186(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_gibbs_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c186(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f187(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::nondimensional_relative_gibbs_free_energy_per_link(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m187(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o187(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c187(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f188(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::force(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m188(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.force(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o188(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).force(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c188(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f189(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_force(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m189(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_force(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o189(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_force(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c189(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f190(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m190(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.helmholtz_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o190(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).helmholtz_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c190(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f191(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m191(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.helmholtz_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o191(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).helmholtz_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c191(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f192(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m192(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.relative_helmholtz_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o192(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_helmholtz_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c192(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f193(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m193(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.relative_helmholtz_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o193(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_helmholtz_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c193(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f194(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn m194(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_helmholtz_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn o194(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_helmholtz_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn c194(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness, p.temperature) }
fn f195(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn m195(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn o195(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn c195(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness, p.temperature) }
fn f196(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m196(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o196(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c196(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f197(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m197(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o197(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c197(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f198(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::end_to_end_length(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m198(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.end_to_end_length(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o198(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).end_to_end_length(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c198(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f199(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::end_to_end_length_per_link(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m199(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.end_to_end_length_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o199(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).end_to_end_length_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c199(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f200(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m200(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_end_to_end_length(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o200(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_end_to_end_length(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c200(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f201(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_end_to_end_length_per_link(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m201(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_end_to_end_length_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o201(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_end_to_end_length_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c201(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f202(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::force(&p.potential_distance, &p.potential_stiffness) }
fn m202(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.force(&p.potential_distance, &p.potential_stiffness) }
fn o202(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).force(&p.potential_distance, &p.potential_stiffness) }
fn c202(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.potential_distance, p.potential_stiffness) }
fn f203(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_force(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m203(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_force(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o203(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_force(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c203(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f204(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m204(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.gibbs_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o204(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).gibbs_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c204(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f205(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m205(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.gibbs_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o205(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).gibbs_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c205(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f206(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m206(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.relative_gibbs_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o206(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_gibbs_free_energy(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c206(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f207(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::relative_gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn m207(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.relative_gibbs_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn o207(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).relative_gibbs_free_energy_per_link(&p.potential_distance, &p.potential_stiffness, &p.temperature) }
fn c207(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.potential_distance, p.potential_stiffness, p.temperature) }
fn f208(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn m208(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_gibbs_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn o208(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_gibbs_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn c208(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness, p.temperature) }
fn f209(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn m209(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn o209(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness, &p.temperature) }
fn c209(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness, p.temperature) }
fn f210(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m210(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_relative_gibbs_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o210(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_gibbs_free_energy(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c210(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f211(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_relative_gibbs_free_energy_per_link(&p.number_of_links, &p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn m211(m: &Models, p: &P) -> f64 { m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn o211(p: &P) -> f64 { sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_potential_distance, &p.nondimensional_potential_stiffness) }
fn c211(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_potential_distance, p.nondimensional_potential_stiffness) }
fn f212(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::force(&p.number_of_links, &p.link_length, &p.end_to_end_length, &p.temperature) }
fn m212(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.force(&p.end_to_end_length, &p.temperature) }
fn o212(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).force(&p.end_to_end_length, &p.temperature) }
fn c212(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length, p.temperature) }
fn f213(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::nondimensional_force(&p.nondimensional_end_to_end_length_per_link) }
fn m213(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.nondimensional_force(&p.nondimensional_end_to_end_length_per_link) }
fn o213(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_force(&p.nondimensional_end_to_end_length_per_link) }
fn c213(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_end_to_end_length_per_link) }
fn f214(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.end_to_end_length, &p.temperature) }
fn m214(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o214(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c214(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.end_to_end_length, p.temperature) }
fn f215(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.end_to_end_length, &p.temperature) }
fn m215(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o215(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c215(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.end_to_end_length, p.temperature) }
fn f216(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.end_to_end_length, &p.temperature) }
fn m216(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o216(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c216(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length, p.temperature) }
fn f217(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.end_to_end_length, &p.temperature) }
fn m217(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o217(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c217(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length, p.temperature) }
fn f218(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m218(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o218(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c218(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f219(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m219(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o219(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c219(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f220(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_end_to_end_length_per_link) }
fn m220(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn o220(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn c220(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_end_to_end_length_per_link) }
fn f221(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn m221(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn o221(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn c221(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_end_to_end_length_per_link) }
fn f222(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::equilibrium_distribution(&p.number_of_links, &p.link_length, &p.end_to_end_length) }
fn m222(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.equilibrium_distribution(&p.end_to_end_length) }
fn o222(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).equilibrium_distribution(&p.end_to_end_length) }
fn c222(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length) }
fn f223(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::nondimensional_equilibrium_distribution(&p.number_of_links, &p.nondimensional_end_to_end_length_per_link) }
fn m223(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.nondimensional_equilibrium_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn o223(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_equilibrium_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn c223(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_end_to_end_length_per_link) }
fn f224(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::equilibrium_radial_distribution(&p.number_of_links, &p.link_length, &p.end_to_end_length) }
fn m224(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.equilibrium_radial_distribution(&p.end_to_end_length) }
fn o224(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).equilibrium_radial_distribution(&p.end_to_end_length) }
fn c224(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.end_to_end_length) }
fn f225(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::nondimensional_equilibrium_radial_distribution(&p.number_of_links, &p.nondimensional_end_to_end_length_per_link) }
fn m225(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isometric.nondimensional_equilibrium_radial_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn o225(p: &P) -> f64 { sc::ideal::thermodynamics::isometric::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_equilibrium_radial_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn c225(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_end_to_end_length_per_link) }
fn f226(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::end_to_end_length(&p.number_of_links, &p.link_length, &p.force, &p.temperature) }
fn m226(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isotensional.end_to_end_length(&p.force, &p.temperature) }
fn o226(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).end_to_end_length(&p.force, &p.temperature) }
fn c226(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.force, p.temperature) }
fn f227(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::end_to_end_length_per_link(&p.link_length, &p.force, &p.temperature) }
fn m227(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isotensional.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o227(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c227(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.force, p.temperature) }
fn f228(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_force) }
fn m228(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nondimensional_force) }
fn o228(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_end_to_end_length(&p.nondimensional_force) }
fn c228(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_force) }
fn f229(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nondimensional_force) }
fn m229(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nondimensional_force) }
fn o229(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_end_to_end_length_per_link(&p.nondimensional_force) }
fn c229(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_force) }
fn f230(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.force, &p.temperature) }
fn m230(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isotensional.gibbs_free_energy(&p.force, &p.temperature) }
fn o230(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).gibbs_free_energy(&p.force, &p.temperature) }
fn c230(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.force, p.temperature) }
fn f231(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.force, &p.temperature) }
fn m231(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isotensional.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o231(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c231(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.force, p.temperature) }
fn f232(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.force, &p.temperature) }
fn m232(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isotensional.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o232(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c232(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.force, p.temperature) }
fn f233(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.link_length, &p.force, &p.temperature) }
fn m233(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o233(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c233(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.force, p.temperature) }
fn f234(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_force, &p.temperature) }
fn m234(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o234(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c234(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_force, p.temperature) }
fn f235(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_force, &p.temperature) }
fn m235(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o235(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c235(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_force, p.temperature) }
fn f236(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_force) }
fn m236(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force) }
fn o236(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force) }
fn c236(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_force) }
fn f237(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force) }
fn m237(m: &Models, p: &P) -> f64 { m.ideal.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force) }
fn o237(p: &P) -> f64 { sc::ideal::thermodynamics::isotensional::Ideal::init(p.number_of_links, p.link_length, p.hinge_mass).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force) }
fn c237(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_force) }
fn f238(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::force(&p.number_of_links, &p.link_length, &p.well_width, &p.end_to_end_length, &p.temperature) }
fn m238(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.force(&p.end_to_end_length, &p.temperature) }
fn o238(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).force(&p.end_to_end_length, &p.temperature) }
fn c238(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.end_to_end_length, p.temperature) }
fn f239(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::nondimensional_force(&p.link_length, &p.well_width, &p.nondimensional_end_to_end_length_per_link) }
fn m239(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.nondimensional_force(&p.nondimensional_end_to_end_length_per_link) }
fn o239(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_force(&p.nondimensional_end_to_end_length_per_link) }
fn c239(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.well_width, p.nondimensional_end_to_end_length_per_link) }
fn f240(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.well_width, &p.end_to_end_length, &p.temperature) }
fn m240(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o240(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c240(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.well_width, p.end_to_end_length, p.temperature) }
fn f241(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.well_width, &p.end_to_end_length, &p.temperature) }
fn m241(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o241(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c241(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.well_width, p.end_to_end_length, p.temperature) }
fn f242(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.well_width, &p.end_to_end_length, &p.temperature) }
fn m242(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o242(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c242(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.end_to_end_length, p.temperature) }
fn f243(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.well_width, &p.end_to_end_length, &p.temperature) }
fn m243(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o243(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c243(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.end_to_end_length, p.temperature) }
fn f244(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.well_width, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m244(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o244(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c244(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.well_width, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f245(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.well_width, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m245(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o245(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c245(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.well_width, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f246(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.well_width, &p.nondimensional_end_to_end_length_per_link) }
fn m246(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn o246(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn c246(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.nondimensional_end_to_end_length_per_link) }
fn f247(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.link_length, &p.well_width, &p.nondimensional_end_to_end_length_per_link) }
fn m247(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn o247(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn c247(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.well_width, p.nondimensional_end_to_end_length_per_link) }
fn f248(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::equilibrium_distribution(&p.number_of_links, &p.link_length, &p.well_width, &p.normalization, &p.end_to_end_length) }
fn m248(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.equilibrium_distribution(&p.end_to_end_length) }
fn o248(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).equilibrium_distribution(&p.end_to_end_length) }
fn c248(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.normalization, p.end_to_end_length) }
fn f249(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_distribution(&p.number_of_links, &p.link_length, &p.well_width, &p.normalization, &p.nondimensional_end_to_end_length_per_link) }
fn m249(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.nondimensional_equilibrium_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn o249(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_equilibrium_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn c249(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.normalization, p.nondimensional_end_to_end_length_per_link) }
fn f250(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::equilibrium_radial_distribution(&p.number_of_links, &p.link_length, &p.well_width, &p.normalization, &p.end_to_end_length) }
fn m250(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.equilibrium_radial_distribution(&p.end_to_end_length) }
fn o250(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).equilibrium_radial_distribution(&p.end_to_end_length) }
fn c250(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.normalization, p.end_to_end_length) }
fn f251(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_radial_distribution(&p.number_of_links, &p.link_length, &p.well_width, &p.normalization, &p.nondimensional_end_to_end_length_per_link) }
fn m251(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isometric.legendre.nondimensional_equilibrium_radial_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn o251(p: &P) -> f64 { sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_equilibrium_radial_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn c251(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.normalization, p.nondimensional_end_to_end_length_per_link) }
fn f252(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::end_to_end_length(&p.number_of_links, &p.link_length, &p.well_width, &p.force, &p.temperature) }
fn m252(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.end_to_end_length(&p.force, &p.temperature) }
fn o252(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).end_to_end_length(&p.force, &p.temperature) }
fn c252(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.force, p.temperature) }
fn f253(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::end_to_end_length_per_link(&p.link_length, &p.well_width, &p.force, &p.temperature) }
fn m253(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o253(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c253(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.well_width, p.force, p.temperature) }
fn f254(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.number_of_links, &p.link_length, &p.well_width, &p.nondimensional_force) }
fn m254(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nondimensional_force) }
fn o254(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_end_to_end_length(&p.nondimensional_force) }
fn c254(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.nondimensional_force) }
fn f255(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.link_length, &p.well_width, &p.nondimensional_force) }
fn m255(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nondimensional_force) }
fn o255(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_end_to_end_length_per_link(&p.nondimensional_force) }
fn c255(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.well_width, p.nondimensional_force) }
fn f256(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.well_width, &p.force, &p.temperature) }
fn m256(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.gibbs_free_energy(&p.force, &p.temperature) }
fn o256(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).gibbs_free_energy(&p.force, &p.temperature) }
fn c256(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.well_width, p.force, p.temperature) }
fn f257(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.well_width, &p.force, &p.temperature) }
fn m257(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o257(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c257(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.well_width, p.force, p.temperature) }
fn f258(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.well_width, &p.force, &p.temperature) }
fn m258(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o258(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c258(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.force, p.temperature) }
fn f259(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.link_length, &p.well_width, &p.force, &p.temperature) }
fn m259(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o259(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c259(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.well_width, p.force, p.temperature) }
fn f260(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.well_width, &p.nondimensional_force, &p.temperature) }
fn m260(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o260(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c260(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.well_width, p.nondimensional_force, p.temperature) }
fn f261(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.well_width, &p.nondimensional_force, &p.temperature) }
fn m261(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o261(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c261(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.well_width, p.nondimensional_force, p.temperature) }
fn f262(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.well_width, &p.nondimensional_force) }
fn m262(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force) }
fn o262(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force) }
fn c262(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.nondimensional_force) }
fn f263(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.link_length, &p.well_width, &p.nondimensional_force) }
fn m263(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force) }
fn o263(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force) }
fn c263(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.well_width, p.nondimensional_force) }
fn f264(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.well_width, &p.force, &p.temperature) }
fn m264(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o264(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).helmholtz_free_energy(&p.force, &p.temperature) }
fn c264(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.well_width, p.force, p.temperature) }
fn f265(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.well_width, &p.force, &p.temperature) }
fn m265(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o265(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c265(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.well_width, p.force, p.temperature) }
fn f266(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.well_width, &p.force, &p.temperature) }
fn m266(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o266(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c266(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.force, p.temperature) }
fn f267(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.well_width, &p.force, &p.temperature) }
fn m267(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o267(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c267(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.well_width, p.force, p.temperature) }
fn f268(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.well_width, &p.nondimensional_force, &p.temperature) }
fn m268(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o268(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c268(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.well_width, p.nondimensional_force, p.temperature) }
fn f269(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.well_width, &p.nondimensional_force, &p.temperature) }
fn m269(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o269(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c269(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.well_width, p.nondimensional_force, p.temperature) }
fn f270(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.well_width, &p.nondimensional_force) }
fn m270(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force) }
fn o270(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force) }
fn c270(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.well_width, p.nondimensional_force) }
fn f271(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.link_length, &p.well_width, &p.nondimensional_force) }
fn m271(m: &Models, p: &P) -> f64 { m.swfjc.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force) }
fn o271(p: &P) -> f64 { sc::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.well_width).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force) }
fn c271(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.well_width, p.nondimensional_force) }
fn f272(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::force(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m272(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.force(&p.end_to_end_length, &p.temperature) }
fn o272(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).force(&p.end_to_end_length, &p.temperature) }
fn c272(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f273(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m273(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o273(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c273(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f274(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m274(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o274(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c274(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f275(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m275(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o275(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c275(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f276(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m276(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o276(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c276(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f277(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m277(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o277(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c277(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f278(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m278(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o278(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c278(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f279(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m279(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o279(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c279(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f280(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m280(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o280(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c280(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f281(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m281(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o281(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c281(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f282(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::force(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m282(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.force(&p.end_to_end_length, &p.temperature) }
fn o282(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).force(&p.end_to_end_length, &p.temperature) }
fn c282(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f283(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m283(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o283(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c283(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f284(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m284(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o284(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c284(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f285(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m285(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o285(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c285(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f286(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m286(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o286(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c286(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f287(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m287(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o287(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c287(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f288(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m288(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o288(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c288(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f289(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m289(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o289(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c289(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f290(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m290(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o290(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c290(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f291(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m291(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o291(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c291(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f292(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m292(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.end_to_end_length(&p.force, &p.temperature) }
fn o292(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length(&p.force, &p.temperature) }
fn c292(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f293(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m293(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o293(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c293(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f294(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m294(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o294(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c294(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f295(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m295(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o295(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c295(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f296(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m296(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.gibbs_free_energy(&p.force, &p.temperature) }
fn o296(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy(&p.force, &p.temperature) }
fn c296(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f297(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m297(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o297(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c297(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f298(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m298(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o298(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c298(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f299(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m299(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o299(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c299(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f300(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m300(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o300(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c300(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f301(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m301(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o301(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c301(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f302(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m302(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o302(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c302(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f303(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m303(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o303(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c303(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f304(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m304(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.end_to_end_length(&p.force, &p.temperature) }
fn o304(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length(&p.force, &p.temperature) }
fn c304(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f305(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m305(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o305(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c305(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f306(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m306(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o306(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c306(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f307(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m307(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o307(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c307(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f308(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m308(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.gibbs_free_energy(&p.force, &p.temperature) }
fn o308(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy(&p.force, &p.temperature) }
fn c308(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f309(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m309(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o309(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c309(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f310(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m310(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o310(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c310(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f311(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m311(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o311(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c311(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f312(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m312(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o312(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c312(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f313(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m313(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o313(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c313(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f314(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m314(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o314(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c314(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f315(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m315(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o315(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c315(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f316(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m316(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o316(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.force, &p.temperature) }
fn c316(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f317(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m317(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o317(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c317(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f318(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m318(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o318(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c318(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f319(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m319(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o319(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c319(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f320(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m320(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o320(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c320(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f321(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m321(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o321(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c321(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f322(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m322(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o322(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c322(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f323(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m323(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o323(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c323(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f324(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m324(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&p.force, &p.temperature) }
fn o324(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length(&p.force, &p.temperature) }
fn c324(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f325(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m325(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o325(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c325(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f326(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m326(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o326(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c326(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f327(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m327(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o327(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c327(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f328(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m328(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&p.force, &p.temperature) }
fn o328(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy(&p.force, &p.temperature) }
fn c328(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f329(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m329(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o329(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c329(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f330(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m330(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o330(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c330(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f331(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m331(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o331(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c331(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f332(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m332(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o332(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c332(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f333(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m333(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o333(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c333(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f334(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m334(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o334(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c334(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f335(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m335(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o335(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c335(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f336(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m336(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o336(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.force, &p.temperature) }
fn c336(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f337(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m337(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o337(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c337(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f338(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m338(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o338(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c338(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f339(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m339(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o339(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c339(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f340(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m340(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o340(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c340(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f341(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m341(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o341(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c341(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f342(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m342(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o342(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c342(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f343(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m343(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o343(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c343(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f344(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m344(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o344(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.force, &p.temperature) }
fn c344(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f345(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m345(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o345(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c345(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f346(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m346(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o346(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c346(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f347(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m347(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o347(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c347(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f348(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m348(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o348(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c348(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f349(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m349(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o349(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c349(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f350(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m350(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o350(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c350(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f351(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m351(m: &Models, p: &P) -> f64 { m.lennard_jones.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o351(p: &P) -> f64 { sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c351(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f352(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::force(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m352(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.legendre.force(&p.end_to_end_length, &p.temperature) }
fn o352(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).force(&p.end_to_end_length, &p.temperature) }
fn c352(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f353(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m353(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o353(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c353(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f354(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m354(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o354(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c354(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f355(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m355(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o355(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c355(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f356(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m356(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o356(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c356(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f357(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m357(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o357(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c357(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f358(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m358(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o358(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c358(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f359(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m359(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o359(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c359(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f360(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m360(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o360(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c360(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f361(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m361(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o361(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c361(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f362(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::force(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m362(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.force(&p.end_to_end_length, &p.temperature) }
fn o362(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).force(&p.end_to_end_length, &p.temperature) }
fn c362(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f363(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m363(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o363(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c363(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f364(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m364(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o364(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c364(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f365(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m365(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o365(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c365(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f366(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m366(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o366(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c366(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f367(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.end_to_end_length, &p.temperature) }
fn m367(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o367(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c367(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.end_to_end_length, p.temperature) }
fn f368(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m368(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o368(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c368(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f369(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m369(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o369(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c369(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f370(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m370(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o370(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c370(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f371(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_end_to_end_length_per_link) }
fn m371(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o371(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c371(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_end_to_end_length_per_link) }
fn f372(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m372(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.end_to_end_length(&p.force, &p.temperature) }
fn o372(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length(&p.force, &p.temperature) }
fn c372(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f373(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m373(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o373(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c373(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f374(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m374(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o374(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c374(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f375(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m375(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o375(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c375(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f376(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m376(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.gibbs_free_energy(&p.force, &p.temperature) }
fn o376(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy(&p.force, &p.temperature) }
fn c376(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f377(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m377(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o377(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c377(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f378(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m378(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o378(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c378(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f379(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m379(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o379(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c379(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f380(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m380(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o380(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c380(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f381(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m381(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o381(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c381(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f382(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m382(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o382(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c382(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f383(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m383(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o383(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c383(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f384(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m384(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.end_to_end_length(&p.force, &p.temperature) }
fn o384(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length(&p.force, &p.temperature) }
fn c384(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f385(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m385(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o385(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c385(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f386(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m386(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o386(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c386(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f387(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m387(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o387(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c387(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f388(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m388(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.gibbs_free_energy(&p.force, &p.temperature) }
fn o388(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy(&p.force, &p.temperature) }
fn c388(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f389(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m389(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o389(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c389(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f390(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m390(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o390(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c390(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f391(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m391(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o391(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c391(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f392(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m392(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o392(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c392(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f393(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m393(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o393(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c393(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f394(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m394(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o394(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c394(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f395(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m395(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o395(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c395(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f396(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m396(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o396(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.force, &p.temperature) }
fn c396(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f397(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m397(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o397(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c397(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f398(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m398(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o398(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c398(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f399(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m399(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o399(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c399(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f400(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m400(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o400(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c400(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f401(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m401(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o401(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c401(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f402(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m402(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o402(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c402(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f403(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m403(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o403(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c403(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f404(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m404(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&p.force, &p.temperature) }
fn o404(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length(&p.force, &p.temperature) }
fn c404(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f405(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m405(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o405(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c405(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f406(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m406(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o406(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c406(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f407(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m407(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o407(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c407(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f408(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m408(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&p.force, &p.temperature) }
fn o408(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy(&p.force, &p.temperature) }
fn c408(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f409(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m409(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o409(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c409(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f410(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m410(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o410(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c410(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f411(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m411(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o411(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c411(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f412(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m412(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o412(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c412(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f413(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m413(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o413(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c413(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f414(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m414(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o414(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c414(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f415(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m415(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o415(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c415(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f416(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m416(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o416(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.force, &p.temperature) }
fn c416(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f417(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m417(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o417(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c417(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f418(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m418(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o418(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c418(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f419(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m419(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o419(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c419(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f420(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m420(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o420(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c420(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f421(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m421(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o421(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c421(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f422(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m422(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o422(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c422(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f423(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m423(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o423(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c423(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f424(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m424(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o424(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy(&p.force, &p.temperature) }
fn c424(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f425(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.force, &p.temperature) }
fn m425(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o425(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c425(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.force, p.temperature) }
fn f426(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m426(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o426(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c426(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f427(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.force, &p.temperature) }
fn m427(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o427(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c427(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.force, p.temperature) }
fn f428(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m428(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o428(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c428(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f429(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_force, &p.temperature) }
fn m429(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o429(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c429(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_force, p.temperature) }
fn f430(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m430(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o430(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c430(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f431(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_force) }
fn m431(m: &Models, p: &P) -> f64 { m.log_squared.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o431(p: &P) -> f64 { sc::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c431(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_force) }
fn f432(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::force(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.end_to_end_length, &p.temperature) }
fn m432(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.legendre.force(&p.end_to_end_length, &p.temperature) }
fn o432(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).force(&p.end_to_end_length, &p.temperature) }
fn c432(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.end_to_end_length, p.temperature) }
fn f433(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_end_to_end_length_per_link) }
fn m433(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o433(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c433(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_end_to_end_length_per_link) }
fn f434(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.end_to_end_length, &p.temperature) }
fn m434(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o434(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c434(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.end_to_end_length, p.temperature) }
fn f435(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.end_to_end_length, &p.temperature) }
fn m435(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o435(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c435(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.end_to_end_length, p.temperature) }
fn f436(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.end_to_end_length, &p.temperature) }
fn m436(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o436(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c436(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.end_to_end_length, p.temperature) }
fn f437(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.end_to_end_length, &p.temperature) }
fn m437(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o437(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c437(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.end_to_end_length, p.temperature) }
fn f438(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m438(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o438(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c438(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f439(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m439(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o439(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c439(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f440(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_end_to_end_length_per_link) }
fn m440(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o440(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c440(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_end_to_end_length_per_link) }
fn f441(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_end_to_end_length_per_link) }
fn m441(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o441(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c441(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_end_to_end_length_per_link) }
fn f442(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::force(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.end_to_end_length, &p.temperature) }
fn m442(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.force(&p.end_to_end_length, &p.temperature) }
fn o442(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).force(&p.end_to_end_length, &p.temperature) }
fn c442(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.end_to_end_length, p.temperature) }
fn f443(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_end_to_end_length_per_link) }
fn m443(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o443(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_force(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c443(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_end_to_end_length_per_link) }
fn f444(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.end_to_end_length, &p.temperature) }
fn m444(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o444(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c444(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.end_to_end_length, p.temperature) }
fn f445(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.end_to_end_length, &p.temperature) }
fn m445(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o445(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c445(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.end_to_end_length, p.temperature) }
fn f446(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.end_to_end_length, &p.temperature) }
fn m446(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o446(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c446(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.end_to_end_length, p.temperature) }
fn f447(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.end_to_end_length, &p.temperature) }
fn m447(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o447(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c447(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.end_to_end_length, p.temperature) }
fn f448(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m448(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o448(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c448(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f449(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m449(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o449(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c449(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f450(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_end_to_end_length_per_link) }
fn m450(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o450(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c450(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_end_to_end_length_per_link) }
fn f451(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_end_to_end_length_per_link) }
fn m451(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o451(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c451(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_end_to_end_length_per_link) }
fn f452(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m452(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.end_to_end_length(&p.force, &p.temperature) }
fn o452(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).end_to_end_length(&p.force, &p.temperature) }
fn c452(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f453(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m453(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o453(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c453(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f454(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m454(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o454(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c454(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f455(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m455(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o455(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c455(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f456(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m456(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.gibbs_free_energy(&p.force, &p.temperature) }
fn o456(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).gibbs_free_energy(&p.force, &p.temperature) }
fn c456(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f457(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m457(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o457(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c457(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f458(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m458(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o458(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c458(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f459(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m459(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o459(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c459(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f460(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force, &p.temperature) }
fn m460(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o460(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c460(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force, p.temperature) }
fn f461(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force, &p.temperature) }
fn m461(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o461(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c461(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force, p.temperature) }
fn f462(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m462(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o462(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c462(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f463(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m463(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o463(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c463(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f464(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m464(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.end_to_end_length(&p.force, &p.temperature) }
fn o464(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).end_to_end_length(&p.force, &p.temperature) }
fn c464(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f465(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m465(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o465(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c465(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f466(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m466(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o466(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c466(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f467(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m467(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o467(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c467(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f468(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m468(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.gibbs_free_energy(&p.force, &p.temperature) }
fn o468(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).gibbs_free_energy(&p.force, &p.temperature) }
fn c468(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f469(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m469(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o469(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c469(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f470(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m470(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o470(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c470(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f471(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m471(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o471(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c471(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f472(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force, &p.temperature) }
fn m472(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o472(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c472(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force, p.temperature) }
fn f473(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force, &p.temperature) }
fn m473(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o473(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c473(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force, p.temperature) }
fn f474(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m474(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o474(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c474(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f475(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m475(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o475(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c475(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f476(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m476(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o476(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).helmholtz_free_energy(&p.force, &p.temperature) }
fn c476(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f477(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m477(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o477(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c477(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f478(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m478(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o478(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c478(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f479(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m479(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o479(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c479(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f480(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force, &p.temperature) }
fn m480(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o480(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c480(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force, p.temperature) }
fn f481(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force, &p.temperature) }
fn m481(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o481(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c481(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force, p.temperature) }
fn f482(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m482(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o482(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c482(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f483(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m483(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o483(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c483(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f484(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m484(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&p.force, &p.temperature) }
fn o484(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).end_to_end_length(&p.force, &p.temperature) }
fn c484(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f485(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m485(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o485(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c485(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f486(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m486(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn o486(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_end_to_end_length(&p.nondimensional_force, &p.temperature) }
fn c486(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f487(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m487(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn o487(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_end_to_end_length_per_link(&p.nondimensional_force, &p.temperature) }
fn c487(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f488(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m488(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&p.force, &p.temperature) }
fn o488(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).gibbs_free_energy(&p.force, &p.temperature) }
fn c488(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f489(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m489(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o489(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c489(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f490(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m490(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o490(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c490(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f491(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m491(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o491(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c491(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f492(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force, &p.temperature) }
fn m492(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o492(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c492(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force, p.temperature) }
fn f493(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force, &p.temperature) }
fn m493(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o493(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c493(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force, p.temperature) }
fn f494(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m494(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o494(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c494(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f495(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m495(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o495(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c495(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f496(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m496(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o496(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).helmholtz_free_energy(&p.force, &p.temperature) }
fn c496(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f497(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m497(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o497(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c497(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f498(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m498(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o498(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c498(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f499(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m499(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o499(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c499(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f500(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force, &p.temperature) }
fn m500(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o500(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c500(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force, p.temperature) }
fn f501(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force, &p.temperature) }
fn m501(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o501(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c501(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force, p.temperature) }
fn f502(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m502(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o502(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c502(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f503(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m503(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o503(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c503(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f504(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m504(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o504(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).helmholtz_free_energy(&p.force, &p.temperature) }
fn c504(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f505(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m505(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o505(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c505(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f506(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m506(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o506(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c506(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f507(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.link_length, &p.link_stiffness, &p.link_energy, &p.force, &p.temperature) }
fn m507(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o507(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c507(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.link_stiffness, p.link_energy, p.force, p.temperature) }
fn f508(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force, &p.temperature) }
fn m508(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o508(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c508(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force, p.temperature) }
fn f509(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.link_length, &p.hinge_mass, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force, &p.temperature) }
fn m509(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o509(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c509(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.link_length, p.hinge_mass, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force, p.temperature) }
fn f510(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m510(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o510(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c510(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f511(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_link_stiffness, &p.nondimensional_link_energy, &p.nondimensional_force) }
fn m511(m: &Models, p: &P) -> f64 { m.morse.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o511(p: &P) -> f64 { sc::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.number_of_links, p.link_length, p.hinge_mass, p.link_stiffness, p.link_energy).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c511(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_link_stiffness, p.nondimensional_link_energy, p.nondimensional_force) }
fn f512(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::force(&p.number_of_links, &p.link_length, &p.persistance_length, &p.end_to_end_length, &p.temperature) }
fn m512(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.force(&p.end_to_end_length, &p.temperature) }
fn o512(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).force(&p.end_to_end_length, &p.temperature) }
fn c512(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.end_to_end_length, p.temperature) }
fn f513(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::nondimensional_force(&p.number_of_links, &p.nondimensional_persistance_length, &p.nondimensional_end_to_end_length_per_link) }
fn m513(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.nondimensional_force(&p.nondimensional_end_to_end_length_per_link) }
fn o513(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_force(&p.nondimensional_end_to_end_length_per_link) }
fn c513(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_persistance_length, p.nondimensional_end_to_end_length_per_link) }
fn f514(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.persistance_length, &p.end_to_end_length, &p.temperature) }
fn m514(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o514(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c514(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length, p.end_to_end_length, p.temperature) }
fn f515(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.persistance_length, &p.end_to_end_length, &p.temperature) }
fn m515(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o515(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c515(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length, p.end_to_end_length, p.temperature) }
fn f516(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.persistance_length, &p.end_to_end_length, &p.temperature) }
fn m516(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn o516(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).relative_helmholtz_free_energy(&p.end_to_end_length, &p.temperature) }
fn c516(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.end_to_end_length, p.temperature) }
fn f517(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.persistance_length, &p.end_to_end_length, &p.temperature) }
fn m517(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o517(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).relative_helmholtz_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c517(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.end_to_end_length, p.temperature) }
fn f518(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_persistance_length, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m518(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o518(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c518(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_persistance_length, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f519(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_persistance_length, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m519(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o519(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c519(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_persistance_length, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f520(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy(&p.nondimensional_persistance_length, &p.nondimensional_end_to_end_length_per_link) }
fn m520(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn o520(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn c520(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_persistance_length, p.nondimensional_end_to_end_length_per_link) }
fn f521(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.nondimensional_persistance_length, &p.nondimensional_end_to_end_length_per_link) }
fn m521(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn o521(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn c521(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_persistance_length, p.nondimensional_end_to_end_length_per_link) }
fn f522(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::equilibrium_distribution(&p.number_of_links, &p.link_length, &p.persistance_length, &p.normalization, &p.end_to_end_length) }
fn m522(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.equilibrium_distribution(&p.end_to_end_length) }
fn o522(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).equilibrium_distribution(&p.end_to_end_length) }
fn c522(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.normalization, p.end_to_end_length) }
fn f523(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::nondimensional_equilibrium_distribution(&p.nondimensional_persistance_length, &p.normalization, &p.nondimensional_end_to_end_length_per_link) }
fn m523(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.nondimensional_equilibrium_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn o523(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_equilibrium_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn c523(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_persistance_length, p.normalization, p.nondimensional_end_to_end_length_per_link) }
fn f524(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::equilibrium_radial_distribution(&p.number_of_links, &p.link_length, &p.persistance_length, &p.normalization, &p.end_to_end_length) }
fn m524(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.equilibrium_radial_distribution(&p.end_to_end_length) }
fn o524(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).equilibrium_radial_distribution(&p.end_to_end_length) }
fn c524(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.normalization, p.end_to_end_length) }
fn f525(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::nondimensional_equilibrium_radial_distribution(&p.nondimensional_persistance_length, &p.normalization, &p.nondimensional_end_to_end_length_per_link) }
fn m525(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.nondimensional_equilibrium_radial_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn o525(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_equilibrium_radial_distribution(&p.nondimensional_end_to_end_length_per_link) }
fn c525(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.nondimensional_persistance_length, p.normalization, p.nondimensional_end_to_end_length_per_link) }
fn f526(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.persistance_length, &p.end_to_end_length, &p.temperature) }
fn m526(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.legendre.gibbs_free_energy(&p.end_to_end_length, &p.temperature) }
fn o526(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).gibbs_free_energy(&p.end_to_end_length, &p.temperature) }
fn c526(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length, p.end_to_end_length, p.temperature) }
fn f527(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.persistance_length, &p.end_to_end_length, &p.temperature) }
fn m527(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.legendre.gibbs_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o527(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).gibbs_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c527(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length, p.end_to_end_length, p.temperature) }
fn f528(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.persistance_length, &p.end_to_end_length, &p.temperature) }
fn m528(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.legendre.relative_gibbs_free_energy(&p.end_to_end_length, &p.temperature) }
fn o528(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).relative_gibbs_free_energy(&p.end_to_end_length, &p.temperature) }
fn c528(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.end_to_end_length, p.temperature) }
fn f529(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::relative_gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.persistance_length, &p.end_to_end_length, &p.temperature) }
fn m529(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.legendre.relative_gibbs_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn o529(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).relative_gibbs_free_energy_per_link(&p.end_to_end_length, &p.temperature) }
fn c529(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.end_to_end_length, p.temperature) }
fn f530(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_persistance_length, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m530(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o530(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_gibbs_free_energy(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c530(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_persistance_length, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f531(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_persistance_length, &p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn m531(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn o531(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link, &p.temperature) }
fn c531(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_persistance_length, p.nondimensional_end_to_end_length_per_link, p.temperature) }
fn f532(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_persistance_length, &p.nondimensional_end_to_end_length_per_link) }
fn m532(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn o532(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_relative_gibbs_free_energy(&p.nondimensional_end_to_end_length_per_link) }
fn c532(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_persistance_length, p.nondimensional_end_to_end_length_per_link) }
fn f533(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy_per_link(&p.number_of_links, &p.nondimensional_persistance_length, &p.nondimensional_end_to_end_length_per_link) }
fn m533(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn o533(p: &P) -> f64 { sc::wlc::thermodynamics::isometric::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_end_to_end_length_per_link) }
fn c533(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_persistance_length, p.nondimensional_end_to_end_length_per_link) }
fn f534(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::end_to_end_length(&p.number_of_links, &p.link_length, &p.persistance_length, &p.force, &p.temperature) }
fn m534(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.end_to_end_length(&p.force, &p.temperature) }
fn o534(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).end_to_end_length(&p.force, &p.temperature) }
fn c534(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.force, p.temperature) }
fn f535(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::end_to_end_length_per_link(&p.number_of_links, &p.link_length, &p.persistance_length, &p.force, &p.temperature) }
fn m535(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.end_to_end_length_per_link(&p.force, &p.temperature) }
fn o535(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).end_to_end_length_per_link(&p.force, &p.temperature) }
fn c535(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.force, p.temperature) }
fn f536(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.number_of_links, &p.nondimensional_persistance_length, &p.nondimensional_force) }
fn m536(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nondimensional_force) }
fn o536(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_end_to_end_length(&p.nondimensional_force) }
fn c536(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_persistance_length, p.nondimensional_force) }
fn f537(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.number_of_links, &p.nondimensional_persistance_length, &p.nondimensional_force) }
fn m537(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nondimensional_force) }
fn o537(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_end_to_end_length_per_link(&p.nondimensional_force) }
fn c537(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_persistance_length, p.nondimensional_force) }
fn f538(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.persistance_length, &p.force, &p.temperature) }
fn m538(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.gibbs_free_energy(&p.force, &p.temperature) }
fn o538(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).gibbs_free_energy(&p.force, &p.temperature) }
fn c538(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length, p.force, p.temperature) }
fn f539(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.persistance_length, &p.force, &p.temperature) }
fn m539(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o539(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c539(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length, p.force, p.temperature) }
fn f540(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::relative_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.persistance_length, &p.force, &p.temperature) }
fn m540(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.relative_gibbs_free_energy(&p.force, &p.temperature) }
fn o540(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).relative_gibbs_free_energy(&p.force, &p.temperature) }
fn c540(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.force, p.temperature) }
fn f541(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.persistance_length, &p.force, &p.temperature) }
fn m541(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn o541(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).relative_gibbs_free_energy_per_link(&p.force, &p.temperature) }
fn c541(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.force, p.temperature) }
fn f542(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_persistance_length, &p.nondimensional_force, &p.temperature) }
fn m542(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn o542(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_gibbs_free_energy(&p.nondimensional_force, &p.temperature) }
fn c542(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_persistance_length, p.nondimensional_force, p.temperature) }
fn f543(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_persistance_length, &p.nondimensional_force, &p.temperature) }
fn m543(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o543(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_gibbs_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c543(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_persistance_length, p.nondimensional_force, p.temperature) }
fn f544(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.number_of_links, &p.nondimensional_persistance_length, &p.nondimensional_force) }
fn m544(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nondimensional_force) }
fn o544(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_relative_gibbs_free_energy(&p.nondimensional_force) }
fn c544(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_persistance_length, p.nondimensional_force) }
fn f545(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.number_of_links, &p.nondimensional_persistance_length, &p.nondimensional_force) }
fn m545(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force) }
fn o545(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_relative_gibbs_free_energy_per_link(&p.nondimensional_force) }
fn c545(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_persistance_length, p.nondimensional_force) }
fn f546(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.persistance_length, &p.force, &p.temperature) }
fn m546(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.force, &p.temperature) }
fn o546(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).helmholtz_free_energy(&p.force, &p.temperature) }
fn c546(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length, p.force, p.temperature) }
fn f547(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.persistance_length, &p.force, &p.temperature) }
fn m547(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o547(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c547(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length, p.force, p.temperature) }
fn f548(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.persistance_length, &p.force, &p.temperature) }
fn m548(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn o548(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).relative_helmholtz_free_energy(&p.force, &p.temperature) }
fn c548(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.force, p.temperature) }
fn f549(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.persistance_length, &p.force, &p.temperature) }
fn m549(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn o549(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).relative_helmholtz_free_energy_per_link(&p.force, &p.temperature) }
fn c549(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.persistance_length, p.force, p.temperature) }
fn f550(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_persistance_length, &p.nondimensional_force, &p.temperature) }
fn m550(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn o550(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_helmholtz_free_energy(&p.nondimensional_force, &p.temperature) }
fn c550(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_persistance_length, p.nondimensional_force, p.temperature) }
fn f551(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.number_of_links, &p.link_length, &p.hinge_mass, &p.nondimensional_persistance_length, &p.nondimensional_force, &p.temperature) }
fn m551(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn o551(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_helmholtz_free_energy_per_link(&p.nondimensional_force, &p.temperature) }
fn c551(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64, f64, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.link_length, p.hinge_mass, p.nondimensional_persistance_length, p.nondimensional_force, p.temperature) }
fn f552(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.number_of_links, &p.nondimensional_persistance_length, &p.nondimensional_force) }
fn m552(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force) }
fn o552(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_relative_helmholtz_free_energy(&p.nondimensional_force) }
fn c552(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_persistance_length, p.nondimensional_force) }
fn f553(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.number_of_links, &p.nondimensional_persistance_length, &p.nondimensional_force) }
fn m553(m: &Models, p: &P) -> f64 { m.wlc.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force) }
fn o553(p: &P) -> f64 { sc::wlc::thermodynamics::isotensional::legendre::WLC::init(p.number_of_links, p.link_length, p.hinge_mass, p.persistance_length).nondimensional_relative_helmholtz_free_energy_per_link(&p.nondimensional_force) }
fn c553(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(u8, f64, f64) -> f64 = unsafe { std::mem::transmute(s) }; f(p.number_of_links, p.nondimensional_persistance_length, p.nondimensional_force) }
pub static ENTRIES: &[Entry] = &[
    Entry { id: 0, module: "efjc/thermodynamics/isometric/asymptotic/alternative/legendre", model: "efjc", func: "force", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f0, nested: m0, own: o0, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_force"), ccall: c0 },
    Entry { id: 1, module: "efjc/thermodynamics/isometric/asymptotic/alternative/legendre", model: "efjc", func: "nondimensional_force", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f1, nested: m1, own: o1, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_force"), ccall: c1 },
    Entry { id: 2, module: "efjc/thermodynamics/isometric/asymptotic/alternative/legendre", model: "efjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f2, nested: m2, own: o2, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_helmholtz_free_energy"), ccall: c2 },
    Entry { id: 3, module: "efjc/thermodynamics/isometric/asymptotic/alternative/legendre", model: "efjc", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f3, nested: m3, own: o3, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_helmholtz_free_energy_per_link"), ccall: c3 },
    Entry { id: 4, module: "efjc/thermodynamics/isometric/asymptotic/alternative/legendre", model: "efjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f4, nested: m4, own: o4, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_relative_helmholtz_free_energy"), ccall: c4 },
    Entry { id: 5, module: "efjc/thermodynamics/isometric/asymptotic/alternative/legendre", model: "efjc", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f5, nested: m5, own: o5, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_relative_helmholtz_free_energy_per_link"), ccall: c5 },
    Entry { id: 6, module: "efjc/thermodynamics/isometric/asymptotic/alternative/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f6, nested: m6, own: o6, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy"), ccall: c6 },
    Entry { id: 7, module: "efjc/thermodynamics/isometric/asymptotic/alternative/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f7, nested: m7, own: o7, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c7 },
    Entry { id: 8, module: "efjc/thermodynamics/isometric/asymptotic/alternative/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f8, nested: m8, own: o8, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c8 },
    Entry { id: 9, module: "efjc/thermodynamics/isometric/asymptotic/alternative/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f9, nested: m9, own: o9, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c9 },
    Entry { id: 10, module: "efjc/thermodynamics/isometric/asymptotic/legendre", model: "efjc", func: "force", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f10, nested: m10, own: o10, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_force"), ccall: c10 },
    Entry { id: 11, module: "efjc/thermodynamics/isometric/asymptotic/legendre", model: "efjc", func: "nondimensional_force", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f11, nested: m11, own: o11, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_force"), ccall: c11 },
    Entry { id: 12, module: "efjc/thermodynamics/isometric/asymptotic/legendre", model: "efjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f12, nested: m12, own: o12, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy"), ccall: c12 },
    Entry { id: 13, module: "efjc/thermodynamics/isometric/asymptotic/legendre", model: "efjc", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f13, nested: m13, own: o13, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link"), ccall: c13 },
    Entry { id: 14, module: "efjc/thermodynamics/isometric/asymptotic/legendre", model: "efjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f14, nested: m14, own: o14, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy"), ccall: c14 },
    Entry { id: 15, module: "efjc/thermodynamics/isometric/asymptotic/legendre", model: "efjc", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f15, nested: m15, own: o15, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link"), ccall: c15 },
    Entry { id: 16, module: "efjc/thermodynamics/isometric/asymptotic/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f16, nested: m16, own: o16, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy"), ccall: c16 },
    Entry { id: 17, module: "efjc/thermodynamics/isometric/asymptotic/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f17, nested: m17, own: o17, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c17 },
    Entry { id: 18, module: "efjc/thermodynamics/isometric/asymptotic/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f18, nested: m18, own: o18, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c18 },
    Entry { id: 19, module: "efjc/thermodynamics/isometric/asymptotic/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f19, nested: m19, own: o19, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c19 },
    Entry { id: 20, module: "efjc/thermodynamics/isometric/asymptotic/reduced/legendre", model: "efjc", func: "force", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f20, nested: m20, own: o20, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_force"), ccall: c20 },
    Entry { id: 21, module: "efjc/thermodynamics/isometric/asymptotic/reduced/legendre", model: "efjc", func: "nondimensional_force", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f21, nested: m21, own: o21, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force"), ccall: c21 },
    Entry { id: 22, module: "efjc/thermodynamics/isometric/asymptotic/reduced/legendre", model: "efjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f22, nested: m22, own: o22, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy"), ccall: c22 },
    Entry { id: 23, module: "efjc/thermodynamics/isometric/asymptotic/reduced/legendre", model: "efjc", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f23, nested: m23, own: o23, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link"), ccall: c23 },
    Entry { id: 24, module: "efjc/thermodynamics/isometric/asymptotic/reduced/legendre", model: "efjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f24, nested: m24, own: o24, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy"), ccall: c24 },
    Entry { id: 25, module: "efjc/thermodynamics/isometric/asymptotic/reduced/legendre", model: "efjc", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f25, nested: m25, own: o25, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link"), ccall: c25 },
    Entry { id: 26, module: "efjc/thermodynamics/isometric/asymptotic/reduced/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f26, nested: m26, own: o26, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy"), ccall: c26 },
    Entry { id: 27, module: "efjc/thermodynamics/isometric/asymptotic/reduced/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f27, nested: m27, own: o27, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c27 },
    Entry { id: 28, module: "efjc/thermodynamics/isometric/asymptotic/reduced/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f28, nested: m28, own: o28, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c28 },
    Entry { id: 29, module: "efjc/thermodynamics/isometric/asymptotic/reduced/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f29, nested: m29, own: o29, symbol: Some("physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c29 },
    Entry { id: 30, module: "efjc/thermodynamics/isotensional", model: "efjc", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f30, nested: m30, own: o30, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_end_to_end_length"), ccall: c30 },
    Entry { id: 31, module: "efjc/thermodynamics/isotensional", model: "efjc", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f31, nested: m31, own: o31, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_end_to_end_length_per_link"), ccall: c31 },
    Entry { id: 32, module: "efjc/thermodynamics/isotensional", model: "efjc", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f32, nested: m32, own: o32, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_end_to_end_length"), ccall: c32 },
    Entry { id: 33, module: "efjc/thermodynamics/isotensional", model: "efjc", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f33, nested: m33, own: o33, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link"), ccall: c33 },
    Entry { id: 34, module: "efjc/thermodynamics/isotensional", model: "efjc", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f34, nested: m34, own: o34, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_gibbs_free_energy"), ccall: c34 },
    Entry { id: 35, module: "efjc/thermodynamics/isotensional", model: "efjc", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f35, nested: m35, own: o35, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_gibbs_free_energy_per_link"), ccall: c35 },
    Entry { id: 36, module: "efjc/thermodynamics/isotensional", model: "efjc", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f36, nested: m36, own: o36, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_relative_gibbs_free_energy"), ccall: c36 },
    Entry { id: 37, module: "efjc/thermodynamics/isotensional", model: "efjc", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f37, nested: m37, own: o37, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link"), ccall: c37 },
    Entry { id: 38, module: "efjc/thermodynamics/isotensional", model: "efjc", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f38, nested: m38, own: o38, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy"), ccall: c38 },
    Entry { id: 39, module: "efjc/thermodynamics/isotensional", model: "efjc", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f39, nested: m39, own: o39, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link"), ccall: c39 },
    Entry { id: 40, module: "efjc/thermodynamics/isotensional", model: "efjc", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f40, nested: m40, own: o40, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy"), ccall: c40 },
    Entry { id: 41, module: "efjc/thermodynamics/isotensional", model: "efjc", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f41, nested: m41, own: o41, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c41 },
    Entry { id: 42, module: "efjc/thermodynamics/isotensional/asymptotic", model: "efjc", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f42, nested: m42, own: o42, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_end_to_end_length"), ccall: c42 },
    Entry { id: 43, module: "efjc/thermodynamics/isotensional/asymptotic", model: "efjc", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f43, nested: m43, own: o43, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link"), ccall: c43 },
    Entry { id: 44, module: "efjc/thermodynamics/isotensional/asymptotic", model: "efjc", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f44, nested: m44, own: o44, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length"), ccall: c44 },
    Entry { id: 45, module: "efjc/thermodynamics/isotensional/asymptotic", model: "efjc", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f45, nested: m45, own: o45, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link"), ccall: c45 },
    Entry { id: 46, module: "efjc/thermodynamics/isotensional/asymptotic", model: "efjc", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f46, nested: m46, own: o46, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_gibbs_free_energy"), ccall: c46 },
    Entry { id: 47, module: "efjc/thermodynamics/isotensional/asymptotic", model: "efjc", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f47, nested: m47, own: o47, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link"), ccall: c47 },
    Entry { id: 48, module: "efjc/thermodynamics/isotensional/asymptotic", model: "efjc", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f48, nested: m48, own: o48, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy"), ccall: c48 },
    Entry { id: 49, module: "efjc/thermodynamics/isotensional/asymptotic", model: "efjc", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f49, nested: m49, own: o49, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link"), ccall: c49 },
    Entry { id: 50, module: "efjc/thermodynamics/isotensional/asymptotic", model: "efjc", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f50, nested: m50, own: o50, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy"), ccall: c50 },
    Entry { id: 51, module: "efjc/thermodynamics/isotensional/asymptotic", model: "efjc", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f51, nested: m51, own: o51, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link"), ccall: c51 },
    Entry { id: 52, module: "efjc/thermodynamics/isotensional/asymptotic", model: "efjc", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f52, nested: m52, own: o52, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy"), ccall: c52 },
    Entry { id: 53, module: "efjc/thermodynamics/isotensional/asymptotic", model: "efjc", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f53, nested: m53, own: o53, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c53 },
    Entry { id: 54, module: "efjc/thermodynamics/isotensional/asymptotic/alternative", model: "efjc", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f54, nested: m54, own: o54, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_end_to_end_length"), ccall: c54 },
    Entry { id: 55, module: "efjc/thermodynamics/isotensional/asymptotic/alternative", model: "efjc", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f55, nested: m55, own: o55, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_end_to_end_length_per_link"), ccall: c55 },
    Entry { id: 56, module: "efjc/thermodynamics/isotensional/asymptotic/alternative", model: "efjc", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f56, nested: m56, own: o56, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_end_to_end_length"), ccall: c56 },
    Entry { id: 57, module: "efjc/thermodynamics/isotensional/asymptotic/alternative", model: "efjc", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f57, nested: m57, own: o57, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_end_to_end_length_per_link"), ccall: c57 },
    Entry { id: 58, module: "efjc/thermodynamics/isotensional/asymptotic/alternative", model: "efjc", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f58, nested: m58, own: o58, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_gibbs_free_energy"), ccall: c58 },
    Entry { id: 59, module: "efjc/thermodynamics/isotensional/asymptotic/alternative", model: "efjc", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f59, nested: m59, own: o59, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_gibbs_free_energy_per_link"), ccall: c59 },
    Entry { id: 60, module: "efjc/thermodynamics/isotensional/asymptotic/alternative", model: "efjc", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f60, nested: m60, own: o60, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_relative_gibbs_free_energy"), ccall: c60 },
    Entry { id: 61, module: "efjc/thermodynamics/isotensional/asymptotic/alternative", model: "efjc", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f61, nested: m61, own: o61, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_relative_gibbs_free_energy_per_link"), ccall: c61 },
    Entry { id: 62, module: "efjc/thermodynamics/isotensional/asymptotic/alternative", model: "efjc", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f62, nested: m62, own: o62, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_gibbs_free_energy"), ccall: c62 },
    Entry { id: 63, module: "efjc/thermodynamics/isotensional/asymptotic/alternative", model: "efjc", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f63, nested: m63, own: o63, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_gibbs_free_energy_per_link"), ccall: c63 },
    Entry { id: 64, module: "efjc/thermodynamics/isotensional/asymptotic/alternative", model: "efjc", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f64, nested: m64, own: o64, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_relative_gibbs_free_energy"), ccall: c64 },
    Entry { id: 65, module: "efjc/thermodynamics/isotensional/asymptotic/alternative", model: "efjc", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f65, nested: m65, own: o65, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c65 },
    Entry { id: 66, module: "efjc/thermodynamics/isotensional/asymptotic/alternative/legendre", model: "efjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f66, nested: m66, own: o66, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_helmholtz_free_energy"), ccall: c66 },
    Entry { id: 67, module: "efjc/thermodynamics/isotensional/asymptotic/alternative/legendre", model: "efjc", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f67, nested: m67, own: o67, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_helmholtz_free_energy_per_link"), ccall: c67 },
    Entry { id: 68, module: "efjc/thermodynamics/isotensional/asymptotic/alternative/legendre", model: "efjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f68, nested: m68, own: o68, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_relative_helmholtz_free_energy"), ccall: c68 },
    Entry { id: 69, module: "efjc/thermodynamics/isotensional/asymptotic/alternative/legendre", model: "efjc", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f69, nested: m69, own: o69, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_relative_helmholtz_free_energy_per_link"), ccall: c69 },
    Entry { id: 70, module: "efjc/thermodynamics/isotensional/asymptotic/alternative/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f70, nested: m70, own: o70, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy"), ccall: c70 },
    Entry { id: 71, module: "efjc/thermodynamics/isotensional/asymptotic/alternative/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f71, nested: m71, own: o71, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c71 },
    Entry { id: 72, module: "efjc/thermodynamics/isotensional/asymptotic/alternative/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f72, nested: m72, own: o72, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c72 },
    Entry { id: 73, module: "efjc/thermodynamics/isotensional/asymptotic/alternative/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f73, nested: m73, own: o73, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c73 },
    Entry { id: 74, module: "efjc/thermodynamics/isotensional/asymptotic/legendre", model: "efjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f74, nested: m74, own: o74, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy"), ccall: c74 },
    Entry { id: 75, module: "efjc/thermodynamics/isotensional/asymptotic/legendre", model: "efjc", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f75, nested: m75, own: o75, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link"), ccall: c75 },
    Entry { id: 76, module: "efjc/thermodynamics/isotensional/asymptotic/legendre", model: "efjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f76, nested: m76, own: o76, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy"), ccall: c76 },
    Entry { id: 77, module: "efjc/thermodynamics/isotensional/asymptotic/legendre", model: "efjc", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f77, nested: m77, own: o77, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link"), ccall: c77 },
    Entry { id: 78, module: "efjc/thermodynamics/isotensional/asymptotic/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f78, nested: m78, own: o78, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy"), ccall: c78 },
    Entry { id: 79, module: "efjc/thermodynamics/isotensional/asymptotic/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f79, nested: m79, own: o79, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c79 },
    Entry { id: 80, module: "efjc/thermodynamics/isotensional/asymptotic/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f80, nested: m80, own: o80, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c80 },
    Entry { id: 81, module: "efjc/thermodynamics/isotensional/asymptotic/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f81, nested: m81, own: o81, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c81 },
    Entry { id: 82, module: "efjc/thermodynamics/isotensional/asymptotic/reduced", model: "efjc", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f82, nested: m82, own: o82, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length"), ccall: c82 },
    Entry { id: 83, module: "efjc/thermodynamics/isotensional/asymptotic/reduced", model: "efjc", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f83, nested: m83, own: o83, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link"), ccall: c83 },
    Entry { id: 84, module: "efjc/thermodynamics/isotensional/asymptotic/reduced", model: "efjc", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f84, nested: m84, own: o84, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length"), ccall: c84 },
    Entry { id: 85, module: "efjc/thermodynamics/isotensional/asymptotic/reduced", model: "efjc", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f85, nested: m85, own: o85, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link"), ccall: c85 },
    Entry { id: 86, module: "efjc/thermodynamics/isotensional/asymptotic/reduced", model: "efjc", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f86, nested: m86, own: o86, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy"), ccall: c86 },
    Entry { id: 87, module: "efjc/thermodynamics/isotensional/asymptotic/reduced", model: "efjc", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f87, nested: m87, own: o87, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link"), ccall: c87 },
    Entry { id: 88, module: "efjc/thermodynamics/isotensional/asymptotic/reduced", model: "efjc", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f88, nested: m88, own: o88, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy"), ccall: c88 },
    Entry { id: 89, module: "efjc/thermodynamics/isotensional/asymptotic/reduced", model: "efjc", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f89, nested: m89, own: o89, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link"), ccall: c89 },
    Entry { id: 90, module: "efjc/thermodynamics/isotensional/asymptotic/reduced", model: "efjc", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f90, nested: m90, own: o90, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy"), ccall: c90 },
    Entry { id: 91, module: "efjc/thermodynamics/isotensional/asymptotic/reduced", model: "efjc", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f91, nested: m91, own: o91, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link"), ccall: c91 },
    Entry { id: 92, module: "efjc/thermodynamics/isotensional/asymptotic/reduced", model: "efjc", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f92, nested: m92, own: o92, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy"), ccall: c92 },
    Entry { id: 93, module: "efjc/thermodynamics/isotensional/asymptotic/reduced", model: "efjc", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f93, nested: m93, own: o93, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c93 },
    Entry { id: 94, module: "efjc/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "efjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f94, nested: m94, own: o94, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy"), ccall: c94 },
    Entry { id: 95, module: "efjc/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "efjc", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f95, nested: m95, own: o95, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link"), ccall: c95 },
    Entry { id: 96, module: "efjc/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "efjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f96, nested: m96, own: o96, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy"), ccall: c96 },
    Entry { id: 97, module: "efjc/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "efjc", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f97, nested: m97, own: o97, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link"), ccall: c97 },
    Entry { id: 98, module: "efjc/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f98, nested: m98, own: o98, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy"), ccall: c98 },
    Entry { id: 99, module: "efjc/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f99, nested: m99, own: o99, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c99 },
    Entry { id: 100, module: "efjc/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f100, nested: m100, own: o100, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c100 },
    Entry { id: 101, module: "efjc/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f101, nested: m101, own: o101, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c101 },
    Entry { id: 102, module: "efjc/thermodynamics/isotensional/legendre", model: "efjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f102, nested: m102, own: o102, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_legendre_helmholtz_free_energy"), ccall: c102 },
    Entry { id: 103, module: "efjc/thermodynamics/isotensional/legendre", model: "efjc", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f103, nested: m103, own: o103, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link"), ccall: c103 },
    Entry { id: 104, module: "efjc/thermodynamics/isotensional/legendre", model: "efjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f104, nested: m104, own: o104, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy"), ccall: c104 },
    Entry { id: 105, module: "efjc/thermodynamics/isotensional/legendre", model: "efjc", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f105, nested: m105, own: o105, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link"), ccall: c105 },
    Entry { id: 106, module: "efjc/thermodynamics/isotensional/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f106, nested: m106, own: o106, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy"), ccall: c106 },
    Entry { id: 107, module: "efjc/thermodynamics/isotensional/legendre", model: "efjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f107, nested: m107, own: o107, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c107 },
    Entry { id: 108, module: "efjc/thermodynamics/isotensional/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f108, nested: m108, own: o108, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c108 },
    Entry { id: 109, module: "efjc/thermodynamics/isotensional/legendre", model: "efjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f109, nested: m109, own: o109, symbol: Some("physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c109 },
    Entry { id: 110, module: "fjc/thermodynamics/isometric", model: "fjc", func: "force", params: &["number_of_links", "link_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f110, nested: m110, own: o110, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_force"), ccall: c110 },
    Entry { id: 111, module: "fjc/thermodynamics/isometric", model: "fjc", func: "nondimensional_force", params: &["number_of_links", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f111, nested: m111, own: o111, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_nondimensional_force"), ccall: c111 },
    Entry { id: 112, module: "fjc/thermodynamics/isometric", model: "fjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f112, nested: m112, own: o112, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_helmholtz_free_energy"), ccall: c112 },
    Entry { id: 113, module: "fjc/thermodynamics/isometric", model: "fjc", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f113, nested: m113, own: o113, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_helmholtz_free_energy_per_link"), ccall: c113 },
    Entry { id: 114, module: "fjc/thermodynamics/isometric", model: "fjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f114, nested: m114, own: o114, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_relative_helmholtz_free_energy"), ccall: c114 },
    Entry { id: 115, module: "fjc/thermodynamics/isometric", model: "fjc", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f115, nested: m115, own: o115, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_relative_helmholtz_free_energy_per_link"), ccall: c115 },
    Entry { id: 116, module: "fjc/thermodynamics/isometric", model: "fjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f116, nested: m116, own: o116, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_nondimensional_helmholtz_free_energy"), ccall: c116 },
    Entry { id: 117, module: "fjc/thermodynamics/isometric", model: "fjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f117, nested: m117, own: o117, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_nondimensional_helmholtz_free_energy_per_link"), ccall: c117 },
    Entry { id: 118, module: "fjc/thermodynamics/isometric", model: "fjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f118, nested: m118, own: o118, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy"), ccall: c118 },
    Entry { id: 119, module: "fjc/thermodynamics/isometric", model: "fjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["number_of_links", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f119, nested: m119, own: o119, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c119 },
    Entry { id: 120, module: "fjc/thermodynamics/isometric", model: "fjc", func: "equilibrium_distribution", params: &["number_of_links", "link_length", "end_to_end_length"], margs: &["end_to_end_length"], free: f120, nested: m120, own: o120, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_equilibrium_distribution"), ccall: c120 },
    Entry { id: 121, module: "fjc/thermodynamics/isometric", model: "fjc", func: "nondimensional_equilibrium_distribution", params: &["number_of_links", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f121, nested: m121, own: o121, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_nondimensional_equilibrium_distribution"), ccall: c121 },
    Entry { id: 122, module: "fjc/thermodynamics/isometric", model: "fjc", func: "equilibrium_radial_distribution", params: &["number_of_links", "link_length", "end_to_end_length"], margs: &["end_to_end_length"], free: f122, nested: m122, own: o122, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_equilibrium_radial_distribution"), ccall: c122 },
    Entry { id: 123, module: "fjc/thermodynamics/isometric", model: "fjc", func: "nondimensional_equilibrium_radial_distribution", params: &["number_of_links", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f123, nested: m123, own: o123, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution"), ccall: c123 },
    Entry { id: 124, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "force", params: &["number_of_links", "link_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f124, nested: m124, own: o124, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_force"), ccall: c124 },
    Entry { id: 125, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "nondimensional_force", params: &["nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f125, nested: m125, own: o125, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_force"), ccall: c125 },
    Entry { id: 126, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f126, nested: m126, own: o126, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_helmholtz_free_energy"), ccall: c126 },
    Entry { id: 127, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f127, nested: m127, own: o127, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_helmholtz_free_energy_per_link"), ccall: c127 },
    Entry { id: 128, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f128, nested: m128, own: o128, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy"), ccall: c128 },
    Entry { id: 129, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f129, nested: m129, own: o129, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy_per_link"), ccall: c129 },
    Entry { id: 130, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f130, nested: m130, own: o130, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy"), ccall: c130 },
    Entry { id: 131, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f131, nested: m131, own: o131, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c131 },
    Entry { id: 132, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f132, nested: m132, own: o132, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c132 },
    Entry { id: 133, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f133, nested: m133, own: o133, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c133 },
    Entry { id: 134, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "equilibrium_distribution", params: &["number_of_links", "link_length", "normalization_nondimensional_equilibrium_distribution", "end_to_end_length"], margs: &["end_to_end_length"], free: f134, nested: m134, own: o134, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_equilibrium_distribution"), ccall: c134 },
    Entry { id: 135, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "nondimensional_equilibrium_distribution", params: &["number_of_links", "normalization_nondimensional_equilibrium_distribution", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f135, nested: m135, own: o135, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_distribution"), ccall: c135 },
    Entry { id: 136, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "equilibrium_radial_distribution", params: &["number_of_links", "link_length", "normalization_nondimensional_equilibrium_distribution", "end_to_end_length"], margs: &["end_to_end_length"], free: f136, nested: m136, own: o136, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_equilibrium_radial_distribution"), ccall: c136 },
    Entry { id: 137, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "nondimensional_equilibrium_radial_distribution", params: &["number_of_links", "normalization_nondimensional_equilibrium_distribution", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f137, nested: m137, own: o137, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_radial_distribution"), ccall: c137 },
    Entry { id: 138, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f138, nested: m138, own: o138, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_gibbs_free_energy"), ccall: c138 },
    Entry { id: 139, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f139, nested: m139, own: o139, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_gibbs_free_energy_per_link"), ccall: c139 },
    Entry { id: 140, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f140, nested: m140, own: o140, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_gibbs_free_energy"), ccall: c140 },
    Entry { id: 141, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "relative_gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f141, nested: m141, own: o141, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_gibbs_free_energy_per_link"), ccall: c141 },
    Entry { id: 142, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f142, nested: m142, own: o142, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy"), ccall: c142 },
    Entry { id: 143, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "nondimensional_gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f143, nested: m143, own: o143, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy_per_link"), ccall: c143 },
    Entry { id: 144, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f144, nested: m144, own: o144, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy"), ccall: c144 },
    Entry { id: 145, module: "fjc/thermodynamics/isometric/legendre", model: "fjc", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["number_of_links", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f145, nested: m145, own: o145, symbol: Some("physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c145 },
    Entry { id: 146, module: "fjc/thermodynamics/isotensional", model: "fjc", func: "end_to_end_length", params: &["number_of_links", "link_length", "force", "temperature"], margs: &["force", "temperature"], free: f146, nested: m146, own: o146, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_end_to_end_length"), ccall: c146 },
    Entry { id: 147, module: "fjc/thermodynamics/isotensional", model: "fjc", func: "end_to_end_length_per_link", params: &["link_length", "force", "temperature"], margs: &["force", "temperature"], free: f147, nested: m147, own: o147, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_end_to_end_length_per_link"), ccall: c147 },
    Entry { id: 148, module: "fjc/thermodynamics/isotensional", model: "fjc", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_force"], margs: &["nondimensional_force"], free: f148, nested: m148, own: o148, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_end_to_end_length"), ccall: c148 },
    Entry { id: 149, module: "fjc/thermodynamics/isotensional", model: "fjc", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_force"], margs: &["nondimensional_force"], free: f149, nested: m149, own: o149, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link"), ccall: c149 },
    Entry { id: 150, module: "fjc/thermodynamics/isotensional", model: "fjc", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "force", "temperature"], margs: &["force", "temperature"], free: f150, nested: m150, own: o150, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_gibbs_free_energy"), ccall: c150 },
    Entry { id: 151, module: "fjc/thermodynamics/isotensional", model: "fjc", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "force", "temperature"], margs: &["force", "temperature"], free: f151, nested: m151, own: o151, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_gibbs_free_energy_per_link"), ccall: c151 },
    Entry { id: 152, module: "fjc/thermodynamics/isotensional", model: "fjc", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "force", "temperature"], margs: &["force", "temperature"], free: f152, nested: m152, own: o152, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_relative_gibbs_free_energy"), ccall: c152 },
    Entry { id: 153, module: "fjc/thermodynamics/isotensional", model: "fjc", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "force", "temperature"], margs: &["force", "temperature"], free: f153, nested: m153, own: o153, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link"), ccall: c153 },
    Entry { id: 154, module: "fjc/thermodynamics/isotensional", model: "fjc", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f154, nested: m154, own: o154, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy"), ccall: c154 },
    Entry { id: 155, module: "fjc/thermodynamics/isotensional", model: "fjc", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f155, nested: m155, own: o155, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link"), ccall: c155 },
    Entry { id: 156, module: "fjc/thermodynamics/isotensional", model: "fjc", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_force"], margs: &["nondimensional_force"], free: f156, nested: m156, own: o156, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy"), ccall: c156 },
    Entry { id: 157, module: "fjc/thermodynamics/isotensional", model: "fjc", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_force"], margs: &["nondimensional_force"], free: f157, nested: m157, own: o157, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c157 },
    Entry { id: 158, module: "fjc/thermodynamics/isotensional/legendre", model: "fjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "force", "temperature"], margs: &["force", "temperature"], free: f158, nested: m158, own: o158, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_legendre_helmholtz_free_energy"), ccall: c158 },
    Entry { id: 159, module: "fjc/thermodynamics/isotensional/legendre", model: "fjc", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "force", "temperature"], margs: &["force", "temperature"], free: f159, nested: m159, own: o159, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link"), ccall: c159 },
    Entry { id: 160, module: "fjc/thermodynamics/isotensional/legendre", model: "fjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "force", "temperature"], margs: &["force", "temperature"], free: f160, nested: m160, own: o160, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy"), ccall: c160 },
    Entry { id: 161, module: "fjc/thermodynamics/isotensional/legendre", model: "fjc", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "force", "temperature"], margs: &["force", "temperature"], free: f161, nested: m161, own: o161, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link"), ccall: c161 },
    Entry { id: 162, module: "fjc/thermodynamics/isotensional/legendre", model: "fjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f162, nested: m162, own: o162, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy"), ccall: c162 },
    Entry { id: 163, module: "fjc/thermodynamics/isotensional/legendre", model: "fjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f163, nested: m163, own: o163, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c163 },
    Entry { id: 164, module: "fjc/thermodynamics/isotensional/legendre", model: "fjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_force"], margs: &["nondimensional_force"], free: f164, nested: m164, own: o164, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c164 },
    Entry { id: 165, module: "fjc/thermodynamics/isotensional/legendre", model: "fjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_force"], margs: &["nondimensional_force"], free: f165, nested: m165, own: o165, symbol: Some("physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c165 },
    Entry { id: 166, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "end_to_end_length", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f166, nested: m166, own: o166, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_end_to_end_length"), ccall: c166 },
    Entry { id: 167, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "end_to_end_length_per_link", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f167, nested: m167, own: o167, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_end_to_end_length_per_link"), ccall: c167 },
    Entry { id: 168, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f168, nested: m168, own: o168, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_end_to_end_length"), ccall: c168 },
    Entry { id: 169, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "nondimensional_end_to_end_length_per_link", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f169, nested: m169, own: o169, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_end_to_end_length_per_link"), ccall: c169 },
    Entry { id: 170, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "force", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f170, nested: m170, own: o170, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_force"), ccall: c170 },
    Entry { id: 171, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "nondimensional_force", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f171, nested: m171, own: o171, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_force"), ccall: c171 },
    Entry { id: 172, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f172, nested: m172, own: o172, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_helmholtz_free_energy"), ccall: c172 },
    Entry { id: 173, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f173, nested: m173, own: o173, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_helmholtz_free_energy_per_link"), ccall: c173 },
    Entry { id: 174, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f174, nested: m174, own: o174, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_relative_helmholtz_free_energy"), ccall: c174 },
    Entry { id: 175, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f175, nested: m175, own: o175, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_relative_helmholtz_free_energy_per_link"), ccall: c175 },
    Entry { id: 176, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: f176, nested: m176, own: o176, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_helmholtz_free_energy"), ccall: c176 },
    Entry { id: 177, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: f177, nested: m177, own: o177, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_helmholtz_free_energy_per_link"), ccall: c177 },
    Entry { id: 178, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f178, nested: m178, own: o178, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_helmholtz_free_energy"), ccall: c178 },
    Entry { id: 179, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f179, nested: m179, own: o179, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c179 },
    Entry { id: 180, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f180, nested: m180, own: o180, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_gibbs_free_energy"), ccall: c180 },
    Entry { id: 181, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f181, nested: m181, own: o181, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_gibbs_free_energy_per_link"), ccall: c181 },
    Entry { id: 182, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f182, nested: m182, own: o182, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_relative_gibbs_free_energy"), ccall: c182 },
    Entry { id: 183, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "relative_gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f183, nested: m183, own: o183, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_relative_gibbs_free_energy_per_link"), ccall: c183 },
    Entry { id: 184, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: f184, nested: m184, own: o184, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_gibbs_free_energy"), ccall: c184 },
    Entry { id: 185, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "nondimensional_gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: f185, nested: m185, own: o185, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_gibbs_free_energy_per_link"), ccall: c185 },
    Entry { id: 186, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f186, nested: m186, own: o186, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_gibbs_free_energy"), ccall: c186 },
    Entry { id: 187, module: "fjc/thermodynamics/modified_canonical", model: "fjc", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f187, nested: m187, own: o187, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c187 },
    Entry { id: 188, module: "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", model: "fjc", func: "force", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f188, nested: m188, own: o188, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_force"), ccall: c188 },
    Entry { id: 189, module: "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", model: "fjc", func: "nondimensional_force", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f189, nested: m189, own: o189, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_force"), ccall: c189 },
    Entry { id: 190, module: "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", model: "fjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f190, nested: m190, own: o190, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_helmholtz_free_energy"), ccall: c190 },
    Entry { id: 191, module: "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", model: "fjc", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f191, nested: m191, own: o191, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_helmholtz_free_energy_per_link"), ccall: c191 },
    Entry { id: 192, module: "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", model: "fjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f192, nested: m192, own: o192, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_relative_helmholtz_free_energy"), ccall: c192 },
    Entry { id: 193, module: "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", model: "fjc", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f193, nested: m193, own: o193, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_relative_helmholtz_free_energy_per_link"), ccall: c193 },
    Entry { id: 194, module: "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", model: "fjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: f194, nested: m194, own: o194, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_helmholtz_free_energy"), ccall: c194 },
    Entry { id: 195, module: "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", model: "fjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: f195, nested: m195, own: o195, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_helmholtz_free_energy_per_link"), ccall: c195 },
    Entry { id: 196, module: "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", model: "fjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f196, nested: m196, own: o196, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_relative_helmholtz_free_energy"), ccall: c196 },
    Entry { id: 197, module: "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", model: "fjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f197, nested: m197, own: o197, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c197 },
    Entry { id: 198, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "end_to_end_length", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f198, nested: m198, own: o198, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_end_to_end_length"), ccall: c198 },
    Entry { id: 199, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "end_to_end_length_per_link", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f199, nested: m199, own: o199, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_end_to_end_length_per_link"), ccall: c199 },
    Entry { id: 200, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f200, nested: m200, own: o200, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_end_to_end_length"), ccall: c200 },
    Entry { id: 201, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "nondimensional_end_to_end_length_per_link", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f201, nested: m201, own: o201, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_end_to_end_length_per_link"), ccall: c201 },
    Entry { id: 202, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "force", params: &["potential_distance", "potential_stiffness"], margs: &["potential_distance", "potential_stiffness"], free: f202, nested: m202, own: o202, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_force"), ccall: c202 },
    Entry { id: 203, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "nondimensional_force", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f203, nested: m203, own: o203, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_force"), ccall: c203 },
    Entry { id: 204, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f204, nested: m204, own: o204, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_gibbs_free_energy"), ccall: c204 },
    Entry { id: 205, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f205, nested: m205, own: o205, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_gibbs_free_energy_per_link"), ccall: c205 },
    Entry { id: 206, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f206, nested: m206, own: o206, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_relative_gibbs_free_energy"), ccall: c206 },
    Entry { id: 207, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "relative_gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], margs: &["potential_distance", "potential_stiffness", "temperature"], free: f207, nested: m207, own: o207, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_relative_gibbs_free_energy_per_link"), ccall: c207 },
    Entry { id: 208, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: f208, nested: m208, own: o208, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_gibbs_free_energy"), ccall: c208 },
    Entry { id: 209, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "nondimensional_gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: f209, nested: m209, own: o209, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_gibbs_free_energy_per_link"), ccall: c209 },
    Entry { id: 210, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f210, nested: m210, own: o210, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_relative_gibbs_free_energy"), ccall: c210 },
    Entry { id: 211, module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", model: "fjc", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], margs: &["nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: f211, nested: m211, own: o211, symbol: Some("physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c211 },
    Entry { id: 212, module: "ideal/thermodynamics/isometric", model: "ideal", func: "force", params: &["number_of_links", "link_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f212, nested: m212, own: o212, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_force"), ccall: c212 },
    Entry { id: 213, module: "ideal/thermodynamics/isometric", model: "ideal", func: "nondimensional_force", params: &["nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f213, nested: m213, own: o213, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_nondimensional_force"), ccall: c213 },
    Entry { id: 214, module: "ideal/thermodynamics/isometric", model: "ideal", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f214, nested: m214, own: o214, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_helmholtz_free_energy"), ccall: c214 },
    Entry { id: 215, module: "ideal/thermodynamics/isometric", model: "ideal", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f215, nested: m215, own: o215, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_helmholtz_free_energy_per_link"), ccall: c215 },
    Entry { id: 216, module: "ideal/thermodynamics/isometric", model: "ideal", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f216, nested: m216, own: o216, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_relative_helmholtz_free_energy"), ccall: c216 },
    Entry { id: 217, module: "ideal/thermodynamics/isometric", model: "ideal", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f217, nested: m217, own: o217, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_relative_helmholtz_free_energy_per_link"), ccall: c217 },
    Entry { id: 218, module: "ideal/thermodynamics/isometric", model: "ideal", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f218, nested: m218, own: o218, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_nondimensional_helmholtz_free_energy"), ccall: c218 },
    Entry { id: 219, module: "ideal/thermodynamics/isometric", model: "ideal", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f219, nested: m219, own: o219, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_nondimensional_helmholtz_free_energy_per_link"), ccall: c219 },
    Entry { id: 220, module: "ideal/thermodynamics/isometric", model: "ideal", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f220, nested: m220, own: o220, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy"), ccall: c220 },
    Entry { id: 221, module: "ideal/thermodynamics/isometric", model: "ideal", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f221, nested: m221, own: o221, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c221 },
    Entry { id: 222, module: "ideal/thermodynamics/isometric", model: "ideal", func: "equilibrium_distribution", params: &["number_of_links", "link_length", "end_to_end_length"], margs: &["end_to_end_length"], free: f222, nested: m222, own: o222, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_equilibrium_distribution"), ccall: c222 },
    Entry { id: 223, module: "ideal/thermodynamics/isometric", model: "ideal", func: "nondimensional_equilibrium_distribution", params: &["number_of_links", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f223, nested: m223, own: o223, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_nondimensional_equilibrium_distribution"), ccall: c223 },
    Entry { id: 224, module: "ideal/thermodynamics/isometric", model: "ideal", func: "equilibrium_radial_distribution", params: &["number_of_links", "link_length", "end_to_end_length"], margs: &["end_to_end_length"], free: f224, nested: m224, own: o224, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_equilibrium_radial_distribution"), ccall: c224 },
    Entry { id: 225, module: "ideal/thermodynamics/isometric", model: "ideal", func: "nondimensional_equilibrium_radial_distribution", params: &["number_of_links", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f225, nested: m225, own: o225, symbol: Some("physics_single_chain_ideal_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution"), ccall: c225 },
    Entry { id: 226, module: "ideal/thermodynamics/isotensional", model: "ideal", func: "end_to_end_length", params: &["number_of_links", "link_length", "force", "temperature"], margs: &["force", "temperature"], free: f226, nested: m226, own: o226, symbol: Some("physics_single_chain_ideal_thermodynamics_isotensional_end_to_end_length"), ccall: c226 },
    Entry { id: 227, module: "ideal/thermodynamics/isotensional", model: "ideal", func: "end_to_end_length_per_link", params: &["link_length", "force", "temperature"], margs: &["force", "temperature"], free: f227, nested: m227, own: o227, symbol: Some("physics_single_chain_ideal_thermodynamics_isotensional_end_to_end_length_per_link"), ccall: c227 },
    Entry { id: 228, module: "ideal/thermodynamics/isotensional", model: "ideal", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_force"], margs: &["nondimensional_force"], free: f228, nested: m228, own: o228, symbol: Some("physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_end_to_end_length"), ccall: c228 },
    Entry { id: 229, module: "ideal/thermodynamics/isotensional", model: "ideal", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_force"], margs: &["nondimensional_force"], free: f229, nested: m229, own: o229, symbol: Some("physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link"), ccall: c229 },
    Entry { id: 230, module: "ideal/thermodynamics/isotensional", model: "ideal", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "force", "temperature"], margs: &["force", "temperature"], free: f230, nested: m230, own: o230, symbol: Some("physics_single_chain_ideal_thermodynamics_isotensional_gibbs_free_energy"), ccall: c230 },
    Entry { id: 231, module: "ideal/thermodynamics/isotensional", model: "ideal", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "force", "temperature"], margs: &["force", "temperature"], free: f231, nested: m231, own: o231, symbol: Some("physics_single_chain_ideal_thermodynamics_isotensional_gibbs_free_energy_per_link"), ccall: c231 },
    Entry { id: 232, module: "ideal/thermodynamics/isotensional", model: "ideal", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "force", "temperature"], margs: &["force", "temperature"], free: f232, nested: m232, own: o232, symbol: Some("physics_single_chain_ideal_thermodynamics_isotensional_relative_gibbs_free_energy"), ccall: c232 },
    Entry { id: 233, module: "ideal/thermodynamics/isotensional", model: "ideal", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "force", "temperature"], margs: &["force", "temperature"], free: f233, nested: m233, own: o233, symbol: Some("physics_single_chain_ideal_thermodynamics_isotensional_relative_gibbs_free_energy_per_link"), ccall: c233 },
    Entry { id: 234, module: "ideal/thermodynamics/isotensional", model: "ideal", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f234, nested: m234, own: o234, symbol: Some("physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_gibbs_free_energy"), ccall: c234 },
    Entry { id: 235, module: "ideal/thermodynamics/isotensional", model: "ideal", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f235, nested: m235, own: o235, symbol: Some("physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link"), ccall: c235 },
    Entry { id: 236, module: "ideal/thermodynamics/isotensional", model: "ideal", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_force"], margs: &["nondimensional_force"], free: f236, nested: m236, own: o236, symbol: Some("physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy"), ccall: c236 },
    Entry { id: 237, module: "ideal/thermodynamics/isotensional", model: "ideal", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_force"], margs: &["nondimensional_force"], free: f237, nested: m237, own: o237, symbol: Some("physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c237 },
    Entry { id: 238, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "force", params: &["number_of_links", "link_length", "well_width", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f238, nested: m238, own: o238, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_force"), ccall: c238 },
    Entry { id: 239, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "nondimensional_force", params: &["link_length", "well_width", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f239, nested: m239, own: o239, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_force"), ccall: c239 },
    Entry { id: 240, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "well_width", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f240, nested: m240, own: o240, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_helmholtz_free_energy"), ccall: c240 },
    Entry { id: 241, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "well_width", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f241, nested: m241, own: o241, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_helmholtz_free_energy_per_link"), ccall: c241 },
    Entry { id: 242, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "well_width", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f242, nested: m242, own: o242, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy"), ccall: c242 },
    Entry { id: 243, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "well_width", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f243, nested: m243, own: o243, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy_per_link"), ccall: c243 },
    Entry { id: 244, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "well_width", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f244, nested: m244, own: o244, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy"), ccall: c244 },
    Entry { id: 245, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "well_width", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f245, nested: m245, own: o245, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c245 },
    Entry { id: 246, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "well_width", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f246, nested: m246, own: o246, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c246 },
    Entry { id: 247, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["link_length", "well_width", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f247, nested: m247, own: o247, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c247 },
    Entry { id: 248, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "equilibrium_distribution", params: &["number_of_links", "link_length", "well_width", "normalization_nondimensional_equilibrium_distribution", "end_to_end_length"], margs: &["end_to_end_length"], free: f248, nested: m248, own: o248, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_equilibrium_distribution"), ccall: c248 },
    Entry { id: 249, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "nondimensional_equilibrium_distribution", params: &["number_of_links", "link_length", "well_width", "normalization_nondimensional_equilibrium_distribution", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f249, nested: m249, own: o249, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_distribution"), ccall: c249 },
    Entry { id: 250, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "equilibrium_radial_distribution", params: &["number_of_links", "link_length", "well_width", "normalization_nondimensional_equilibrium_distribution", "end_to_end_length"], margs: &["end_to_end_length"], free: f250, nested: m250, own: o250, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_equilibrium_radial_distribution"), ccall: c250 },
    Entry { id: 251, module: "swfjc/thermodynamics/isometric/legendre", model: "swfjc", func: "nondimensional_equilibrium_radial_distribution", params: &["number_of_links", "link_length", "well_width", "normalization_nondimensional_equilibrium_distribution", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f251, nested: m251, own: o251, symbol: Some("physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_radial_distribution"), ccall: c251 },
    Entry { id: 252, module: "swfjc/thermodynamics/isotensional", model: "swfjc", func: "end_to_end_length", params: &["number_of_links", "link_length", "well_width", "force", "temperature"], margs: &["force", "temperature"], free: f252, nested: m252, own: o252, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_end_to_end_length"), ccall: c252 },
    Entry { id: 253, module: "swfjc/thermodynamics/isotensional", model: "swfjc", func: "end_to_end_length_per_link", params: &["link_length", "well_width", "force", "temperature"], margs: &["force", "temperature"], free: f253, nested: m253, own: o253, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_end_to_end_length_per_link"), ccall: c253 },
    Entry { id: 254, module: "swfjc/thermodynamics/isotensional", model: "swfjc", func: "nondimensional_end_to_end_length", params: &["number_of_links", "link_length", "well_width", "nondimensional_force"], margs: &["nondimensional_force"], free: f254, nested: m254, own: o254, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_end_to_end_length"), ccall: c254 },
    Entry { id: 255, module: "swfjc/thermodynamics/isotensional", model: "swfjc", func: "nondimensional_end_to_end_length_per_link", params: &["link_length", "well_width", "nondimensional_force"], margs: &["nondimensional_force"], free: f255, nested: m255, own: o255, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link"), ccall: c255 },
    Entry { id: 256, module: "swfjc/thermodynamics/isotensional", model: "swfjc", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "well_width", "force", "temperature"], margs: &["force", "temperature"], free: f256, nested: m256, own: o256, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_gibbs_free_energy"), ccall: c256 },
    Entry { id: 257, module: "swfjc/thermodynamics/isotensional", model: "swfjc", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "well_width", "force", "temperature"], margs: &["force", "temperature"], free: f257, nested: m257, own: o257, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_gibbs_free_energy_per_link"), ccall: c257 },
    Entry { id: 258, module: "swfjc/thermodynamics/isotensional", model: "swfjc", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "well_width", "force", "temperature"], margs: &["force", "temperature"], free: f258, nested: m258, own: o258, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_relative_gibbs_free_energy"), ccall: c258 },
    Entry { id: 259, module: "swfjc/thermodynamics/isotensional", model: "swfjc", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "well_width", "force", "temperature"], margs: &["force", "temperature"], free: f259, nested: m259, own: o259, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link"), ccall: c259 },
    Entry { id: 260, module: "swfjc/thermodynamics/isotensional", model: "swfjc", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "well_width", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f260, nested: m260, own: o260, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy"), ccall: c260 },
    Entry { id: 261, module: "swfjc/thermodynamics/isotensional", model: "swfjc", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "well_width", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f261, nested: m261, own: o261, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link"), ccall: c261 },
    Entry { id: 262, module: "swfjc/thermodynamics/isotensional", model: "swfjc", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "link_length", "well_width", "nondimensional_force"], margs: &["nondimensional_force"], free: f262, nested: m262, own: o262, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy"), ccall: c262 },
    Entry { id: 263, module: "swfjc/thermodynamics/isotensional", model: "swfjc", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["link_length", "well_width", "nondimensional_force"], margs: &["nondimensional_force"], free: f263, nested: m263, own: o263, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c263 },
    Entry { id: 264, module: "swfjc/thermodynamics/isotensional/legendre", model: "swfjc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "well_width", "force", "temperature"], margs: &["force", "temperature"], free: f264, nested: m264, own: o264, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_legendre_helmholtz_free_energy"), ccall: c264 },
    Entry { id: 265, module: "swfjc/thermodynamics/isotensional/legendre", model: "swfjc", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "well_width", "force", "temperature"], margs: &["force", "temperature"], free: f265, nested: m265, own: o265, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link"), ccall: c265 },
    Entry { id: 266, module: "swfjc/thermodynamics/isotensional/legendre", model: "swfjc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "well_width", "force", "temperature"], margs: &["force", "temperature"], free: f266, nested: m266, own: o266, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy"), ccall: c266 },
    Entry { id: 267, module: "swfjc/thermodynamics/isotensional/legendre", model: "swfjc", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "well_width", "force", "temperature"], margs: &["force", "temperature"], free: f267, nested: m267, own: o267, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link"), ccall: c267 },
    Entry { id: 268, module: "swfjc/thermodynamics/isotensional/legendre", model: "swfjc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "well_width", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f268, nested: m268, own: o268, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy"), ccall: c268 },
    Entry { id: 269, module: "swfjc/thermodynamics/isotensional/legendre", model: "swfjc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "well_width", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f269, nested: m269, own: o269, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c269 },
    Entry { id: 270, module: "swfjc/thermodynamics/isotensional/legendre", model: "swfjc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "well_width", "nondimensional_force"], margs: &["nondimensional_force"], free: f270, nested: m270, own: o270, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c270 },
    Entry { id: 271, module: "swfjc/thermodynamics/isotensional/legendre", model: "swfjc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["link_length", "well_width", "nondimensional_force"], margs: &["nondimensional_force"], free: f271, nested: m271, own: o271, symbol: Some("physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c271 },
    Entry { id: 272, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/lennard_jones", func: "force", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f272, nested: m272, own: o272, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_force"), ccall: c272 },
    Entry { id: 273, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/lennard_jones", func: "nondimensional_force", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f273, nested: m273, own: o273, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_force"), ccall: c273 },
    Entry { id: 274, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/lennard_jones", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f274, nested: m274, own: o274, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy"), ccall: c274 },
    Entry { id: 275, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/lennard_jones", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f275, nested: m275, own: o275, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link"), ccall: c275 },
    Entry { id: 276, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/lennard_jones", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f276, nested: m276, own: o276, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy"), ccall: c276 },
    Entry { id: 277, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/lennard_jones", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f277, nested: m277, own: o277, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link"), ccall: c277 },
    Entry { id: 278, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/lennard_jones", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f278, nested: m278, own: o278, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy"), ccall: c278 },
    Entry { id: 279, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/lennard_jones", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f279, nested: m279, own: o279, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c279 },
    Entry { id: 280, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/lennard_jones", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f280, nested: m280, own: o280, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c280 },
    Entry { id: 281, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/lennard_jones", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f281, nested: m281, own: o281, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c281 },
    Entry { id: 282, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "force", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f282, nested: m282, own: o282, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_force"), ccall: c282 },
    Entry { id: 283, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "nondimensional_force", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f283, nested: m283, own: o283, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force"), ccall: c283 },
    Entry { id: 284, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f284, nested: m284, own: o284, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy"), ccall: c284 },
    Entry { id: 285, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f285, nested: m285, own: o285, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link"), ccall: c285 },
    Entry { id: 286, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f286, nested: m286, own: o286, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy"), ccall: c286 },
    Entry { id: 287, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f287, nested: m287, own: o287, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link"), ccall: c287 },
    Entry { id: 288, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f288, nested: m288, own: o288, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy"), ccall: c288 },
    Entry { id: 289, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f289, nested: m289, own: o289, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c289 },
    Entry { id: 290, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f290, nested: m290, own: o290, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c290 },
    Entry { id: 291, module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f291, nested: m291, own: o291, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c291 },
    Entry { id: 292, module: "ufjc/lennard_jones/thermodynamics/isotensional", model: "ufjc/lennard_jones", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f292, nested: m292, own: o292, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_end_to_end_length"), ccall: c292 },
    Entry { id: 293, module: "ufjc/lennard_jones/thermodynamics/isotensional", model: "ufjc/lennard_jones", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f293, nested: m293, own: o293, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_end_to_end_length_per_link"), ccall: c293 },
    Entry { id: 294, module: "ufjc/lennard_jones/thermodynamics/isotensional", model: "ufjc/lennard_jones", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f294, nested: m294, own: o294, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_end_to_end_length"), ccall: c294 },
    Entry { id: 295, module: "ufjc/lennard_jones/thermodynamics/isotensional", model: "ufjc/lennard_jones", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f295, nested: m295, own: o295, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link"), ccall: c295 },
    Entry { id: 296, module: "ufjc/lennard_jones/thermodynamics/isotensional", model: "ufjc/lennard_jones", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f296, nested: m296, own: o296, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_gibbs_free_energy"), ccall: c296 },
    Entry { id: 297, module: "ufjc/lennard_jones/thermodynamics/isotensional", model: "ufjc/lennard_jones", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f297, nested: m297, own: o297, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_gibbs_free_energy_per_link"), ccall: c297 },
    Entry { id: 298, module: "ufjc/lennard_jones/thermodynamics/isotensional", model: "ufjc/lennard_jones", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f298, nested: m298, own: o298, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_relative_gibbs_free_energy"), ccall: c298 },
    Entry { id: 299, module: "ufjc/lennard_jones/thermodynamics/isotensional", model: "ufjc/lennard_jones", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f299, nested: m299, own: o299, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_relative_gibbs_free_energy_per_link"), ccall: c299 },
    Entry { id: 300, module: "ufjc/lennard_jones/thermodynamics/isotensional", model: "ufjc/lennard_jones", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f300, nested: m300, own: o300, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_gibbs_free_energy"), ccall: c300 },
    Entry { id: 301, module: "ufjc/lennard_jones/thermodynamics/isotensional", model: "ufjc/lennard_jones", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f301, nested: m301, own: o301, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link"), ccall: c301 },
    Entry { id: 302, module: "ufjc/lennard_jones/thermodynamics/isotensional", model: "ufjc/lennard_jones", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f302, nested: m302, own: o302, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy"), ccall: c302 },
    Entry { id: 303, module: "ufjc/lennard_jones/thermodynamics/isotensional", model: "ufjc/lennard_jones", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f303, nested: m303, own: o303, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c303 },
    Entry { id: 304, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", model: "ufjc/lennard_jones", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f304, nested: m304, own: o304, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_end_to_end_length"), ccall: c304 },
    Entry { id: 305, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", model: "ufjc/lennard_jones", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f305, nested: m305, own: o305, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link"), ccall: c305 },
    Entry { id: 306, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", model: "ufjc/lennard_jones", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f306, nested: m306, own: o306, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length"), ccall: c306 },
    Entry { id: 307, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", model: "ufjc/lennard_jones", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f307, nested: m307, own: o307, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link"), ccall: c307 },
    Entry { id: 308, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", model: "ufjc/lennard_jones", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f308, nested: m308, own: o308, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_gibbs_free_energy"), ccall: c308 },
    Entry { id: 309, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", model: "ufjc/lennard_jones", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f309, nested: m309, own: o309, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link"), ccall: c309 },
    Entry { id: 310, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", model: "ufjc/lennard_jones", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f310, nested: m310, own: o310, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy"), ccall: c310 },
    Entry { id: 311, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", model: "ufjc/lennard_jones", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f311, nested: m311, own: o311, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link"), ccall: c311 },
    Entry { id: 312, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", model: "ufjc/lennard_jones", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f312, nested: m312, own: o312, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy"), ccall: c312 },
    Entry { id: 313, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", model: "ufjc/lennard_jones", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f313, nested: m313, own: o313, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link"), ccall: c313 },
    Entry { id: 314, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", model: "ufjc/lennard_jones", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f314, nested: m314, own: o314, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy"), ccall: c314 },
    Entry { id: 315, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", model: "ufjc/lennard_jones", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f315, nested: m315, own: o315, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c315 },
    Entry { id: 316, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/lennard_jones", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f316, nested: m316, own: o316, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy"), ccall: c316 },
    Entry { id: 317, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/lennard_jones", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f317, nested: m317, own: o317, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link"), ccall: c317 },
    Entry { id: 318, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/lennard_jones", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f318, nested: m318, own: o318, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy"), ccall: c318 },
    Entry { id: 319, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/lennard_jones", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f319, nested: m319, own: o319, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link"), ccall: c319 },
    Entry { id: 320, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/lennard_jones", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f320, nested: m320, own: o320, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy"), ccall: c320 },
    Entry { id: 321, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/lennard_jones", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f321, nested: m321, own: o321, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c321 },
    Entry { id: 322, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/lennard_jones", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f322, nested: m322, own: o322, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c322 },
    Entry { id: 323, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/lennard_jones", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f323, nested: m323, own: o323, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c323 },
    Entry { id: 324, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/lennard_jones", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f324, nested: m324, own: o324, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length"), ccall: c324 },
    Entry { id: 325, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/lennard_jones", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f325, nested: m325, own: o325, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link"), ccall: c325 },
    Entry { id: 326, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/lennard_jones", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f326, nested: m326, own: o326, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length"), ccall: c326 },
    Entry { id: 327, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/lennard_jones", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f327, nested: m327, own: o327, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link"), ccall: c327 },
    Entry { id: 328, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/lennard_jones", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f328, nested: m328, own: o328, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy"), ccall: c328 },
    Entry { id: 329, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/lennard_jones", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f329, nested: m329, own: o329, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link"), ccall: c329 },
    Entry { id: 330, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/lennard_jones", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f330, nested: m330, own: o330, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy"), ccall: c330 },
    Entry { id: 331, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/lennard_jones", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f331, nested: m331, own: o331, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link"), ccall: c331 },
    Entry { id: 332, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/lennard_jones", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f332, nested: m332, own: o332, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy"), ccall: c332 },
    Entry { id: 333, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/lennard_jones", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f333, nested: m333, own: o333, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link"), ccall: c333 },
    Entry { id: 334, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/lennard_jones", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f334, nested: m334, own: o334, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy"), ccall: c334 },
    Entry { id: 335, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/lennard_jones", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f335, nested: m335, own: o335, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c335 },
    Entry { id: 336, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f336, nested: m336, own: o336, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy"), ccall: c336 },
    Entry { id: 337, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f337, nested: m337, own: o337, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link"), ccall: c337 },
    Entry { id: 338, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f338, nested: m338, own: o338, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy"), ccall: c338 },
    Entry { id: 339, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f339, nested: m339, own: o339, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link"), ccall: c339 },
    Entry { id: 340, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f340, nested: m340, own: o340, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy"), ccall: c340 },
    Entry { id: 341, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f341, nested: m341, own: o341, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c341 },
    Entry { id: 342, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f342, nested: m342, own: o342, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c342 },
    Entry { id: 343, module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/lennard_jones", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f343, nested: m343, own: o343, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c343 },
    Entry { id: 344, module: "ufjc/lennard_jones/thermodynamics/isotensional/legendre", model: "ufjc/lennard_jones", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f344, nested: m344, own: o344, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_helmholtz_free_energy"), ccall: c344 },
    Entry { id: 345, module: "ufjc/lennard_jones/thermodynamics/isotensional/legendre", model: "ufjc/lennard_jones", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f345, nested: m345, own: o345, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link"), ccall: c345 },
    Entry { id: 346, module: "ufjc/lennard_jones/thermodynamics/isotensional/legendre", model: "ufjc/lennard_jones", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f346, nested: m346, own: o346, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy"), ccall: c346 },
    Entry { id: 347, module: "ufjc/lennard_jones/thermodynamics/isotensional/legendre", model: "ufjc/lennard_jones", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f347, nested: m347, own: o347, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link"), ccall: c347 },
    Entry { id: 348, module: "ufjc/lennard_jones/thermodynamics/isotensional/legendre", model: "ufjc/lennard_jones", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f348, nested: m348, own: o348, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy"), ccall: c348 },
    Entry { id: 349, module: "ufjc/lennard_jones/thermodynamics/isotensional/legendre", model: "ufjc/lennard_jones", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f349, nested: m349, own: o349, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c349 },
    Entry { id: 350, module: "ufjc/lennard_jones/thermodynamics/isotensional/legendre", model: "ufjc/lennard_jones", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f350, nested: m350, own: o350, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c350 },
    Entry { id: 351, module: "ufjc/lennard_jones/thermodynamics/isotensional/legendre", model: "ufjc/lennard_jones", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f351, nested: m351, own: o351, symbol: Some("physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c351 },
    Entry { id: 352, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/log_squared", func: "force", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f352, nested: m352, own: o352, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_force"), ccall: c352 },
    Entry { id: 353, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/log_squared", func: "nondimensional_force", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f353, nested: m353, own: o353, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_force"), ccall: c353 },
    Entry { id: 354, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/log_squared", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f354, nested: m354, own: o354, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy"), ccall: c354 },
    Entry { id: 355, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/log_squared", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f355, nested: m355, own: o355, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link"), ccall: c355 },
    Entry { id: 356, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/log_squared", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f356, nested: m356, own: o356, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy"), ccall: c356 },
    Entry { id: 357, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/log_squared", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f357, nested: m357, own: o357, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link"), ccall: c357 },
    Entry { id: 358, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/log_squared", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f358, nested: m358, own: o358, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy"), ccall: c358 },
    Entry { id: 359, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/log_squared", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f359, nested: m359, own: o359, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c359 },
    Entry { id: 360, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/log_squared", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f360, nested: m360, own: o360, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c360 },
    Entry { id: 361, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/log_squared", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f361, nested: m361, own: o361, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c361 },
    Entry { id: 362, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "force", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f362, nested: m362, own: o362, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_force"), ccall: c362 },
    Entry { id: 363, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "nondimensional_force", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f363, nested: m363, own: o363, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force"), ccall: c363 },
    Entry { id: 364, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f364, nested: m364, own: o364, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy"), ccall: c364 },
    Entry { id: 365, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f365, nested: m365, own: o365, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link"), ccall: c365 },
    Entry { id: 366, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f366, nested: m366, own: o366, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy"), ccall: c366 },
    Entry { id: 367, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f367, nested: m367, own: o367, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link"), ccall: c367 },
    Entry { id: 368, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f368, nested: m368, own: o368, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy"), ccall: c368 },
    Entry { id: 369, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f369, nested: m369, own: o369, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c369 },
    Entry { id: 370, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f370, nested: m370, own: o370, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c370 },
    Entry { id: 371, module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f371, nested: m371, own: o371, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c371 },
    Entry { id: 372, module: "ufjc/log_squared/thermodynamics/isotensional", model: "ufjc/log_squared", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f372, nested: m372, own: o372, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_end_to_end_length"), ccall: c372 },
    Entry { id: 373, module: "ufjc/log_squared/thermodynamics/isotensional", model: "ufjc/log_squared", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f373, nested: m373, own: o373, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_end_to_end_length_per_link"), ccall: c373 },
    Entry { id: 374, module: "ufjc/log_squared/thermodynamics/isotensional", model: "ufjc/log_squared", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f374, nested: m374, own: o374, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_end_to_end_length"), ccall: c374 },
    Entry { id: 375, module: "ufjc/log_squared/thermodynamics/isotensional", model: "ufjc/log_squared", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f375, nested: m375, own: o375, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link"), ccall: c375 },
    Entry { id: 376, module: "ufjc/log_squared/thermodynamics/isotensional", model: "ufjc/log_squared", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f376, nested: m376, own: o376, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_gibbs_free_energy"), ccall: c376 },
    Entry { id: 377, module: "ufjc/log_squared/thermodynamics/isotensional", model: "ufjc/log_squared", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f377, nested: m377, own: o377, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_gibbs_free_energy_per_link"), ccall: c377 },
    Entry { id: 378, module: "ufjc/log_squared/thermodynamics/isotensional", model: "ufjc/log_squared", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f378, nested: m378, own: o378, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_relative_gibbs_free_energy"), ccall: c378 },
    Entry { id: 379, module: "ufjc/log_squared/thermodynamics/isotensional", model: "ufjc/log_squared", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f379, nested: m379, own: o379, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_relative_gibbs_free_energy_per_link"), ccall: c379 },
    Entry { id: 380, module: "ufjc/log_squared/thermodynamics/isotensional", model: "ufjc/log_squared", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f380, nested: m380, own: o380, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_gibbs_free_energy"), ccall: c380 },
    Entry { id: 381, module: "ufjc/log_squared/thermodynamics/isotensional", model: "ufjc/log_squared", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f381, nested: m381, own: o381, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link"), ccall: c381 },
    Entry { id: 382, module: "ufjc/log_squared/thermodynamics/isotensional", model: "ufjc/log_squared", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f382, nested: m382, own: o382, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy"), ccall: c382 },
    Entry { id: 383, module: "ufjc/log_squared/thermodynamics/isotensional", model: "ufjc/log_squared", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f383, nested: m383, own: o383, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c383 },
    Entry { id: 384, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", model: "ufjc/log_squared", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f384, nested: m384, own: o384, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_end_to_end_length"), ccall: c384 },
    Entry { id: 385, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", model: "ufjc/log_squared", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f385, nested: m385, own: o385, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link"), ccall: c385 },
    Entry { id: 386, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", model: "ufjc/log_squared", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f386, nested: m386, own: o386, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length"), ccall: c386 },
    Entry { id: 387, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", model: "ufjc/log_squared", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f387, nested: m387, own: o387, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link"), ccall: c387 },
    Entry { id: 388, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", model: "ufjc/log_squared", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f388, nested: m388, own: o388, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_gibbs_free_energy"), ccall: c388 },
    Entry { id: 389, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", model: "ufjc/log_squared", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f389, nested: m389, own: o389, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link"), ccall: c389 },
    Entry { id: 390, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", model: "ufjc/log_squared", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f390, nested: m390, own: o390, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy"), ccall: c390 },
    Entry { id: 391, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", model: "ufjc/log_squared", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f391, nested: m391, own: o391, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link"), ccall: c391 },
    Entry { id: 392, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", model: "ufjc/log_squared", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f392, nested: m392, own: o392, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy"), ccall: c392 },
    Entry { id: 393, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", model: "ufjc/log_squared", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f393, nested: m393, own: o393, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link"), ccall: c393 },
    Entry { id: 394, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", model: "ufjc/log_squared", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f394, nested: m394, own: o394, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy"), ccall: c394 },
    Entry { id: 395, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", model: "ufjc/log_squared", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f395, nested: m395, own: o395, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c395 },
    Entry { id: 396, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/log_squared", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f396, nested: m396, own: o396, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy"), ccall: c396 },
    Entry { id: 397, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/log_squared", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f397, nested: m397, own: o397, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link"), ccall: c397 },
    Entry { id: 398, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/log_squared", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f398, nested: m398, own: o398, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy"), ccall: c398 },
    Entry { id: 399, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/log_squared", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f399, nested: m399, own: o399, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link"), ccall: c399 },
    Entry { id: 400, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/log_squared", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f400, nested: m400, own: o400, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy"), ccall: c400 },
    Entry { id: 401, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/log_squared", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f401, nested: m401, own: o401, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c401 },
    Entry { id: 402, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/log_squared", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f402, nested: m402, own: o402, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c402 },
    Entry { id: 403, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/log_squared", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f403, nested: m403, own: o403, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c403 },
    Entry { id: 404, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/log_squared", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f404, nested: m404, own: o404, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length"), ccall: c404 },
    Entry { id: 405, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/log_squared", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f405, nested: m405, own: o405, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link"), ccall: c405 },
    Entry { id: 406, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/log_squared", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f406, nested: m406, own: o406, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length"), ccall: c406 },
    Entry { id: 407, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/log_squared", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f407, nested: m407, own: o407, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link"), ccall: c407 },
    Entry { id: 408, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/log_squared", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f408, nested: m408, own: o408, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy"), ccall: c408 },
    Entry { id: 409, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/log_squared", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f409, nested: m409, own: o409, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link"), ccall: c409 },
    Entry { id: 410, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/log_squared", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f410, nested: m410, own: o410, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy"), ccall: c410 },
    Entry { id: 411, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/log_squared", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f411, nested: m411, own: o411, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link"), ccall: c411 },
    Entry { id: 412, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/log_squared", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f412, nested: m412, own: o412, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy"), ccall: c412 },
    Entry { id: 413, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/log_squared", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f413, nested: m413, own: o413, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link"), ccall: c413 },
    Entry { id: 414, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/log_squared", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f414, nested: m414, own: o414, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy"), ccall: c414 },
    Entry { id: 415, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/log_squared", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f415, nested: m415, own: o415, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c415 },
    Entry { id: 416, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f416, nested: m416, own: o416, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy"), ccall: c416 },
    Entry { id: 417, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f417, nested: m417, own: o417, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link"), ccall: c417 },
    Entry { id: 418, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f418, nested: m418, own: o418, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy"), ccall: c418 },
    Entry { id: 419, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f419, nested: m419, own: o419, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link"), ccall: c419 },
    Entry { id: 420, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f420, nested: m420, own: o420, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy"), ccall: c420 },
    Entry { id: 421, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f421, nested: m421, own: o421, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c421 },
    Entry { id: 422, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f422, nested: m422, own: o422, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c422 },
    Entry { id: 423, module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/log_squared", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f423, nested: m423, own: o423, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c423 },
    Entry { id: 424, module: "ufjc/log_squared/thermodynamics/isotensional/legendre", model: "ufjc/log_squared", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f424, nested: m424, own: o424, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_helmholtz_free_energy"), ccall: c424 },
    Entry { id: 425, module: "ufjc/log_squared/thermodynamics/isotensional/legendre", model: "ufjc/log_squared", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f425, nested: m425, own: o425, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link"), ccall: c425 },
    Entry { id: 426, module: "ufjc/log_squared/thermodynamics/isotensional/legendre", model: "ufjc/log_squared", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f426, nested: m426, own: o426, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy"), ccall: c426 },
    Entry { id: 427, module: "ufjc/log_squared/thermodynamics/isotensional/legendre", model: "ufjc/log_squared", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "force", "temperature"], margs: &["force", "temperature"], free: f427, nested: m427, own: o427, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link"), ccall: c427 },
    Entry { id: 428, module: "ufjc/log_squared/thermodynamics/isotensional/legendre", model: "ufjc/log_squared", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f428, nested: m428, own: o428, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy"), ccall: c428 },
    Entry { id: 429, module: "ufjc/log_squared/thermodynamics/isotensional/legendre", model: "ufjc/log_squared", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f429, nested: m429, own: o429, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c429 },
    Entry { id: 430, module: "ufjc/log_squared/thermodynamics/isotensional/legendre", model: "ufjc/log_squared", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f430, nested: m430, own: o430, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c430 },
    Entry { id: 431, module: "ufjc/log_squared/thermodynamics/isotensional/legendre", model: "ufjc/log_squared", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f431, nested: m431, own: o431, symbol: Some("physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c431 },
    Entry { id: 432, module: "ufjc/morse/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/morse", func: "force", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f432, nested: m432, own: o432, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_force"), ccall: c432 },
    Entry { id: 433, module: "ufjc/morse/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/morse", func: "nondimensional_force", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f433, nested: m433, own: o433, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_force"), ccall: c433 },
    Entry { id: 434, module: "ufjc/morse/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/morse", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f434, nested: m434, own: o434, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy"), ccall: c434 },
    Entry { id: 435, module: "ufjc/morse/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/morse", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f435, nested: m435, own: o435, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link"), ccall: c435 },
    Entry { id: 436, module: "ufjc/morse/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/morse", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f436, nested: m436, own: o436, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy"), ccall: c436 },
    Entry { id: 437, module: "ufjc/morse/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/morse", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f437, nested: m437, own: o437, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link"), ccall: c437 },
    Entry { id: 438, module: "ufjc/morse/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/morse", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f438, nested: m438, own: o438, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy"), ccall: c438 },
    Entry { id: 439, module: "ufjc/morse/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/morse", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f439, nested: m439, own: o439, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c439 },
    Entry { id: 440, module: "ufjc/morse/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/morse", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f440, nested: m440, own: o440, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c440 },
    Entry { id: 441, module: "ufjc/morse/thermodynamics/isometric/asymptotic/legendre", model: "ufjc/morse", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f441, nested: m441, own: o441, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c441 },
    Entry { id: 442, module: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/morse", func: "force", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f442, nested: m442, own: o442, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_force"), ccall: c442 },
    Entry { id: 443, module: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/morse", func: "nondimensional_force", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f443, nested: m443, own: o443, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force"), ccall: c443 },
    Entry { id: 444, module: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/morse", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f444, nested: m444, own: o444, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy"), ccall: c444 },
    Entry { id: 445, module: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/morse", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f445, nested: m445, own: o445, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link"), ccall: c445 },
    Entry { id: 446, module: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/morse", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f446, nested: m446, own: o446, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy"), ccall: c446 },
    Entry { id: 447, module: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/morse", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f447, nested: m447, own: o447, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link"), ccall: c447 },
    Entry { id: 448, module: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/morse", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f448, nested: m448, own: o448, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy"), ccall: c448 },
    Entry { id: 449, module: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/morse", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f449, nested: m449, own: o449, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c449 },
    Entry { id: 450, module: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/morse", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f450, nested: m450, own: o450, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c450 },
    Entry { id: 451, module: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", model: "ufjc/morse", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f451, nested: m451, own: o451, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c451 },
    Entry { id: 452, module: "ufjc/morse/thermodynamics/isotensional", model: "ufjc/morse", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f452, nested: m452, own: o452, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_end_to_end_length"), ccall: c452 },
    Entry { id: 453, module: "ufjc/morse/thermodynamics/isotensional", model: "ufjc/morse", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f453, nested: m453, own: o453, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_end_to_end_length_per_link"), ccall: c453 },
    Entry { id: 454, module: "ufjc/morse/thermodynamics/isotensional", model: "ufjc/morse", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f454, nested: m454, own: o454, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_end_to_end_length"), ccall: c454 },
    Entry { id: 455, module: "ufjc/morse/thermodynamics/isotensional", model: "ufjc/morse", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f455, nested: m455, own: o455, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link"), ccall: c455 },
    Entry { id: 456, module: "ufjc/morse/thermodynamics/isotensional", model: "ufjc/morse", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f456, nested: m456, own: o456, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_gibbs_free_energy"), ccall: c456 },
    Entry { id: 457, module: "ufjc/morse/thermodynamics/isotensional", model: "ufjc/morse", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f457, nested: m457, own: o457, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_gibbs_free_energy_per_link"), ccall: c457 },
    Entry { id: 458, module: "ufjc/morse/thermodynamics/isotensional", model: "ufjc/morse", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f458, nested: m458, own: o458, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_relative_gibbs_free_energy"), ccall: c458 },
    Entry { id: 459, module: "ufjc/morse/thermodynamics/isotensional", model: "ufjc/morse", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f459, nested: m459, own: o459, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_relative_gibbs_free_energy_per_link"), ccall: c459 },
    Entry { id: 460, module: "ufjc/morse/thermodynamics/isotensional", model: "ufjc/morse", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f460, nested: m460, own: o460, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_gibbs_free_energy"), ccall: c460 },
    Entry { id: 461, module: "ufjc/morse/thermodynamics/isotensional", model: "ufjc/morse", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f461, nested: m461, own: o461, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link"), ccall: c461 },
    Entry { id: 462, module: "ufjc/morse/thermodynamics/isotensional", model: "ufjc/morse", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f462, nested: m462, own: o462, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy"), ccall: c462 },
    Entry { id: 463, module: "ufjc/morse/thermodynamics/isotensional", model: "ufjc/morse", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f463, nested: m463, own: o463, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c463 },
    Entry { id: 464, module: "ufjc/morse/thermodynamics/isotensional/asymptotic", model: "ufjc/morse", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f464, nested: m464, own: o464, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_end_to_end_length"), ccall: c464 },
    Entry { id: 465, module: "ufjc/morse/thermodynamics/isotensional/asymptotic", model: "ufjc/morse", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f465, nested: m465, own: o465, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link"), ccall: c465 },
    Entry { id: 466, module: "ufjc/morse/thermodynamics/isotensional/asymptotic", model: "ufjc/morse", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f466, nested: m466, own: o466, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length"), ccall: c466 },
    Entry { id: 467, module: "ufjc/morse/thermodynamics/isotensional/asymptotic", model: "ufjc/morse", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f467, nested: m467, own: o467, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link"), ccall: c467 },
    Entry { id: 468, module: "ufjc/morse/thermodynamics/isotensional/asymptotic", model: "ufjc/morse", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f468, nested: m468, own: o468, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_gibbs_free_energy"), ccall: c468 },
    Entry { id: 469, module: "ufjc/morse/thermodynamics/isotensional/asymptotic", model: "ufjc/morse", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f469, nested: m469, own: o469, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link"), ccall: c469 },
    Entry { id: 470, module: "ufjc/morse/thermodynamics/isotensional/asymptotic", model: "ufjc/morse", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f470, nested: m470, own: o470, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy"), ccall: c470 },
    Entry { id: 471, module: "ufjc/morse/thermodynamics/isotensional/asymptotic", model: "ufjc/morse", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f471, nested: m471, own: o471, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link"), ccall: c471 },
    Entry { id: 472, module: "ufjc/morse/thermodynamics/isotensional/asymptotic", model: "ufjc/morse", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f472, nested: m472, own: o472, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy"), ccall: c472 },
    Entry { id: 473, module: "ufjc/morse/thermodynamics/isotensional/asymptotic", model: "ufjc/morse", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f473, nested: m473, own: o473, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link"), ccall: c473 },
    Entry { id: 474, module: "ufjc/morse/thermodynamics/isotensional/asymptotic", model: "ufjc/morse", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f474, nested: m474, own: o474, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy"), ccall: c474 },
    Entry { id: 475, module: "ufjc/morse/thermodynamics/isotensional/asymptotic", model: "ufjc/morse", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f475, nested: m475, own: o475, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c475 },
    Entry { id: 476, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/morse", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f476, nested: m476, own: o476, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy"), ccall: c476 },
    Entry { id: 477, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/morse", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f477, nested: m477, own: o477, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link"), ccall: c477 },
    Entry { id: 478, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/morse", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f478, nested: m478, own: o478, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy"), ccall: c478 },
    Entry { id: 479, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/morse", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f479, nested: m479, own: o479, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link"), ccall: c479 },
    Entry { id: 480, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/morse", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f480, nested: m480, own: o480, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy"), ccall: c480 },
    Entry { id: 481, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/morse", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f481, nested: m481, own: o481, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c481 },
    Entry { id: 482, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/morse", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f482, nested: m482, own: o482, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c482 },
    Entry { id: 483, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/legendre", model: "ufjc/morse", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f483, nested: m483, own: o483, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c483 },
    Entry { id: 484, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/morse", func: "end_to_end_length", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f484, nested: m484, own: o484, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length"), ccall: c484 },
    Entry { id: 485, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/morse", func: "end_to_end_length_per_link", params: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f485, nested: m485, own: o485, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link"), ccall: c485 },
    Entry { id: 486, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/morse", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f486, nested: m486, own: o486, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length"), ccall: c486 },
    Entry { id: 487, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/morse", func: "nondimensional_end_to_end_length_per_link", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f487, nested: m487, own: o487, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link"), ccall: c487 },
    Entry { id: 488, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/morse", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f488, nested: m488, own: o488, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy"), ccall: c488 },
    Entry { id: 489, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/morse", func: "gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f489, nested: m489, own: o489, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link"), ccall: c489 },
    Entry { id: 490, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/morse", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f490, nested: m490, own: o490, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy"), ccall: c490 },
    Entry { id: 491, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/morse", func: "relative_gibbs_free_energy_per_link", params: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f491, nested: m491, own: o491, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link"), ccall: c491 },
    Entry { id: 492, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/morse", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f492, nested: m492, own: o492, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy"), ccall: c492 },
    Entry { id: 493, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/morse", func: "nondimensional_gibbs_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f493, nested: m493, own: o493, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link"), ccall: c493 },
    Entry { id: 494, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/morse", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f494, nested: m494, own: o494, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy"), ccall: c494 },
    Entry { id: 495, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", model: "ufjc/morse", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f495, nested: m495, own: o495, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c495 },
    Entry { id: 496, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/morse", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f496, nested: m496, own: o496, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy"), ccall: c496 },
    Entry { id: 497, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/morse", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f497, nested: m497, own: o497, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link"), ccall: c497 },
    Entry { id: 498, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/morse", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f498, nested: m498, own: o498, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy"), ccall: c498 },
    Entry { id: 499, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/morse", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f499, nested: m499, own: o499, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link"), ccall: c499 },
    Entry { id: 500, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/morse", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f500, nested: m500, own: o500, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy"), ccall: c500 },
    Entry { id: 501, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/morse", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f501, nested: m501, own: o501, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c501 },
    Entry { id: 502, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/morse", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f502, nested: m502, own: o502, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c502 },
    Entry { id: 503, module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre", model: "ufjc/morse", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f503, nested: m503, own: o503, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c503 },
    Entry { id: 504, module: "ufjc/morse/thermodynamics/isotensional/legendre", model: "ufjc/morse", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f504, nested: m504, own: o504, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_helmholtz_free_energy"), ccall: c504 },
    Entry { id: 505, module: "ufjc/morse/thermodynamics/isotensional/legendre", model: "ufjc/morse", func: "helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f505, nested: m505, own: o505, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link"), ccall: c505 },
    Entry { id: 506, module: "ufjc/morse/thermodynamics/isotensional/legendre", model: "ufjc/morse", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f506, nested: m506, own: o506, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy"), ccall: c506 },
    Entry { id: 507, module: "ufjc/morse/thermodynamics/isotensional/legendre", model: "ufjc/morse", func: "relative_helmholtz_free_energy_per_link", params: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], margs: &["force", "temperature"], free: f507, nested: m507, own: o507, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link"), ccall: c507 },
    Entry { id: 508, module: "ufjc/morse/thermodynamics/isotensional/legendre", model: "ufjc/morse", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f508, nested: m508, own: o508, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy"), ccall: c508 },
    Entry { id: 509, module: "ufjc/morse/thermodynamics/isotensional/legendre", model: "ufjc/morse", func: "nondimensional_helmholtz_free_energy_per_link", params: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f509, nested: m509, own: o509, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c509 },
    Entry { id: 510, module: "ufjc/morse/thermodynamics/isotensional/legendre", model: "ufjc/morse", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f510, nested: m510, own: o510, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c510 },
    Entry { id: 511, module: "ufjc/morse/thermodynamics/isotensional/legendre", model: "ufjc/morse", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], margs: &["nondimensional_force", "temperature"], free: f511, nested: m511, own: o511, symbol: Some("physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c511 },
    Entry { id: 512, module: "wlc/thermodynamics/isometric", model: "wlc", func: "force", params: &["number_of_links", "link_length", "persistance_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f512, nested: m512, own: o512, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_force"), ccall: c512 },
    Entry { id: 513, module: "wlc/thermodynamics/isometric", model: "wlc", func: "nondimensional_force", params: &["number_of_links", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f513, nested: m513, own: o513, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_nondimensional_force"), ccall: c513 },
    Entry { id: 514, module: "wlc/thermodynamics/isometric", model: "wlc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f514, nested: m514, own: o514, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_helmholtz_free_energy"), ccall: c514 },
    Entry { id: 515, module: "wlc/thermodynamics/isometric", model: "wlc", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f515, nested: m515, own: o515, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_helmholtz_free_energy_per_link"), ccall: c515 },
    Entry { id: 516, module: "wlc/thermodynamics/isometric", model: "wlc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "persistance_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f516, nested: m516, own: o516, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_relative_helmholtz_free_energy"), ccall: c516 },
    Entry { id: 517, module: "wlc/thermodynamics/isometric", model: "wlc", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "persistance_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f517, nested: m517, own: o517, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_relative_helmholtz_free_energy_per_link"), ccall: c517 },
    Entry { id: 518, module: "wlc/thermodynamics/isometric", model: "wlc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f518, nested: m518, own: o518, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_nondimensional_helmholtz_free_energy"), ccall: c518 },
    Entry { id: 519, module: "wlc/thermodynamics/isometric", model: "wlc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f519, nested: m519, own: o519, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_nondimensional_helmholtz_free_energy_per_link"), ccall: c519 },
    Entry { id: 520, module: "wlc/thermodynamics/isometric", model: "wlc", func: "nondimensional_relative_helmholtz_free_energy", params: &["nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f520, nested: m520, own: o520, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy"), ccall: c520 },
    Entry { id: 521, module: "wlc/thermodynamics/isometric", model: "wlc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["number_of_links", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f521, nested: m521, own: o521, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c521 },
    Entry { id: 522, module: "wlc/thermodynamics/isometric", model: "wlc", func: "equilibrium_distribution", params: &["number_of_links", "link_length", "persistance_length", "normalization_nondimensional_equilibrium_distribution", "end_to_end_length"], margs: &["end_to_end_length"], free: f522, nested: m522, own: o522, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_equilibrium_distribution"), ccall: c522 },
    Entry { id: 523, module: "wlc/thermodynamics/isometric", model: "wlc", func: "nondimensional_equilibrium_distribution", params: &["nondimensional_persistance_length", "normalization_nondimensional_equilibrium_distribution", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f523, nested: m523, own: o523, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_nondimensional_equilibrium_distribution"), ccall: c523 },
    Entry { id: 524, module: "wlc/thermodynamics/isometric", model: "wlc", func: "equilibrium_radial_distribution", params: &["number_of_links", "link_length", "persistance_length", "normalization_nondimensional_equilibrium_distribution", "end_to_end_length"], margs: &["end_to_end_length"], free: f524, nested: m524, own: o524, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_equilibrium_radial_distribution"), ccall: c524 },
    Entry { id: 525, module: "wlc/thermodynamics/isometric", model: "wlc", func: "nondimensional_equilibrium_radial_distribution", params: &["nondimensional_persistance_length", "normalization_nondimensional_equilibrium_distribution", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f525, nested: m525, own: o525, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution"), ccall: c525 },
    Entry { id: 526, module: "wlc/thermodynamics/isometric/legendre", model: "wlc", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f526, nested: m526, own: o526, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_legendre_gibbs_free_energy"), ccall: c526 },
    Entry { id: 527, module: "wlc/thermodynamics/isometric/legendre", model: "wlc", func: "gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f527, nested: m527, own: o527, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_legendre_gibbs_free_energy_per_link"), ccall: c527 },
    Entry { id: 528, module: "wlc/thermodynamics/isometric/legendre", model: "wlc", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "persistance_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f528, nested: m528, own: o528, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_legendre_relative_gibbs_free_energy"), ccall: c528 },
    Entry { id: 529, module: "wlc/thermodynamics/isometric/legendre", model: "wlc", func: "relative_gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "persistance_length", "end_to_end_length", "temperature"], margs: &["end_to_end_length", "temperature"], free: f529, nested: m529, own: o529, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_legendre_relative_gibbs_free_energy_per_link"), ccall: c529 },
    Entry { id: 530, module: "wlc/thermodynamics/isometric/legendre", model: "wlc", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f530, nested: m530, own: o530, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy"), ccall: c530 },
    Entry { id: 531, module: "wlc/thermodynamics/isometric/legendre", model: "wlc", func: "nondimensional_gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link", "temperature"], margs: &["nondimensional_end_to_end_length_per_link", "temperature"], free: f531, nested: m531, own: o531, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy_per_link"), ccall: c531 },
    Entry { id: 532, module: "wlc/thermodynamics/isometric/legendre", model: "wlc", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f532, nested: m532, own: o532, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy"), ccall: c532 },
    Entry { id: 533, module: "wlc/thermodynamics/isometric/legendre", model: "wlc", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["number_of_links", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link"], margs: &["nondimensional_end_to_end_length_per_link"], free: f533, nested: m533, own: o533, symbol: Some("physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c533 },
    Entry { id: 534, module: "wlc/thermodynamics/isotensional", model: "wlc", func: "end_to_end_length", params: &["number_of_links", "link_length", "persistance_length", "force", "temperature"], margs: &["force", "temperature"], free: f534, nested: m534, own: o534, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_end_to_end_length"), ccall: c534 },
    Entry { id: 535, module: "wlc/thermodynamics/isotensional", model: "wlc", func: "end_to_end_length_per_link", params: &["number_of_links", "link_length", "persistance_length", "force", "temperature"], margs: &["force", "temperature"], free: f535, nested: m535, own: o535, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_end_to_end_length_per_link"), ccall: c535 },
    Entry { id: 536, module: "wlc/thermodynamics/isotensional", model: "wlc", func: "nondimensional_end_to_end_length", params: &["number_of_links", "nondimensional_persistance_length", "nondimensional_force"], margs: &["nondimensional_force"], free: f536, nested: m536, own: o536, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_end_to_end_length"), ccall: c536 },
    Entry { id: 537, module: "wlc/thermodynamics/isotensional", model: "wlc", func: "nondimensional_end_to_end_length_per_link", params: &["number_of_links", "nondimensional_persistance_length", "nondimensional_force"], margs: &["nondimensional_force"], free: f537, nested: m537, own: o537, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link"), ccall: c537 },
    Entry { id: 538, module: "wlc/thermodynamics/isotensional", model: "wlc", func: "gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "force", "temperature"], margs: &["force", "temperature"], free: f538, nested: m538, own: o538, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_gibbs_free_energy"), ccall: c538 },
    Entry { id: 539, module: "wlc/thermodynamics/isotensional", model: "wlc", func: "gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "force", "temperature"], margs: &["force", "temperature"], free: f539, nested: m539, own: o539, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_gibbs_free_energy_per_link"), ccall: c539 },
    Entry { id: 540, module: "wlc/thermodynamics/isotensional", model: "wlc", func: "relative_gibbs_free_energy", params: &["number_of_links", "link_length", "persistance_length", "force", "temperature"], margs: &["force", "temperature"], free: f540, nested: m540, own: o540, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_relative_gibbs_free_energy"), ccall: c540 },
    Entry { id: 541, module: "wlc/thermodynamics/isotensional", model: "wlc", func: "relative_gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "persistance_length", "force", "temperature"], margs: &["force", "temperature"], free: f541, nested: m541, own: o541, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link"), ccall: c541 },
    Entry { id: 542, module: "wlc/thermodynamics/isotensional", model: "wlc", func: "nondimensional_gibbs_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f542, nested: m542, own: o542, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_gibbs_free_energy"), ccall: c542 },
    Entry { id: 543, module: "wlc/thermodynamics/isotensional", model: "wlc", func: "nondimensional_gibbs_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f543, nested: m543, own: o543, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link"), ccall: c543 },
    Entry { id: 544, module: "wlc/thermodynamics/isotensional", model: "wlc", func: "nondimensional_relative_gibbs_free_energy", params: &["number_of_links", "nondimensional_persistance_length", "nondimensional_force"], margs: &["nondimensional_force"], free: f544, nested: m544, own: o544, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy"), ccall: c544 },
    Entry { id: 545, module: "wlc/thermodynamics/isotensional", model: "wlc", func: "nondimensional_relative_gibbs_free_energy_per_link", params: &["number_of_links", "nondimensional_persistance_length", "nondimensional_force"], margs: &["nondimensional_force"], free: f545, nested: m545, own: o545, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link"), ccall: c545 },
    Entry { id: 546, module: "wlc/thermodynamics/isotensional/legendre", model: "wlc", func: "helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "force", "temperature"], margs: &["force", "temperature"], free: f546, nested: m546, own: o546, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_legendre_helmholtz_free_energy"), ccall: c546 },
    Entry { id: 547, module: "wlc/thermodynamics/isotensional/legendre", model: "wlc", func: "helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "force", "temperature"], margs: &["force", "temperature"], free: f547, nested: m547, own: o547, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link"), ccall: c547 },
    Entry { id: 548, module: "wlc/thermodynamics/isotensional/legendre", model: "wlc", func: "relative_helmholtz_free_energy", params: &["number_of_links", "link_length", "persistance_length", "force", "temperature"], margs: &["force", "temperature"], free: f548, nested: m548, own: o548, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy"), ccall: c548 },
    Entry { id: 549, module: "wlc/thermodynamics/isotensional/legendre", model: "wlc", func: "relative_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "persistance_length", "force", "temperature"], margs: &["force", "temperature"], free: f549, nested: m549, own: o549, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link"), ccall: c549 },
    Entry { id: 550, module: "wlc/thermodynamics/isotensional/legendre", model: "wlc", func: "nondimensional_helmholtz_free_energy", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f550, nested: m550, own: o550, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy"), ccall: c550 },
    Entry { id: 551, module: "wlc/thermodynamics/isotensional/legendre", model: "wlc", func: "nondimensional_helmholtz_free_energy_per_link", params: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_force", "temperature"], margs: &["nondimensional_force", "temperature"], free: f551, nested: m551, own: o551, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link"), ccall: c551 },
    Entry { id: 552, module: "wlc/thermodynamics/isotensional/legendre", model: "wlc", func: "nondimensional_relative_helmholtz_free_energy", params: &["number_of_links", "nondimensional_persistance_length", "nondimensional_force"], margs: &["nondimensional_force"], free: f552, nested: m552, own: o552, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy"), ccall: c552 },
    Entry { id: 553, module: "wlc/thermodynamics/isotensional/legendre", model: "wlc", func: "nondimensional_relative_helmholtz_free_energy_per_link", params: &["number_of_links", "nondimensional_persistance_length", "nondimensional_force"], margs: &["nondimensional_force"], free: f553, nested: m553, own: o553, symbol: Some("physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link"), ccall: c553 },
];
pub struct Node { pub module: &'static str, pub get: fn(&Models) -> Vec<(&'static str, f64)>, pub fields: &'static [&'static str] }
pub static NODES: &[Node] = &[
    Node { module: "efjc", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.hinge_mass as f64), ("link_length", m.efjc.link_length as f64), ("number_of_links", m.efjc.number_of_links as f64), ("link_stiffness", m.efjc.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.link_length as f64), ("number_of_links", m.efjc.thermodynamics.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isometric", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isometric.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isometric.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isometric.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isometric.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isometric/asymptotic", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isometric.asymptotic.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isometric.asymptotic.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isometric.asymptotic.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isometric.asymptotic.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isometric/asymptotic/alternative", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isometric.asymptotic.alternative.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isometric.asymptotic.alternative.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isometric.asymptotic.alternative.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isometric.asymptotic.alternative.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isometric/asymptotic/alternative/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isometric.asymptotic.alternative.legendre.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isometric/asymptotic/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isometric.asymptotic.legendre.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isometric.asymptotic.legendre.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isometric/asymptotic/reduced", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isometric.asymptotic.reduced.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isometric.asymptotic.reduced.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isometric/asymptotic/reduced/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isotensional", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isotensional.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isotensional.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isotensional.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isotensional.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isotensional/asymptotic", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isotensional.asymptotic.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isotensional.asymptotic.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isotensional.asymptotic.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isotensional.asymptotic.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isotensional/asymptotic/alternative", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isotensional.asymptotic.alternative.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isotensional.asymptotic.alternative.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isotensional.asymptotic.alternative.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isotensional.asymptotic.alternative.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isotensional/asymptotic/alternative/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isotensional.asymptotic.alternative.legendre.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isotensional.asymptotic.alternative.legendre.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isotensional.asymptotic.alternative.legendre.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isotensional.asymptotic.alternative.legendre.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isotensional/asymptotic/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isotensional.asymptotic.legendre.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isotensional/asymptotic/reduced", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isotensional.asymptotic.reduced.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isotensional/asymptotic/reduced/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64)] },
    Node { module: "efjc/thermodynamics/isotensional/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.efjc.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", m.efjc.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", m.efjc.thermodynamics.isotensional.legendre.number_of_links as f64), ("link_stiffness", m.efjc.thermodynamics.isotensional.legendre.link_stiffness as f64)] },
    Node { module: "fjc", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.fjc.hinge_mass as f64), ("link_length", m.fjc.link_length as f64), ("number_of_links", m.fjc.number_of_links as f64)] },
    Node { module: "fjc/thermodynamics", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.fjc.thermodynamics.hinge_mass as f64), ("link_length", m.fjc.thermodynamics.link_length as f64), ("number_of_links", m.fjc.thermodynamics.number_of_links as f64)] },
    Node { module: "fjc/thermodynamics/isometric", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.fjc.thermodynamics.isometric.hinge_mass as f64), ("link_length", m.fjc.thermodynamics.isometric.link_length as f64), ("number_of_links", m.fjc.thermodynamics.isometric.number_of_links as f64)] },
    Node { module: "fjc/thermodynamics/isometric/legendre", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.fjc.thermodynamics.isometric.legendre.hinge_mass as f64), ("link_length", m.fjc.thermodynamics.isometric.legendre.link_length as f64), ("number_of_links", m.fjc.thermodynamics.isometric.legendre.number_of_links as f64)] },
    Node { module: "fjc/thermodynamics/isotensional", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.fjc.thermodynamics.isotensional.hinge_mass as f64), ("link_length", m.fjc.thermodynamics.isotensional.link_length as f64), ("number_of_links", m.fjc.thermodynamics.isotensional.number_of_links as f64)] },
    Node { module: "fjc/thermodynamics/isotensional/legendre", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.fjc.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", m.fjc.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", m.fjc.thermodynamics.isotensional.legendre.number_of_links as f64)] },
    Node { module: "fjc/thermodynamics/modified_canonical", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.fjc.thermodynamics.modified_canonical.hinge_mass as f64), ("link_length", m.fjc.thermodynamics.modified_canonical.link_length as f64), ("number_of_links", m.fjc.thermodynamics.modified_canonical.number_of_links as f64)] },
    Node { module: "fjc/thermodynamics/modified_canonical/asymptotic", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.fjc.thermodynamics.modified_canonical.asymptotic.hinge_mass as f64), ("link_length", m.fjc.thermodynamics.modified_canonical.asymptotic.link_length as f64), ("number_of_links", m.fjc.thermodynamics.modified_canonical.asymptotic.number_of_links as f64)] },
    Node { module: "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.hinge_mass as f64), ("link_length", m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.link_length as f64), ("number_of_links", m.fjc.thermodynamics.modified_canonical.asymptotic.strong_potential.number_of_links as f64)] },
    Node { module: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.hinge_mass as f64), ("link_length", m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.link_length as f64), ("number_of_links", m.fjc.thermodynamics.modified_canonical.asymptotic.weak_potential.number_of_links as f64)] },
    Node { module: "ideal", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.ideal.hinge_mass as f64), ("link_length", m.ideal.link_length as f64), ("number_of_links", m.ideal.number_of_links as f64)] },
    Node { module: "ideal/thermodynamics", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.ideal.thermodynamics.hinge_mass as f64), ("link_length", m.ideal.thermodynamics.link_length as f64), ("number_of_links", m.ideal.thermodynamics.number_of_links as f64)] },
    Node { module: "ideal/thermodynamics/isometric", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.ideal.thermodynamics.isometric.hinge_mass as f64), ("link_length", m.ideal.thermodynamics.isometric.link_length as f64), ("number_of_links", m.ideal.thermodynamics.isometric.number_of_links as f64)] },
    Node { module: "ideal/thermodynamics/isotensional", fields: &["hinge_mass", "link_length", "number_of_links"], get: |m| vec![("hinge_mass", m.ideal.thermodynamics.isotensional.hinge_mass as f64), ("link_length", m.ideal.thermodynamics.isotensional.link_length as f64), ("number_of_links", m.ideal.thermodynamics.isotensional.number_of_links as f64)] },
    Node { module: "swfjc", fields: &["hinge_mass", "link_length", "number_of_links", "well_width"], get: |m| vec![("hinge_mass", m.swfjc.hinge_mass as f64), ("link_length", m.swfjc.link_length as f64), ("number_of_links", m.swfjc.number_of_links as f64), ("well_width", m.swfjc.well_width as f64)] },
    Node { module: "swfjc/thermodynamics", fields: &["hinge_mass", "link_length", "number_of_links", "well_width"], get: |m| vec![("hinge_mass", m.swfjc.thermodynamics.hinge_mass as f64), ("link_length", m.swfjc.thermodynamics.link_length as f64), ("number_of_links", m.swfjc.thermodynamics.number_of_links as f64), ("well_width", m.swfjc.thermodynamics.well_width as f64)] },
    Node { module: "swfjc/thermodynamics/isometric", fields: &["hinge_mass", "link_length", "number_of_links", "well_width"], get: |m| vec![("hinge_mass", m.swfjc.thermodynamics.isometric.hinge_mass as f64), ("link_length", m.swfjc.thermodynamics.isometric.link_length as f64), ("number_of_links", m.swfjc.thermodynamics.isometric.number_of_links as f64), ("well_width", m.swfjc.thermodynamics.isometric.well_width as f64)] },
    Node { module: "swfjc/thermodynamics/isometric/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "well_width"], get: |m| vec![("hinge_mass", m.swfjc.thermodynamics.isometric.legendre.hinge_mass as f64), ("link_length", m.swfjc.thermodynamics.isometric.legendre.link_length as f64), ("number_of_links", m.swfjc.thermodynamics.isometric.legendre.number_of_links as f64), ("well_width", m.swfjc.thermodynamics.isometric.legendre.well_width as f64)] },
    Node { module: "swfjc/thermodynamics/isotensional", fields: &["hinge_mass", "link_length", "number_of_links", "well_width"], get: |m| vec![("hinge_mass", m.swfjc.thermodynamics.isotensional.hinge_mass as f64), ("link_length", m.swfjc.thermodynamics.isotensional.link_length as f64), ("number_of_links", m.swfjc.thermodynamics.isotensional.number_of_links as f64), ("well_width", m.swfjc.thermodynamics.isotensional.well_width as f64)] },
    Node { module: "swfjc/thermodynamics/isotensional/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "well_width"], get: |m| vec![("hinge_mass", m.swfjc.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", m.swfjc.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", m.swfjc.thermodynamics.isotensional.legendre.number_of_links as f64), ("well_width", m.swfjc.thermodynamics.isotensional.legendre.well_width as f64)] },
    Node { module: "ufjc/lennard_jones", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.hinge_mass as f64), ("link_length", m.lennard_jones.link_length as f64), ("number_of_links", m.lennard_jones.number_of_links as f64), ("link_stiffness", m.lennard_jones.link_stiffness as f64)] },
    Node { module: "ufjc/lennard_jones/thermodynamics", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.thermodynamics.hinge_mass as f64), ("link_length", m.lennard_jones.thermodynamics.link_length as f64), ("number_of_links", m.lennard_jones.thermodynamics.number_of_links as f64), ("link_stiffness", m.lennard_jones.thermodynamics.link_stiffness as f64)] },
    Node { module: "ufjc/lennard_jones/thermodynamics/isometric", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.thermodynamics.isometric.hinge_mass as f64), ("link_length", m.lennard_jones.thermodynamics.isometric.link_length as f64), ("number_of_links", m.lennard_jones.thermodynamics.isometric.number_of_links as f64), ("link_stiffness", m.lennard_jones.thermodynamics.isometric.link_stiffness as f64)] },
    Node { module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.thermodynamics.isometric.asymptotic.hinge_mass as f64), ("link_length", m.lennard_jones.thermodynamics.isometric.asymptotic.link_length as f64), ("number_of_links", m.lennard_jones.thermodynamics.isometric.asymptotic.number_of_links as f64), ("link_stiffness", m.lennard_jones.thermodynamics.isometric.asymptotic.link_stiffness as f64)] },
    Node { module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64), ("link_length", m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.link_length as f64), ("number_of_links", m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.number_of_links as f64), ("link_stiffness", m.lennard_jones.thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64)] },
    Node { module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64), ("link_length", m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.link_length as f64), ("number_of_links", m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.number_of_links as f64), ("link_stiffness", m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64)] },
    Node { module: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", m.lennard_jones.thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64)] },
    Node { module: "ufjc/lennard_jones/thermodynamics/isotensional", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.thermodynamics.isotensional.hinge_mass as f64), ("link_length", m.lennard_jones.thermodynamics.isotensional.link_length as f64), ("number_of_links", m.lennard_jones.thermodynamics.isotensional.number_of_links as f64), ("link_stiffness", m.lennard_jones.thermodynamics.isotensional.link_stiffness as f64)] },
    Node { module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.thermodynamics.isotensional.asymptotic.hinge_mass as f64), ("link_length", m.lennard_jones.thermodynamics.isotensional.asymptotic.link_length as f64), ("number_of_links", m.lennard_jones.thermodynamics.isotensional.asymptotic.number_of_links as f64), ("link_stiffness", m.lennard_jones.thermodynamics.isotensional.asymptotic.link_stiffness as f64)] },
    Node { module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64), ("link_length", m.lennard_jones.thermodynamics.isotensional.asymptotic.legendre.link_length as f64), ("number_of_links", m.lennard_jones.thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64), ("link_stiffness", m.lennard_jones.thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64)] },
    Node { module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64), ("link_length", m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.link_length as f64), ("number_of_links", m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64), ("link_stiffness", m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64)] },
    Node { module: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", m.lennard_jones.thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64)] },
    Node { module: "ufjc/lennard_jones/thermodynamics/isotensional/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.lennard_jones.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", m.lennard_jones.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", m.lennard_jones.thermodynamics.isotensional.legendre.number_of_links as f64), ("link_stiffness", m.lennard_jones.thermodynamics.isotensional.legendre.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.hinge_mass as f64), ("link_length", m.log_squared.link_length as f64), ("number_of_links", m.log_squared.number_of_links as f64), ("link_stiffness", m.log_squared.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared/thermodynamics", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.thermodynamics.hinge_mass as f64), ("link_length", m.log_squared.thermodynamics.link_length as f64), ("number_of_links", m.log_squared.thermodynamics.number_of_links as f64), ("link_stiffness", m.log_squared.thermodynamics.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared/thermodynamics/isometric", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.thermodynamics.isometric.hinge_mass as f64), ("link_length", m.log_squared.thermodynamics.isometric.link_length as f64), ("number_of_links", m.log_squared.thermodynamics.isometric.number_of_links as f64), ("link_stiffness", m.log_squared.thermodynamics.isometric.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared/thermodynamics/isometric/asymptotic", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.thermodynamics.isometric.asymptotic.hinge_mass as f64), ("link_length", m.log_squared.thermodynamics.isometric.asymptotic.link_length as f64), ("number_of_links", m.log_squared.thermodynamics.isometric.asymptotic.number_of_links as f64), ("link_stiffness", m.log_squared.thermodynamics.isometric.asymptotic.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64), ("link_length", m.log_squared.thermodynamics.isometric.asymptotic.legendre.link_length as f64), ("number_of_links", m.log_squared.thermodynamics.isometric.asymptotic.legendre.number_of_links as f64), ("link_stiffness", m.log_squared.thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64), ("link_length", m.log_squared.thermodynamics.isometric.asymptotic.reduced.link_length as f64), ("number_of_links", m.log_squared.thermodynamics.isometric.asymptotic.reduced.number_of_links as f64), ("link_stiffness", m.log_squared.thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", m.log_squared.thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared/thermodynamics/isotensional", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.thermodynamics.isotensional.hinge_mass as f64), ("link_length", m.log_squared.thermodynamics.isotensional.link_length as f64), ("number_of_links", m.log_squared.thermodynamics.isotensional.number_of_links as f64), ("link_stiffness", m.log_squared.thermodynamics.isotensional.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.thermodynamics.isotensional.asymptotic.hinge_mass as f64), ("link_length", m.log_squared.thermodynamics.isotensional.asymptotic.link_length as f64), ("number_of_links", m.log_squared.thermodynamics.isotensional.asymptotic.number_of_links as f64), ("link_stiffness", m.log_squared.thermodynamics.isotensional.asymptotic.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64), ("link_length", m.log_squared.thermodynamics.isotensional.asymptotic.legendre.link_length as f64), ("number_of_links", m.log_squared.thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64), ("link_stiffness", m.log_squared.thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64), ("link_length", m.log_squared.thermodynamics.isotensional.asymptotic.reduced.link_length as f64), ("number_of_links", m.log_squared.thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64), ("link_stiffness", m.log_squared.thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", m.log_squared.thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", m.log_squared.thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", m.log_squared.thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64)] },
    Node { module: "ufjc/log_squared/thermodynamics/isotensional/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], get: |m| vec![("hinge_mass", m.log_squared.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", m.log_squared.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", m.log_squared.thermodynamics.isotensional.legendre.number_of_links as f64), ("link_stiffness", m.log_squared.thermodynamics.isotensional.legendre.link_stiffness as f64)] },
    Node { module: "ufjc/morse", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.hinge_mass as f64), ("link_length", m.morse.link_length as f64), ("number_of_links", m.morse.number_of_links as f64), ("link_stiffness", m.morse.link_stiffness as f64), ("link_energy", m.morse.link_energy as f64)] },
    Node { module: "ufjc/morse/thermodynamics", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.thermodynamics.hinge_mass as f64), ("link_length", m.morse.thermodynamics.link_length as f64), ("number_of_links", m.morse.thermodynamics.number_of_links as f64), ("link_stiffness", m.morse.thermodynamics.link_stiffness as f64), ("link_energy", m.morse.thermodynamics.link_energy as f64)] },
    Node { module: "ufjc/morse/thermodynamics/isometric", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.thermodynamics.isometric.hinge_mass as f64), ("link_length", m.morse.thermodynamics.isometric.link_length as f64), ("number_of_links", m.morse.thermodynamics.isometric.number_of_links as f64), ("link_stiffness", m.morse.thermodynamics.isometric.link_stiffness as f64), ("link_energy", m.morse.thermodynamics.isometric.link_energy as f64)] },
    Node { module: "ufjc/morse/thermodynamics/isometric/asymptotic", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.thermodynamics.isometric.asymptotic.hinge_mass as f64), ("link_length", m.morse.thermodynamics.isometric.asymptotic.link_length as f64), ("number_of_links", m.morse.thermodynamics.isometric.asymptotic.number_of_links as f64), ("link_stiffness", m.morse.thermodynamics.isometric.asymptotic.link_stiffness as f64), ("link_energy", m.morse.thermodynamics.isometric.asymptotic.link_energy as f64)] },
    Node { module: "ufjc/morse/thermodynamics/isometric/asymptotic/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64), ("link_length", m.morse.thermodynamics.isometric.asymptotic.legendre.link_length as f64), ("number_of_links", m.morse.thermodynamics.isometric.asymptotic.legendre.number_of_links as f64), ("link_stiffness", m.morse.thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64), ("link_energy", m.morse.thermodynamics.isometric.asymptotic.legendre.link_energy as f64)] },
    Node { module: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64), ("link_length", m.morse.thermodynamics.isometric.asymptotic.reduced.link_length as f64), ("number_of_links", m.morse.thermodynamics.isometric.asymptotic.reduced.number_of_links as f64), ("link_stiffness", m.morse.thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64), ("link_energy", m.morse.thermodynamics.isometric.asymptotic.reduced.link_energy as f64)] },
    Node { module: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64), ("link_energy", m.morse.thermodynamics.isometric.asymptotic.reduced.legendre.link_energy as f64)] },
    Node { module: "ufjc/morse/thermodynamics/isotensional", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.thermodynamics.isotensional.hinge_mass as f64), ("link_length", m.morse.thermodynamics.isotensional.link_length as f64), ("number_of_links", m.morse.thermodynamics.isotensional.number_of_links as f64), ("link_stiffness", m.morse.thermodynamics.isotensional.link_stiffness as f64), ("link_energy", m.morse.thermodynamics.isotensional.link_energy as f64)] },
    Node { module: "ufjc/morse/thermodynamics/isotensional/asymptotic", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.thermodynamics.isotensional.asymptotic.hinge_mass as f64), ("link_length", m.morse.thermodynamics.isotensional.asymptotic.link_length as f64), ("number_of_links", m.morse.thermodynamics.isotensional.asymptotic.number_of_links as f64), ("link_stiffness", m.morse.thermodynamics.isotensional.asymptotic.link_stiffness as f64), ("link_energy", m.morse.thermodynamics.isotensional.asymptotic.link_energy as f64)] },
    Node { module: "ufjc/morse/thermodynamics/isotensional/asymptotic/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64), ("link_length", m.morse.thermodynamics.isotensional.asymptotic.legendre.link_length as f64), ("number_of_links", m.morse.thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64), ("link_stiffness", m.morse.thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64), ("link_energy", m.morse.thermodynamics.isotensional.asymptotic.legendre.link_energy as f64)] },
    Node { module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64), ("link_length", m.morse.thermodynamics.isotensional.asymptotic.reduced.link_length as f64), ("number_of_links", m.morse.thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64), ("link_stiffness", m.morse.thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64), ("link_energy", m.morse.thermodynamics.isotensional.asymptotic.reduced.link_energy as f64)] },
    Node { module: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64), ("link_energy", m.morse.thermodynamics.isotensional.asymptotic.reduced.legendre.link_energy as f64)] },
    Node { module: "ufjc/morse/thermodynamics/isotensional/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], get: |m| vec![("hinge_mass", m.morse.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", m.morse.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", m.morse.thermodynamics.isotensional.legendre.number_of_links as f64), ("link_stiffness", m.morse.thermodynamics.isotensional.legendre.link_stiffness as f64), ("link_energy", m.morse.thermodynamics.isotensional.legendre.link_energy as f64)] },
    Node { module: "wlc", fields: &["hinge_mass", "link_length", "number_of_links", "persistance_length"], get: |m| vec![("hinge_mass", m.wlc.hinge_mass as f64), ("link_length", m.wlc.link_length as f64), ("number_of_links", m.wlc.number_of_links as f64), ("persistance_length", m.wlc.persistance_length as f64)] },
    Node { module: "wlc/thermodynamics", fields: &["hinge_mass", "link_length", "number_of_links", "persistance_length"], get: |m| vec![("hinge_mass", m.wlc.thermodynamics.hinge_mass as f64), ("link_length", m.wlc.thermodynamics.link_length as f64), ("number_of_links", m.wlc.thermodynamics.number_of_links as f64), ("persistance_length", m.wlc.thermodynamics.persistance_length as f64)] },
    Node { module: "wlc/thermodynamics/isometric", fields: &["hinge_mass", "link_length", "number_of_links", "persistance_length"], get: |m| vec![("hinge_mass", m.wlc.thermodynamics.isometric.hinge_mass as f64), ("link_length", m.wlc.thermodynamics.isometric.link_length as f64), ("number_of_links", m.wlc.thermodynamics.isometric.number_of_links as f64), ("persistance_length", m.wlc.thermodynamics.isometric.persistance_length as f64)] },
    Node { module: "wlc/thermodynamics/isometric/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "persistance_length"], get: |m| vec![("hinge_mass", m.wlc.thermodynamics.isometric.legendre.hinge_mass as f64), ("link_length", m.wlc.thermodynamics.isometric.legendre.link_length as f64), ("number_of_links", m.wlc.thermodynamics.isometric.legendre.number_of_links as f64), ("persistance_length", m.wlc.thermodynamics.isometric.legendre.persistance_length as f64)] },
    Node { module: "wlc/thermodynamics/isotensional", fields: &["hinge_mass", "link_length", "number_of_links", "persistance_length"], get: |m| vec![("hinge_mass", m.wlc.thermodynamics.isotensional.hinge_mass as f64), ("link_length", m.wlc.thermodynamics.isotensional.link_length as f64), ("number_of_links", m.wlc.thermodynamics.isotensional.number_of_links as f64), ("persistance_length", m.wlc.thermodynamics.isotensional.persistance_length as f64)] },
    Node { module: "wlc/thermodynamics/isotensional/legendre", fields: &["hinge_mass", "link_length", "number_of_links", "persistance_length"], get: |m| vec![("hinge_mass", m.wlc.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", m.wlc.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", m.wlc.thermodynamics.isotensional.legendre.number_of_links as f64), ("persistance_length", m.wlc.thermodynamics.isotensional.legendre.persistance_length as f64)] },
];
