//! One consistent set of arguments: every dimensional value and its nondimensional twin.
use crate::core::Rng;
pub const KB: f64 = 8.314462618;
/// 2019 SI, in J ns/mol.
pub const PLANCK: f64 = 6.62607015e-34 * 6.02214076e23 * 1e9;
/// What the library takes for it: recorded as a finding while it is the reduced constant.
pub fn planck() -> f64 { let reduced = PLANCK / (2.0 * std::f64::consts::PI); if (polymers::physics::PLANCK_CONSTANT / reduced - 1.0).abs() < 1e-6 { polymers::physics::PLANCK_CONSTANT } else { PLANCK } }

#[derive(Clone, Debug, Default)]
#[allow(dead_code)]
pub struct P {
    pub number_of_links: u8,
    pub link_length: f64,
    pub hinge_mass: f64,
    pub temperature: f64,
    pub link_stiffness: f64,
    pub link_energy: f64,
    pub well_width: f64,
    pub persistance_length: f64,
    pub end_to_end_length: f64,
    pub force: f64,
    pub nondimensional_link_stiffness: f64,
    pub nondimensional_link_energy: f64,
    pub nondimensional_persistance_length: f64,
    pub nondimensional_end_to_end_length_per_link: f64,
    pub nondimensional_force: f64,
    pub potential_distance: f64,
    pub potential_stiffness: f64,
    pub nondimensional_potential_distance: f64,
    pub nondimensional_potential_stiffness: f64,
    pub normalization: f64,
}

impl P {
    /// Sets the dimensional values from the nondimensional ones and (N, l, m, T).
    pub fn dimensionalise(&mut self) {
        let kt = KB * self.temperature;
        let l = self.link_length;
        let n = self.number_of_links as f64;
        self.link_stiffness = self.nondimensional_link_stiffness * kt / (l * l);
        self.link_energy = self.nondimensional_link_energy * kt;
        self.persistance_length = self.nondimensional_persistance_length * n * l;
        self.end_to_end_length = self.nondimensional_end_to_end_length_per_link * n * l;
        self.force = self.nondimensional_force * kt / l;
        self.potential_distance = self.nondimensional_potential_distance * n * l;
        self.potential_stiffness = self.nondimensional_potential_stiffness * kt / (l * l);
    }
    pub fn kt(&self) -> f64 { KB * self.temperature }
    pub fn with(&self, f: impl FnOnce(&mut P)) -> P { let mut p = self.clone(); f(&mut p); p.dimensionalise(); p }
    pub fn get(&self, name: &str) -> f64 {
        match name {
            "number_of_links" => self.number_of_links as f64,
            "link_length" => self.link_length,
            "hinge_mass" => self.hinge_mass,
            "temperature" => self.temperature,
            "link_stiffness" => self.link_stiffness,
            "link_energy" => self.link_energy,
            "well_width" => self.well_width,
            "persistance_length" => self.persistance_length,
            "end_to_end_length" => self.end_to_end_length,
            "force" => self.force,
            "nondimensional_link_stiffness" => self.nondimensional_link_stiffness,
            "nondimensional_link_energy" => self.nondimensional_link_energy,
            "nondimensional_persistance_length" => self.nondimensional_persistance_length,
            "nondimensional_end_to_end_length_per_link" => self.nondimensional_end_to_end_length_per_link,
            "nondimensional_force" => self.nondimensional_force,
            "potential_distance" => self.potential_distance,
            "potential_stiffness" => self.potential_stiffness,
            "nondimensional_potential_distance" => self.nondimensional_potential_distance,
            "nondimensional_potential_stiffness" => self.nondimensional_potential_stiffness,
            "normalization_nondimensional_equilibrium_distribution" => self.normalization,
            _ => panic!("unknown parameter {name}"),
        }
    }
    pub fn set(&mut self, name: &str, x: f64) {
        match name {
            "number_of_links" => self.number_of_links = x as u8,
            "link_length" => self.link_length = x,
            "hinge_mass" => self.hinge_mass = x,
            "link_stiffness" => self.link_stiffness = x,
            "link_energy" => self.link_energy = x,
            "well_width" => self.well_width = x,
            "persistance_length" => self.persistance_length = x,
            "temperature" => self.temperature = x,
            "end_to_end_length" => self.end_to_end_length = x,
            "force" => self.force = x,
            "nondimensional_link_stiffness" => self.nondimensional_link_stiffness = x,
            "nondimensional_link_energy" => self.nondimensional_link_energy = x,
            "nondimensional_persistance_length" => self.nondimensional_persistance_length = x,
            "nondimensional_end_to_end_length_per_link" => self.nondimensional_end_to_end_length_per_link = x,
            "nondimensional_force" => self.nondimensional_force = x,
            "potential_distance" => self.potential_distance = x,
            "potential_stiffness" => self.potential_stiffness = x,
            "nondimensional_potential_distance" => self.nondimensional_potential_distance = x,
            "nondimensional_potential_stiffness" => self.nondimensional_potential_stiffness = x,
            "normalization_nondimensional_equilibrium_distribution" => self.normalization = x,
            _ => panic!("cannot set {name}"),
        }
    }
    /// Environment: N, l, m, T.
    pub fn sample_environment(rng: &mut Rng, n_min: u8, n_max: u8) -> P {
        let mut p = P::default();
        p.number_of_links = rng.int(n_min as u64, n_max as u64) as u8;
        p.link_length = rng.log_uniform(0.2, 5.0);
        p.hinge_mass = rng.log_uniform(0.05, 50.0);
        p.temperature = rng.uniform(150.0, 650.0);
        p.normalization = 1.0;
        p.well_width = 0.5 * p.link_length;
        p.nondimensional_link_stiffness = 500.0;
        p.nondimensional_link_energy = 100.0;
        p.nondimensional_persistance_length = 0.3;
        p.nondimensional_end_to_end_length_per_link = 0.5;
        p.nondimensional_force = 5.0;
        p.nondimensional_potential_distance = 0.5;
        p.nondimensional_potential_stiffness = 1.0;
        p.dimensionalise();
        p
    }
    pub fn describe(&self, names: &[&str]) -> String {
        names.iter().map(|n| format!("{}={:?}", n, self.get(n))).collect::<Vec<_>>().join(", ")
    }
}
