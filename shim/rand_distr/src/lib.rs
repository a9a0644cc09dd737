//! The part of rand_distr that polymers uses (Normal, Distribution), against rand 0.9.
//! rand_distr 0.4.3 itself implements Distribution for rand 0.8 generators only, so the
//! two modules of polymers that use it do not compile with the pinned rand 0.9.2.
pub use rand::distr::Distribution;
use rand::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NormalError { MeanTooSmall, BadVariance }
impl std::fmt::Display for NormalError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "bad normal parameters") }
}
impl std::error::Error for NormalError {}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Normal<F> { mean: F, std_dev: F }

impl Normal<f64> {
    pub fn new(mean: f64, std_dev: f64) -> Result<Normal<f64>, NormalError> {
        if !std_dev.is_finite() { return Err(NormalError::BadVariance) }
        Ok(Normal { mean, std_dev })
    }
    pub fn mean(&self) -> f64 { self.mean }
    pub fn std_dev(&self) -> f64 { self.std_dev }
}

impl Distribution<f64> for Normal<f64> {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
        // Box-Muller; 1 - u lies in (0, 1].
        let u: f64 = 1.0 - rng.random::<f64>();
        let v: f64 = rng.random::<f64>();
        self.mean + self.std_dev * (-2.0 * u.ln()).sqrt() * (std::f64::consts::TAU * v).cos()
    }
}
