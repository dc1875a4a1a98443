use crate::ctx::{Ctx, Tier, R};

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod packaged;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod common;
pub mod damaged;

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R,
    /// number of simulated runs in each tier
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}
impl Check {
    pub fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
}

pub fn all() -> Vec<Check> {
    vec![c01::CHECK, c02::CHECK, c03::CHECK, c04::CHECK, c05::CHECK, c06::CHECK, c07::CHECK, c08::CHECK, c09::CHECK, c10::CHECK, c11::CHECK, c12::CHECK, c13::CHECK, c14::CHECK, c15::CHECK, c16::CHECK]
}
