//! The executable properties.

use crate::run::{Cx, R};

pub type CaseFn = fn(&mut Cx) -> R;

pub struct Prop {
    pub id: &'static str,
    pub case: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

mod attr;
mod bits;
mod config;
mod debug;
mod decode;
mod delivery;
mod errors;
mod groups;
mod memory;
mod ownership;
mod primitives;
mod purity;
mod safety;
mod sources;
mod total;
mod visit;
mod work;
mod zerocopy;

pub const ALL: &[Prop] = &[
    decode::C01,
    decode::C02,
    total::C03,
    memory::C04,
    delivery::C05,
    decode::C06,
    decode::C07,
    decode::C08,
    visit::C09,
    config::C10,
    attr::C11,
    groups::C12,
    errors::C13,
    primitives::C14,
    ownership::C15,
    bits::C16,
    debug::C17,
    delivery::C18,
    zerocopy::C19,
    safety::C20,
    sources::C21,
    work::C22,
    purity::C23,
];

/// May a case fail because of what the process has done before it, or by chance?
pub fn impure(id: &str) -> bool {
    id == "C23"
}

pub fn find(id: &str) -> &'static Prop {
    ALL.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"))
}

/// Known defects of the library that reproduce right now: (key, description).
pub fn probes(id: &str) -> Vec<(&'static str, String)> {
    match id {
        "C11" => attr::probes(),
        "C16" => bits::probes(),
        _ => crate::known::probes(id),
    }
}
