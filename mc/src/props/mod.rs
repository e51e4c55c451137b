pub mod edit;
pub mod gen;
pub mod io;
pub mod literal;
pub mod load;
pub mod numbers;

use crate::engine::Property;

pub static ALL: &[&Property] = &[
    &load::C01,
    &load::C02,
    &load::C03,
    &load::C04,
    &io::C05,
    &io::C06,
    &io::C07,
    &io::C08,
    &edit::C09,
    &edit::C10,
    &edit::C11,
    &load::C13,
    &load::C14,
    &load::C15,
    &numbers::C16,
    &numbers::C17,
    &numbers::C18,
    &load::C19,
    &edit::C20,
    &edit::C21,
];
