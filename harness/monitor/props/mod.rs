//! One module per group of properties; `ALL` is the registry.

use crate::runner::Prop;

pub mod build;
pub mod cli;
pub mod dirs;
pub mod faults;
pub mod hostile;
pub mod pygen;
pub mod read;
pub mod records;
pub mod trees;

pub static ALL: &[Prop] = &[
    build::C01,
    build::C02,
    build::C03,
    build::C04,
    build::C05,
    build::C06,
    read::C07,
    read::C08,
    read::C09,
    trees::C10,
    trees::C11,
    hostile::C12,
    faults::C13,
    faults::C14,
    dirs::C15,
    build::C16,
    cli::C20,
    records::C21,
    read::C22,
    dirs::C23,
    dirs::C24,
];
