mod c01;
mod c05;
mod c06;
mod c16;
mod c22;
mod c23;
mod core;
mod crypt;
mod dmg;
mod folder;
mod freed;
mod gens;
mod hist;
mod img;
mod ms;
mod nav;
mod ops;
#[cfg(feature = "ord")]
mod ord;
mod pix;
mod pkg;
mod walks;

use crate::core::*;
use std::path::PathBuf;

#[global_allocator]
static A: Meter = Meter;

fn props() -> Vec<Property> {
    #[cfg(feature = "ord")]
    return vec![Property { id: "C24", level: "model_checking", assumptions: vec!["the crate is built with its feature indexmap"], families: ord::c24 }];
    #[cfg(not(feature = "ord"))]
    vec![
        Property { id: "C01", level: "model_checking", assumptions: vec![], families: c01::c01 },
        Property { id: "C02", level: "model_checking", assumptions: vec![], families: c01::c02 },
        Property { id: "C03", level: "model_checking", assumptions: vec![], families: pkg::c03 },
        Property { id: "C04", level: "model_checking", assumptions: vec![], families: pkg::c04 },
        Property { id: "C05", level: "model_checking", assumptions: vec![], families: c05::c05 },
        Property { id: "C06", level: "model_checking", assumptions: vec![], families: c06::c06 },
        Property { id: "C07", level: "model_checking", assumptions: vec![], families: c06::c07 },
        Property { id: "C10", level: "model_checking", assumptions: vec![], families: ops::c10 },
        Property { id: "C11", level: "model_checking", assumptions: vec![], families: nav::c11 },
        Property { id: "C12", level: "model_checking", assumptions: vec![], families: nav::c12 },
        Property { id: "C13", level: "model_checking", assumptions: vec![], families: nav::c13 },
        Property { id: "C14", level: "model_checking", assumptions: vec![], families: pix::c14 },
        Property { id: "C15", level: "model_checking", assumptions: vec![], families: pix::c15 },
        Property { id: "C16", level: "model_checking", assumptions: vec![], families: c16::c16 },
        Property { id: "C17", level: "model_checking", assumptions: vec![], families: ms::c17 },
        Property { id: "C18", level: "model_checking", assumptions: vec![], families: c23::c18 },
        Property { id: "C19", level: "model_checking", assumptions: vec![], families: dmg::c19 },
        Property { id: "C20", level: "model_checking", assumptions: vec![], families: folder::c20 },
        Property { id: "C21", level: "model_checking", assumptions: vec!["an archive that exactly one release and version hash explain"], families: hist::c21 },
        Property { id: "C22", level: "model_checking", assumptions: vec![], families: c22::c22 },
        Property { id: "C25", level: "model_checking", assumptions: vec![], families: freed::c25 },
        Property { id: "C23", level: "model_checking", assumptions: vec![], families: c23::c23 },
    ]
}
include!("cli.rs");
