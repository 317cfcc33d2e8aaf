#![allow(dead_code)]
#[path = "../../harness/src/c01.rs"]
mod c01;
mod c08;
mod c09;
#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/crypt.rs"]
mod crypt;
mod explore;
#[path = "../../harness/src/gens.rs"]
mod gens;
#[path = "../../harness/src/img.rs"]
mod img;
#[path = "../../harness/src/ms.rs"]
mod ms;
#[path = "../../harness/src/pkg.rs"]
mod pkg;

use crate::core::*;
use std::path::PathBuf;

#[global_allocator]
static A: Meter = Meter;

fn props() -> Vec<Property> {
    let a = vec!["threads switch at lock operations only (no data is shared outside locks)", "locks behave as the standard library's futex lock: a waiting writer keeps new readers out"];
    vec![
        Property { id: "C08", level: "model_checking", assumptions: a.clone(), families: c08::c08 },
        Property { id: "C09", level: "model_checking", assumptions: a, families: c09::c09 },
    ]
}
include!("../../harness/src/cli.rs");
