//! Properties of the parts that read and write files. They are built with stand-ins for the crates
//! that are not available here, see ../stubs.
#[path = "../../harness/src/analyses.rs"]
#[allow(dead_code)]
mod analyses;
#[path = "../../harness/src/calls.rs"]
#[allow(dead_code)]
mod calls;
mod convert;
mod data;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/relations.rs"]
#[allow(dead_code)]
mod relations;
mod via;
#[path = "../../harness/src/world.rs"]
#[allow(dead_code)]
mod world;

use engine::Prop;

fn all() -> Vec<Prop> {
    let mut all = data::props();
    all.extend(convert::props());
    all
}

fn main() {
    engine::quiet();
    engine::cli(all)
}
