//! Properties of the figures and of the python interface. Everything is built with stand-ins for
//! the crates that are not available here, see ../stubs, and the interpreter runs inside.
#[path = "../../harness/src/analyses.rs"]
#[allow(dead_code)]
mod analyses;
#[path = "../../harness/src/calls.rs"]
#[allow(dead_code)]
mod calls;
#[path = "../../harness_io/src/convert.rs"]
mod convert;
#[path = "../../harness_io/src/data.rs"]
#[allow(dead_code)]
mod data;
#[path = "../../harness/src/engine.rs"]
mod engine;
mod plots;
mod py;
mod pyapi;
#[path = "../../harness/src/relations.rs"]
#[allow(dead_code)]
mod relations;
mod via;
#[path = "../../harness/src/world.rs"]
#[allow(dead_code)]
mod world;

use engine::Prop;

fn all() -> Vec<Prop> {
    let mut all = plots::props();
    all.extend(pyapi::props());
    all
}

fn main() {
    engine::quiet();
    py::start();
    engine::cli(all)
}
