mod analyses;
mod calls;
mod engine;
mod grids;
mod relations;
mod world;

use engine::Prop;

fn all() -> Vec<Prop> {
    let mut v = grids::props();
    v.extend(analyses::props());
    v.extend(relations::props());
    v
}

fn main() {
    engine::cli(all)
}
