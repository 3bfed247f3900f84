// the data managers are python classes, their code refers to the interpreter
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg=-lpython3.12");
}
