//! The shared object the Python host loads resolves the simulated system functions within itself.
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-cdylib-link-arg=-Wl,-Bsymbolic");
}
