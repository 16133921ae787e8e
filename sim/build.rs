fn main() {
    // `getrandom` is looked up with dlsym() by the getrandom crate (ahash's fixed seeds), so the
    // simulated one has to be visible in the dynamic symbol table.
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
    println!("cargo:rerun-if-changed=build.rs");
}
