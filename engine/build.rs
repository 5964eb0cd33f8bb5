fn main() {
    // libz3 (system package libz3-dev)
    println!("cargo:rustc-link-lib=dylib=z3");
}
