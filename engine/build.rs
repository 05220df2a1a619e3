fn main() {
    // libz3 4.8.12 (libz3-dev) is part of the sandbox image.
    println!("cargo:rustc-link-lib=dylib=z3");
}
