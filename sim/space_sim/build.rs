fn main() {
    // Export the interposed libc symbols, so that look-ups by name (dlsym) reach them too.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
