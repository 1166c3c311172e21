// Turns on the guarded hook in /repo/proof_of_space: constructors for the standalone circuits.
fn main() {
    println!("cargo:rustc-check-cfg=cfg(verif_sim)");
    println!("cargo:rustc-check-cfg=cfg(verif_gadget)");
    println!("cargo:rustc-cfg=verif_gadget");
    println!("cargo:rerun-if-changed=build.rs");
}
