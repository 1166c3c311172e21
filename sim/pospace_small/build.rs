// Turns on the guarded hook in /repo/proof_of_space: small protocol constants.
fn main() {
    println!("cargo:rustc-check-cfg=cfg(verif_sim)");
    println!("cargo:rustc-check-cfg=cfg(verif_gadget)");
    println!("cargo:rustc-cfg=verif_sim");
    println!("cargo:rerun-if-changed=build.rs");
}
