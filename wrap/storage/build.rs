fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    // the content hash of the sources is part of the compilation, so a rebuild never depends on mtimes
    println!("cargo:rustc-env=VERIF_SRC_HASH={}", std::env::var("VERIF_SRC_HASH").unwrap_or_default());
    println!("cargo:rustc-check-cfg=cfg(verif_hooks)");
    println!("cargo:rustc-cfg=verif_hooks");
}
