fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=SUBSWEEP_SRC_HASH");
    println!("cargo:rustc-check-cfg=cfg(subsweep_verif)");
    println!("cargo:rustc-cfg=subsweep_verif");
    let h = std::env::var("SUBSWEEP_SRC_HASH").unwrap_or_default();
    println!("cargo:rustc-env=SUBSWEEP_SRC_HASH={h}");
    for name in ["BUILD_TIMESTAMP", "CARGO_FEATURES", "CARGO_OPT_LEVEL", "CARGO_TARGET_TRIPLE", "GIT_COMMIT_MESSAGE", "GIT_COMMIT_TIMESTAMP", "GIT_BRANCH", "GIT_SHA"] {
        println!("cargo:rustc-env=VERGEN_{name}=verif");
    }
    let hooks = std::env::var("CARGO_MANIFEST_DIR").unwrap() + "/../hooks";
    println!("cargo:rustc-env=SUBSWEEP_VERIF_HOOKS={hooks}");
}
