use std::path::PathBuf;
fn main() {
    // The LLVM shared library shipped with the pinned toolchain (the same LLVM that produced the IR).
    let home = std::env::var("RUSTUP_HOME")
        .unwrap_or_else(|_| format!("{}/.rustup", std::env::var("HOME").unwrap_or("/root".into())));
    let tc = std::env::var("SYMEX_LLVM_TOOLCHAIN").unwrap_or("1.90".into());
    let mut dir: Option<PathBuf> = None;
    for e in std::fs::read_dir(format!("{home}/toolchains")).expect("toolchains dir") {
        let p = e.unwrap().path();
        if p.file_name().unwrap().to_string_lossy().starts_with(&tc) {
            dir = Some(p.join("lib"));
        }
    }
    let dir = dir.expect("pinned toolchain present");
    let lib = std::fs::read_dir(&dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .find(|p| p.file_name().unwrap().to_string_lossy().starts_with("libLLVM.so."))
        .expect("libLLVM");
    println!("cargo:rustc-link-arg={}", lib.display());
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", dir.display());
    println!("cargo:rustc-link-arg=-lz3");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=SYMEX_LLVM_TOOLCHAIN");
}
