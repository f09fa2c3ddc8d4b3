use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=rt/rt.c");
    println!("cargo:rerun-if-changed=rt/rt.h");
    let ok = Command::new("gcc")
        .args(["-O2", "-g", "-Wall", "-Wno-unused-variable", "-fPIC", "-ftls-model=initial-exec", "-c", "rt/rt.c", "-o"])
        .arg(format!("{out}/rt.o"))
        .status().unwrap().success();
    assert!(ok, "gcc failed");
    println!("cargo:rustc-link-arg-bins={out}/rt.o");
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic");
    println!("cargo:rustc-link-arg-bins=-ldl");
}
