use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let k = std::path::Path::new(&std::env::var("CARGO_MANIFEST_DIR").unwrap()).join("../kernel");
    let st = Command::new("g++")
        .args(["-std=c++17", "-O2", "-g", "-fno-exceptions", "-fno-rtti", "-fPIC", "-Wno-misleading-indentation", "-c"])
        .arg(k.join("kernel.cc")).arg("-o").arg(format!("{out}/kernel.o")).status().expect("g++");
    assert!(st.success(), "kernel compile");
    // An object (not an archive) so that its libc entry points always win over libc's.
    println!("cargo:rustc-link-arg-bins={out}/kernel.o");
    println!("cargo:rustc-link-arg-bins=-lstdc++");
    for f in ["kernel.cc", "net.inc", "kernel.h"] { println!("cargo:rerun-if-changed={}", k.join(f).display()); }
}
