//! Compiles the C caller against the repository's headers, with the sanitizers.
use std::process::Command;
fn main() {
    for f in ["c/driver.c", "/repo/include/m68000/m68000.h", "/repo/include/m68000/m68000-ffi.h"] { println!("cargo:rerun-if-changed={f}"); }
    println!("cargo:rerun-if-env-changed=FFIMON_ASAN");
    let out = std::env::var("OUT_DIR").unwrap();
    let asan = std::env::var("FFIMON_ASAN").map(|v| v == "1").unwrap_or(false);
    let mut c = Command::new("clang");
    c.args(["-std=c11", "-Wall", "-g", "-O1", "-fPIE", "-I/repo/include", "-fno-omit-frame-pointer"]);
    if asan { c.args(["-fsanitize=address,undefined", "-fsanitize-trap=undefined"]); }
    let st = c.args(["-c", "c/driver.c", "-o", &format!("{out}/driver.o")]).status().expect("clang");
    assert!(st.success(), "the C caller does not compile against the headers");
    println!("cargo:rustc-link-arg-bins={out}/driver.o");
}
