use std::process::Command;

fn run(c: &mut Command) {
    let s = c.status().expect("cannot run the C compiler");
    assert!(s.success(), "{:?} failed", c);
}

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=shim/shim.c");
    println!("cargo:rerun-if-changed=build.rs");
    run(Command::new("gcc")
        .args(&["-O1", "-g0", "-Wall", "-mno-red-zone", "-fno-builtin", "-c", "shim/shim.c", "-o"])
        .arg(format!("{}/shim.o", out)));
    let _ = std::fs::remove_file(format!("{}/libmcshim.a", out));
    run(Command::new("ar").args(&["crs", &format!("{}/libmcshim.a", out), &format!("{}/shim.o", out)]));
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=mcshim");
    println!("cargo:rustc-link-lib=dylib=dl");
}
