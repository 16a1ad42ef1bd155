use std::env;
use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=c/ld.c");
    let out = env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/ld.o");
    let lib = format!("{out}/libvld.a");
    let run = |cmd: &mut Command| assert!(cmd.status().expect("cannot start").success(), "{cmd:?}");
    run(Command::new("gcc").args(["-O2", "-fPIC", "-fno-builtin", "-c", "c/ld.c", "-o", &obj]));
    let _ = std::fs::remove_file(&lib);
    run(Command::new("ar").args(["rcs", &lib, &obj]));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=static=vld");
    println!("cargo:rustc-link-lib=dylib:+verbatim=libmpfr.so.6");
    println!("cargo:rustc-link-lib=dylib:+verbatim=libm.so.6");
}
