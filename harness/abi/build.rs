fn main() {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../..").into());
    println!("cargo:rerun-if-env-changed=VERIF_DIR");
    println!("cargo:rerun-if-changed={dir}/target/abi/libvb.a");
    println!("cargo:rustc-link-search=native={dir}/target/abi");
    println!("cargo:rustc-link-lib=static:+whole-archive,-bundle=vb");
}
