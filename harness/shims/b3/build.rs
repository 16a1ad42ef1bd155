// As the library's own build script, without `mem_unaligned`.
#[path = "/repo/libm/configure.rs"]
mod configure;

use configure::{Config, Library};

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=/repo/libm/configure.rs");
    let cfg = Config::from_env(Library::CompilerBuiltins);
    configure::emit(&cfg);
}
