use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap();
    let o = Command::new(&rustc).args(["--print", "sysroot"]).output().unwrap();
    let sysroot = String::from_utf8(o.stdout).unwrap().trim().to_string();
    println!("cargo:rustc-env=DUNE_SYSROOT={sysroot}");
    println!("cargo:rustc-env=DUNE_REAL_RUSTC={sysroot}/bin/rustc");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{sysroot}/lib");
}
