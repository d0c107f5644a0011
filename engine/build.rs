use std::process::Command;
fn main() {
    let out = Command::new(std::env::var("RUSTC").unwrap()).args(["--print", "sysroot"]).output().unwrap();
    let lib = format!("{}/lib", String::from_utf8(out.stdout).unwrap().trim());
    let so = std::fs::read_dir(&lib)
        .unwrap()
        .filter_map(|e| e.ok())
        .map(|e| e.file_name().into_string().unwrap())
        .find(|n| n.starts_with("libLLVM.so"))
        .expect("libLLVM of the Rust toolchain");
    println!("cargo:rustc-link-arg={lib}/{so}");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{lib}");
    println!("cargo:rustc-link-arg=/usr/lib/x86_64-linux-gnu/libz3.so");
    println!("cargo:rerun-if-changed=build.rs");
}
