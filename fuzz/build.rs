// links the libFuzzer runtime installed with clang
fn main() {
    let lib = std::process::Command::new("clang").arg("--print-file-name=libclang_rt.fuzzer-x86_64.a").output().expect("clang").stdout;
    println!("cargo:rustc-link-arg={}", String::from_utf8(lib).unwrap().trim());
    println!("cargo:rustc-link-arg=-lstdc++");
    println!("cargo:rustc-link-arg=-lm");
}
