fn main() {
    println!("cargo:rerun-if-env-changed=SIMOS_O");
    println!("cargo:rustc-link-arg={}", std::env::var("SIMOS_O").expect("SIMOS_O"));
    println!("cargo:rustc-link-arg=-ldl");
}
