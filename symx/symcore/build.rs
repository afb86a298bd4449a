fn main() {
    let dir = std::env::var("VERIF_Z3_LIB").unwrap_or_else(|_| {
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib".to_string()
    });
    println!("cargo:rustc-link-search=native={dir}");
    println!("cargo:rustc-link-lib=dylib=z3");
}
