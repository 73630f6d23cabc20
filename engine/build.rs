// Links the pre-installed z3 5.x shared library (python wheel copy); falls back to the system libz3.
fn main() {
    let cand = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    println!("cargo:rerun-if-changed=build.rs");
    if std::path::Path::new(&format!("{cand}/libz3.so")).exists() {
        println!("cargo:rustc-link-search=native={cand}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{cand}");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
