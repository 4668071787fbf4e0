fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    // std looks getrandom up dynamically; make the simulator's definition visible.
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
    // the simulator defines the BLAS/LAPACK entry points the code uses and
    // forwards to the real library, which must therefore stay loaded
    println!("cargo:rustc-link-arg-bins=-Wl,--push-state,--no-as-needed,-lopenblas,--pop-state");
}
