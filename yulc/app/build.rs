fn main() {
    println!("cargo:rustc-env=GIT_HASH=simulated");
    lalrpop::process_root().unwrap();
}
