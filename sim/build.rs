fn main() {
    println!("cargo:rerun-if-changed=rt/simrt.c");
    cc::Build::new().file("rt/simrt.c").opt_level(2).flag("-fno-builtin").flag("-Wall").compile("simrt");
    // where the sources of the command line tool are: beside the library this package depends on
    let me = std::fs::read_to_string("Cargo.toml").unwrap();
    let dep = me.lines().find(|l| l.starts_with("jubako")).unwrap().split('"').nth(1).unwrap().to_string();
    println!("cargo:rustc-env=JBK_CLI={dep}/src/bin/jbk");
}
