//! The command line tool, where it can be built into the simulator (feature `cli`): its sub-commands are
//! included from the tree under test and called as its `main` calls them.

/// Runs `jbk <sub-command> <args>`; None when the tool is not part of this build or refuses these arguments
/// before doing anything.
#[cfg(feature = "cli")]
pub fn locate(args: &[&str]) -> Option<Result<(), String>> {
    use clap::Parser;
    let o = locate::Options::try_parse_from(args_of("locate", args)).ok()?;
    Some(locate::run(o).map_err(|e| format!("{e}")))
}
#[cfg(feature = "cli")]
pub fn concat(args: &[&str]) -> Option<Result<(), String>> {
    use clap::Parser;
    let o = concat::Options::try_parse_from(args_of("concat", args)).ok()?;
    Some(concat::run(o).map_err(|e| format!("{e}")))
}
#[cfg(feature = "cli")]
fn args_of<'a>(sub: &'a str, args: &[&'a str]) -> Vec<&'a str> {
    std::iter::once(sub).chain(args.iter().copied()).collect()
}
#[cfg(feature = "cli")]
#[allow(unused)]
mod locate {
    include!(concat!(env!("JBK_CLI"), "/locate.rs"));
}
#[cfg(feature = "cli")]
#[allow(unused)]
mod concat {
    include!(concat!(env!("JBK_CLI"), "/concat.rs"));
}

#[cfg(not(feature = "cli"))]
pub fn locate(_: &[&str]) -> Option<Result<(), String>> {
    None
}
#[cfg(not(feature = "cli"))]
pub fn concat(_: &[&str]) -> Option<Result<(), String>> {
    None
}
