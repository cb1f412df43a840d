//! The command-line shell, as its own binary runs it (P27).
fn main() { std::process::exit(mentat_cli::run()) }
