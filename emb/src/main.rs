#![allow(dead_code)]
mod cli;
mod compress;
#[path = "../../mc/src/dictkit.rs"]
mod dictkit;
mod filterconf;
#[path = "../../mc/src/fw.rs"]
mod fw;
mod io;
mod kinds;
#[path = "../../mc/src/rich.rs"]
mod rich;
mod sources;
#[path = "../../mc/src/worlds.rs"]
mod worlds;
use fw::Run;

pub use rich::near_names;

fn dispatch(run: &mut Run) -> bool {
    match run.prop.as_str() {
        "C23" => compress::c23(run),
        "C24" => cli::c24(run),
        "C25" => kinds::c25(run),
        "C26" => io::c26(run),
        _ => return false,
    }
    true
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("dump") {
        std::process::exit(compress::dump(&std::env::args().nth(2).unwrap()));
    }
    fw::main_with(dispatch);
}
