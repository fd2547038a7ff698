#![allow(clippy::all)]
mod cal;
mod case;
#[cfg(feature = "client")]
mod client;
mod gen;
mod genetics;
mod indicators;
mod net;
mod persist;
mod race;
mod rules;
mod server;
mod stats;
mod strat;
mod text;
mod trades;
mod world;

fn main() {
    case::install_panic_hook();
    let id = std::env::args().nth(1).expect("usage: verif <property id> [--case <seed>]");
    match id.as_str() {
        "C01" => trades::c01(),
        "C02" => trades::c02(),
        "C03" => trades::c03(),
        "C04" => trades::c04(),
        "C05" => trades::c05(),
        "C06" => trades::c06(),
        "C07" => trades::c07(),
        "C08" => genetics::c08(),
        "C09" => genetics::c09(),
        "child-race" => race::child(),
        "child-c09" => genetics::c09_child(),
        "C10" => genetics::c10(),
        "C11" => genetics::c11(),
        "C12" => genetics::c12(),
        "C13" => genetics::c13(),
        "C14" => stats::c14(),
        "C15" => stats::c15(),
        "C16" => stats::c16(),
        "C17" => stats::c17(),
        "C18" => indicators::c18(),
        "C19" => indicators::c19(),
        "C20" => strat::c20(),
        "C21" => strat::c21(),
        "C22" => strat::c22(),
        "C23" => text::c23(),
        "C24" => text::c24(),
        "C25" => text::c25(),
        "C26" => text::c26(),
        "C27" => persist::c27(),
        "C28" => text::c28(),
        "C29" => text::c29(),
        "R01" => race::r01(),
        "S01" => server::s01(),
        "S02" => server::s02(),
        "S03" => server::s03(),
        "S04" => server::s04(),
        "S05" => server::s05(),
        #[cfg(feature = "client")]
        "S06" => client::s06(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}
