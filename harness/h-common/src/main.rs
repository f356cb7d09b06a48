mod config;
mod datadir;
mod logging;
mod merkle;
mod traced;

use mc::Entry;

// The real sources of core/cli's version gate, which refer to these names.
#[path = "../../../core/cli/src/error.rs"]
pub mod error;
#[path = "../../../core/cli/src/utils.rs"]
mod utils;
pub use error::{CheckingVersionError, Error, Result};

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("--log-child") => return logging::child(),
        Some("--gate-child") => return datadir::child(),
        _ => {}
    }
    mc::main(&[
        Entry { id: "B01", level: "exploration", run: merkle::roots },
        Entry { id: "B02", level: "exploration", run: config::configuration },
        Entry { id: "B03", level: "exploration", run: logging::logging },
        Entry { id: "B04", level: "exploration", run: traced::transparency },
        Entry { id: "B05", level: "exploration", run: datadir::gate },
    ]);
}
