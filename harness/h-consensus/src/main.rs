mod engine;
mod proofs;
mod sim;
mod sync;
mod wals;

use mc::Entry;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--wal-child") {
        return wals::child();
    }
    mc::main(&[Entry { id: "H01", level: "exploration", run: proofs::run }, Entry { id: "H02", level: "exploration", run: sync::run }, Entry { id: "H03", level: "exploration", run: engine::run }, Entry { id: "H04", level: "exploration", run: wals::run }]);
}
