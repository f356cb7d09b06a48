mod ask;
mod logs;
mod queries;
mod shapes;
mod state;
mod world;

use mc::Entry;

fn main() {
    mc::main(&[
        Entry { id: "J01", level: "exploration", run: queries::run },
        Entry { id: "J02", level: "exploration", run: logs::run },
        Entry { id: "J03", level: "exploration", run: state::run },
        Entry { id: "J04", level: "exploration", run: ask::run },
        Entry { id: "J05", level: "exploration", run: shapes::run },
    ]);
}
