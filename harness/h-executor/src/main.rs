mod chain;
mod fees;
mod govern;
mod mirror;
mod nodes;
mod precompiles;
mod world;

use mc::Entry;

fn main() {
    mc::main(&[
        Entry { id: "F01", level: "exploration", run: chain::accounts },
        Entry { id: "F02", level: "exploration", run: chain::charges },
        Entry { id: "F03", level: "exploration", run: chain::determinism },
        Entry { id: "F04", level: "exploration", run: chain::queries },
        Entry { id: "F05", level: "exploration", run: fees::run },
        Entry { id: "F06", level: "exploration", run: precompiles::run },
        Entry { id: "F07", level: "exploration", run: govern::govern },
        Entry { id: "F08", level: "exploration", run: mirror::run },
        Entry { id: "F09", level: "exploration", run: govern::hardfork },
        Entry { id: "F10", level: "exploration", run: nodes::run },
    ]);
}
