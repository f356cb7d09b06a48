mod codec;
mod gen;
mod sem;

use mc::Entry;

fn main() {
    mc::main(&[
        Entry { id: "A01", level: "exploration", run: codec::storage_codec },
        Entry { id: "A02", level: "exploration", run: codec::untrusted_bytes },
        Entry { id: "A03", level: "exploration", run: codec::tx_codec },
        Entry { id: "A04", level: "exploration", run: sem::authentication },
        Entry { id: "A05", level: "exploration", run: sem::hash_binding },
        Entry { id: "A06", level: "exploration", run: sem::assembly },
        Entry { id: "A07", level: "exploration", run: sem::texts },
        Entry { id: "A08", level: "exploration", run: sem::transaction_views },
        Entry { id: "A09", level: "exploration", run: sem::hardforks },
    ]);
}
