mod book;
mod dial;
mod discover;
mod gossip;
mod rpc;
mod sessions;
mod wire;
mod world;

use mc::Entry;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--book-child") {
        return book::child();
    }
    mc::main(&[
        Entry { id: "I01", level: "exploration", run: wire::run },
        Entry { id: "I02", level: "exploration", run: rpc::run },
        Entry { id: "I03", level: "exploration", run: gossip::run },
        Entry { id: "I04", level: "exploration", run: sessions::run },
        Entry { id: "I05", level: "exploration", run: book::run },
        Entry { id: "I06", level: "exploration", run: discover::run },
        Entry { id: "I07", level: "exploration", run: dial::run },
    ]);
}
