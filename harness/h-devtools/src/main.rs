mod cbmt;
mod codec;
mod proof;
mod rpc;
mod vm;

use mc::Entry;

fn main() {
    mc::main(&[
        Entry { id: "C01", level: "exploration", run: proof::light_client },
        Entry { id: "C02", level: "exploration", run: proof::storage_proofs },
        Entry { id: "C03", level: "exploration", run: codec::codec },
        Entry { id: "C04", level: "exploration", run: cbmt::ckb_proofs },
        Entry { id: "D01", level: "exploration", run: vm::programs },
        Entry { id: "D02", level: "exploration", run: rpc::client },
    ]);
}
