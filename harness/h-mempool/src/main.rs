mod admission;
mod fetch;
mod node;
mod pool;
mod races;

use mc::Entry;

fn main() {
    mc::main(&[Entry { id: "G01", level: "exploration", run: pool::sequences }, Entry { id: "G02", level: "exploration", run: races::run }, Entry { id: "G03", level: "exploration", run: fetch::run }, Entry { id: "G04", level: "exploration", run: admission::run }]);
}
