mod cli;
mod hardfork;
mod init;
mod start;
mod world;

fn main() {
    if cli::is_cli() {
        return cli::cli();
    }
    mc::main(&[
        mc::Entry { id: "K01", level: "exploration", run: init::run },
        mc::Entry { id: "K02", level: "exploration", run: start::run },
        mc::Entry { id: "K03", level: "exploration", run: hardfork::run },
        mc::Entry { id: "K04", level: "exploration", run: cli::run },
    ]);
}
