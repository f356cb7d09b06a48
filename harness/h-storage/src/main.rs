mod db;
mod store;

use mc::Entry;
use protocol::tokio;

pub fn rt() -> &'static tokio::runtime::Runtime {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}

static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
thread_local! { static MINE: u64 = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }

/// An empty database of this thread's own.
pub fn fresh() -> std::path::PathBuf {
    let path = std::path::PathBuf::from(format!("/mc/storage/{}", MINE.with(|m| *m)));
    rocksdb::control::load(&path, Default::default());
    rocksdb::control::checkpoint(&path);
    rocksdb::control::fail_write(&path, None);
    rocksdb::control::fail_read(&path, None);
    path
}

fn main() {
    mc::main(&[
        Entry { id: "E01", level: "exploration", run: store::reads_part },
        Entry { id: "E02", level: "exploration", run: store::crashes },
        Entry { id: "E03", level: "exploration", run: db::run },
    ]);
}
