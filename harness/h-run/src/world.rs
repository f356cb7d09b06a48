//! A data directory, and a run of the whole node on it up to the moment its consensus starts.
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use common_config_parser::types::Config;
use core_network::SecioKeyPair;
use protocol::ProtocolResult;
use run_consensus::{stop_signal::StopOpt, Started};

pub struct Dir(pub PathBuf);

static NEXT: AtomicU64 = AtomicU64::new(0);

impl Dir {
    pub fn new() -> Dir {
        let base = std::path::Path::new("/dev/shm");
        let base = if base.is_dir() { base.to_owned() } else { std::env::temp_dir() };
        let d = base.join(format!("axon-run-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        rocksdb::control::load(&self.0.join("rocksdb"), Default::default());
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const BASE: &str = r#"
net_privkey_file = "x"
bls_privkey_file = "y"
data_path = "DATA"
[rpc]
RPC
maxconn = 1
max_payload_size = 1
[web3]
[synchronization]
[mempool]
timeout_gap = 20
pool_size = 100
[executor]
triedb_cache_size = 100
[network]
listening_address = "/ip4/127.0.0.1/tcp/0"
"#;

pub const HTTP: &str = "127.0.0.1:8000";
pub const WS: &str = "127.0.0.1:8010";

pub fn config(dir: &Dir, key: u8, rpc: (bool, bool)) -> Config {
    let mut lines = String::new();
    if rpc.0 {
        lines += &format!("http_listening_address = \"{HTTP}\"\n");
    }
    if rpc.1 {
        lines += &format!("ws_listening_address = \"{WS}\"\n");
    }
    let text = BASE.replace("DATA", dir.0.to_str().unwrap()).replace("RPC", &lines);
    let mut c: Config = common_config_parser::parse_reader(&mut text.as_bytes()).unwrap();
    c.net_privkey = kit::secret(key).into();
    c.bls_privkey = node::bls_secret(key).into();
    c
}

/// Runs the node until its consensus has started; `f` sees what the consensus was started with.
pub fn run_node<T: Send + 'static, F>(c: Config, stop: Option<StopOpt>, f: impl FnOnce(Started, Option<tentacle::sim::Node>) -> F + Send + 'static) -> (ProtocolResult<()>, Option<T>)
where
    F: std::future::Future<Output = T> + Send + 'static,
{
    let net: Arc<Mutex<Option<tentacle::sim::Node>>> = Default::default();
    let out: Arc<Mutex<Option<T>>> = Default::default();
    *jsonrpsee::server::STARTED.lock().unwrap() = Some(vec![]);
    let n = Arc::clone(&net);
    *run_consensus::BUILT.lock().unwrap() = Some(Box::new(move || *n.lock().unwrap() = Some(tentacle::sim::take())));
    let (n, o) = (net, Arc::clone(&out));
    *run_consensus::PROBE.lock().unwrap() = Some(Box::new(move |s| {
        Box::pin(async move {
            let node = n.lock().unwrap().take();
            let v = f(s, node).await;
            *o.lock().unwrap() = Some(v);
        })
    }));
    let hook = std::panic::take_hook();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| core_run::run::<SecioKeyPair>("0.4.0".into(), c, None, stop)));
    let _ = std::panic::take_hook();
    std::panic::set_hook(hook);
    *run_consensus::BUILT.lock().unwrap() = None;
    *run_consensus::PROBE.lock().unwrap() = None;
    let v = out.lock().unwrap().take();
    match r {
        Ok(r) => (r, v),
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// One answer of the node's RPC service.
pub async fn ask(addr: &str, method: &str, params: &str) -> String {
    let list = jsonrpsee::server::STARTED.lock().unwrap().clone().unwrap_or_default();
    for (a, h) in list {
        if a.to_string() == addr {
            return match h.call(method, params).await {
                Ok(s) => s,
                Err(e) => format!("error: {}", e.message()),
            };
        }
    }
    "no server".into()
}
