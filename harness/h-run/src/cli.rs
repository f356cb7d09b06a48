//! K04: the command line.
use std::collections::BTreeMap;
use std::path::Path;
use std::process::{Command, Stdio};

use common_config_parser::types::spec::HardforkName;
use common_crypto::{BlsPrivateKey, PrivateKey, PublicKey, Secp256k1PrivateKey, ToBlsPublicKey, ToPublicKey};
use common_version::Version;
use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use node::{val, Disk};
use protocol::traits::{Context, ReadOnlyStorage};
use protocol::types::*;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

use crate::init::{block_of, path, spec};
use crate::start::extend;
use crate::world::*;

const CLI: &str = "MC_AXON_CLI";
const ROOT: &str = "MC_AXON_DIR";

/// Set for processes that are the node's command line: they run it, and end.
pub fn is_cli() -> bool {
    std::env::var_os(CLI).is_some()
}

fn say(v: Value) {
    println!("@{v}");
}

/// The command line, on a chain of the given height if there is one, with a consensus that says what it was started with.
pub fn cli() {
    let tip: Option<u64> = std::env::var(CLI).unwrap().parse().ok();
    let root = std::env::var_os(ROOT).map(|d| std::mem::ManuallyDrop::new(Dir(d.into())));
    if let (Some(tip), Some(dir)) = (tip, &root) {
        core_run::init(config(dir, 0, (false, false)), spec(&[val(0, 1, 1)], vec![HardforkName::None], &[(10, 1000.into())], 1, 4)).unwrap();
        std::fs::create_dir_all(path(dir)).unwrap();
        extend(&path(dir), block_of(dir), tip);
    }
    *jsonrpsee::server::STARTED.lock().unwrap() = Some(vec![]);
    *run_consensus::BUILT.lock().unwrap() = Some(Box::new(|| drop(tentacle::sim::take())));
    *run_consensus::PROBE.lock().unwrap() = Some(Box::new(|s| {
        Box::pin(async move {
            let version = ask(HTTP, "web3_clientVersion", "[]").await;
            let stops: Vec<u64> = (0..40)
                .filter(|h| {
                    if !s.stop.is_stopped() {
                        s.stop.check_height_and_send(*h);
                        return s.stop.is_stopped();
                    }
                    false
                })
                .collect();
            say(json!({ "height": s.height, "stops": stops.first(), "version": version }));
        })
    }));
    let r = core_cli::AxonCli::init(Version::new("1.2.3"), Version::new_with_commit_id("0.4.5", "abcdef0")).start();
    if let Some(dir) = &root {
        if tip.is_some() || path(dir).exists() {
            std::fs::create_dir_all(path(dir)).unwrap();
            let disk = Disk::open(path(dir));
            let proposal = node::rt().block_on(disk.storage.hardfork_proposal(Context::new())).unwrap();
            let latest = node::rt().block_on(disk.storage.get_latest_block(Context::new())).ok().map(|b| b.header.number);
            say(json!({ "proposal": proposal.map(|p| json!([p.block_number, format!("{:#x}", p.flags)])), "latest": latest }));
        }
    }
    if let Err(e) = r {
        eprintln!("Error {e}");
        std::process::exit(1);
    }
    std::process::exit(0);
}

struct Out {
    code: Option<i32>,
    text: String,
    err:  String,
    said: Vec<Value>,
}

fn axon(mode: &str, dir: &Path, args: &[&str]) -> Out {
    let o = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env(CLI, mode)
        .env(ROOT, dir)
        .current_dir(dir)
        .stdin(Stdio::null())
        .output()
        .unwrap();
    let all = String::from_utf8_lossy(&o.stdout).into_owned();
    let (said, text): (Vec<&str>, Vec<&str>) = all.lines().partition(|l| l.starts_with('@'));
    Out {
        code: o.status.code(),
        text: text.join("\n"),
        err:  String::from_utf8_lossy(&o.stderr).into_owned(),
        said: said.iter().map(|l| serde_json::from_str(&l[1..]).unwrap()).collect(),
    }
}

fn ends(o: &Out, ok: bool, what: &str) -> Result<(), Fail> {
    ensure!(o.code == Some(if ok { 0 } else { 1 }), "{} ends wrongly: code {:?}, {} {}", what, o.code, o.text, o.err);
    ensure!(ok || o.err.starts_with("Error "), "{} fails without a reason: {:?}", what, o.err);
    Ok(())
}

fn files(d: &Path) -> BTreeMap<String, Vec<u8>> {
    std::fs::read_dir(d)
        .unwrap()
        .filter_map(|e| {
            let e = e.unwrap();
            e.path().is_file().then(|| (e.file_name().into_string().unwrap(), std::fs::read(e.path()).unwrap()))
        })
        .collect()
}

/// What is to be printed about a pair of secrets.
fn expected(i: usize, net: &[u8], bls: &[u8]) -> Value {
    let public = Secp256k1PrivateKey::try_from(net).unwrap().pub_key().to_uncompressed();
    let mut short = vec![2 + (public[64] & 1)];
    short.extend_from_slice(&public[1..33]);
    let mut id = vec![0x12, 32];
    id.extend_from_slice(&Sha256::digest(&short));
    let b = BlsPrivateKey::try_from(bls).unwrap().pub_key(&String::new()).to_bytes();
    let hex = |b: &[u8]| format!("0x{}", rf::hex(b));
    json!({
        "index": i,
        "net_private_key": hex(net),
        "public_key": hex(&short),
        "address": rf::eip55(&rf::keccak256(&public[1..])[12..].try_into().unwrap()),
        "peer_id": bs58::encode(id).into_string(),
        "bls_private_key": hex(bls),
        "bls_public_key": hex(&b),
    })
}

trait Uncompressed {
    fn to_uncompressed(&self) -> Vec<u8>;
}

impl Uncompressed for common_crypto::Secp256k1PublicKey {
    fn to_uncompressed(&self) -> Vec<u8> {
        use common_crypto::UncompressedPublicKey;
        self.to_uncompressed_bytes().to_vec()
    }
}

fn makes(c: &mut Chooser) -> Result<(), Fail> {
    let n = c.choose(5);
    let given = c.flip();
    let there = *c.pick(&["nothing", "keys", "no directory", "a file"]);
    let long = c.flip();
    c.note(|| format!("{n} pairs (0: not said), place said: {given}, in it: {there}, long names of arguments: {long}"));
    let dir = Dir::new();
    let place = dir.0.join(if given { "mine" } else { "free-space" });
    match there {
        "no directory" => {}
        "a file" => std::fs::write(&place, "x").unwrap(),
        _ => std::fs::create_dir(&place).unwrap(),
    }
    if there == "keys" {
        std::fs::write(place.join("net_0.key"), [7u8; 80]).unwrap();
        std::fs::write(place.join("other"), "o").unwrap();
    }
    let mut args = vec!["generate-keypair".to_owned()];
    let want = if n == 0 { 1 } else { [1, 0, 2, 11][n - 1] };
    if n > 0 {
        args.extend([if long { "--number" } else { "-n" }.to_owned(), want.to_string()]);
    }
    if given {
        args.extend([if long { "--path" } else { "-p" }.to_owned(), place.to_str().unwrap().to_owned()]);
    }
    c.transition();
    let o = axon("no", &dir.0, &args.iter().map(String::as_str).collect::<Vec<_>>());
    let fails = want > 0 && (there == "no directory" || there == "a file");
    ends(&o, !fails, "making keys")?;
    if fails {
        ensure!(!o.text.contains("private"), "keys that are not kept are shown: {}", o.text);
        return Ok(());
    }
    c.nontrivial();
    let v: Value = serde_json::from_str(&o.text).map_err(|e| Fail::new("what is printed is not JSON", format!("{e}: {}", o.text)))?;
    let pairs = v["keypairs"].as_array().cloned().unwrap_or_default();
    ensure_eq!(pairs.len(), want, "the number of pairs");
    if want == 0 {
        return Ok(());
    }
    let mut kept = files(&place);
    if there == "keys" {
        ensure!(kept.remove("other").as_deref() == Some(b"o"), "another file is changed");
    }
    ensure_eq!(kept.len(), 2 * want, "the number of files");
    let mut seen = std::collections::BTreeSet::new();
    for (i, p) in pairs.iter().enumerate() {
        let (net, bls) = (&kept[&format!("net_{i}.key")], &kept[&format!("bls_{i}.key")]);
        ensure!(net.len() == 32 && bls.len() == 32, "a key has another length: {} and {}", net.len(), bls.len());
        ensure!(seen.insert(net.clone()) && seen.insert(bls.clone()), "a key is made twice");
        let e = expected(i, net, bls);
        ensure!(*p == e, "what is printed does not belong to the keys kept: {} and {}", p, e);
    }
    let last = want - 1;
    let (net, bls) = (place.join(format!("net_{last}.key")), place.join(format!("bls_{last}.key")));
    c.transition();
    let o = axon("no", &dir.0, &["recover-keypair", if long { "--net_path" } else { "-n" }, net.to_str().unwrap(), if long { "--bls_path" } else { "-b" }, bls.to_str().unwrap()]);
    ends(&o, true, "recovering keys")?;
    let v: Value = serde_json::from_str(&o.text).map_err(|e| Fail::new("what is printed is not JSON", format!("{e}: {}", o.text)))?;
    let mut same = pairs[last].clone();
    same["index"] = json!(0);
    ensure!(v == same, "the keys recovered are others: {} and {}", v, same);
    Ok(())
}

fn order(sub: u8) -> Vec<u8> {
    let mut n = vec![0xff; 15];
    n.push(0xfe);
    n.extend([0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41]);
    n[31] -= sub;
    n
}

fn recovers(c: &mut Chooser) -> Result<(), Fail> {
    let mut one = vec![0; 32];
    one[31] = 1;
    let mut small = vec![0; 32];
    small[20] = 9;
    let nets = [(kit::secret(0).to_vec(), true), (one.clone(), true), (small.clone(), true), (order(1), true), (order(0), false), (vec![0; 32], false), (vec![0xff; 32], false), (vec![1; 31], false), (vec![1; 33], false), (vec![], false)];
    let mut big = vec![0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd, 0xa4, 0x02, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0];
    let over = { let mut v = big.clone(); v[31] = 1; v };
    big[24..28].copy_from_slice(&[0xff, 0xff, 0xff, 0xfe]);
    let blss = [(node::bls_secret(3).to_vec(), true), (one, true), (small, true), (big, true), (over, false), (vec![0; 32], false), (vec![0xff; 32], false), (vec![1; 31], false), (vec![1; 33], false), (vec![], false)];
    let (net, net_ok) = c.pick(&nets).clone();
    let (bls, bls_ok) = c.pick(&blss).clone();
    let missing = c.choose(3);
    c.note(|| format!("{} and {}, missing {missing}", mc::hex(&net), mc::hex(&bls)));
    let dir = Dir::new();
    let (n, b) = (dir.0.join("n"), dir.0.join("b"));
    if missing != 1 {
        std::fs::write(&n, &net).unwrap();
    }
    if missing != 2 {
        std::fs::write(&b, &bls).unwrap();
    }
    let was = files(&dir.0);
    c.transition();
    let o = axon("no", &dir.0, &["recover-keypair", "-n", n.to_str().unwrap(), "-b", b.to_str().unwrap()]);
    let good = missing == 0 && net_ok && bls_ok;
    ends(&o, good, "recovering keys")?;
    ensure!(files(&dir.0) == was, "recovering changes files");
    if good {
        c.nontrivial();
        let v: Value = serde_json::from_str(&o.text).map_err(|e| Fail::new("what is printed is not JSON", format!("{e}: {}", o.text)))?;
        let e = expected(0, &net, &bls);
        ensure!(v == e, "other keys are recovered: {} and {}", v, e);
    }
    Ok(())
}

fn config_file(dir: &Dir) -> String {
    std::fs::write(dir.0.join("net.key"), kit::secret(0)).unwrap();
    std::fs::write(dir.0.join("bls.key"), node::bls_secret(0)).unwrap();
    let text = format!(
        r#"
net_privkey_file = "net.key"
bls_privkey_file = "bls.key"
data_path = "{}"
[rpc]
http_listening_address = "{HTTP}"
maxconn = 1
max_payload_size = 1
[web3]
[synchronization]
[mempool]
timeout_gap = 20
pool_size = 100
[executor]
triedb_cache_size = 100
[network]
listening_address = "/ip4/127.0.0.1/tcp/0"
[logger]
filter = "info"
log_to_console = false
console_show_file_and_line = false
file_size_limit = 1000000
log_to_file = false
metrics = false
log_path = "{}"
"#,
        dir.0.display(),
        dir.0.join("logs").display()
    );
    let f = dir.0.join("config.toml");
    std::fs::write(&f, text).unwrap();
    f.to_str().unwrap().to_owned()
}

/// What the directory says about the version that wrote it, if a command may go on.
fn gate(dir: &Dir, old: Option<&str>) -> bool {
    if let Some(v) = old {
        std::fs::write(dir.0.join("axon.ver"), v).unwrap();
    }
    old != Some("0.0.9")
}

fn commands(c: &mut Chooser) -> Result<(), Fail> {
    let dir = Dir::new();
    let file = config_file(&dir);
    let short = c.flip();
    let cfg = if short { "-c" } else { "--config" };
    let tip = *c.pick(&[0u64, 2]);
    match c.choose(3) {
        0 => {
            let old = *c.pick(&[None, Some("0.4.5"), Some("0.0.9"), Some("0.1.0")]);
            let stop = c.choose(7);
            let mode = if c.flip() { tip.to_string() } else { "no".into() };
            c.note(|| format!("run on a chain of height {mode}, version {old:?}, stop {stop}"));
            let stops: (&[&str], Option<u64>) = [
                (&[][..], None),
                (&["--mine-blocks", "1"], Some(tip + 1)),
                (&["--mine-blocks", "7"], Some(tip + 7)),
                (&["--mine-to-height", "9"], Some(9)),
                (&["--mine-to-height", "30"], Some(30)),
                (&["--mine-blocks=3"], Some(tip + 3)),
                (&["--mine-to-height=3"], Some(3)),
            ][stop];
            let open = gate(&dir, old);
            let mut args = vec!["run", cfg, &file];
            args.extend(stops.0);
            c.transition();
            let o = axon(&mode, &dir.0, &args);
            let there = mode != "no";
            ends(&o, open && there, "running")?;
            let started: Vec<_> = o.said.iter().filter(|v| v.get("height").is_some()).collect();
            ensure!(started.len() == usize::from(open && there), "the consensus is started {} times", started.len());
            if open {
                ensure_eq!(std::fs::read_to_string(dir.0.join("axon.ver")).unwrap(), "0.4.5+abcdef0", "the version left");
            } else {
                ensure_eq!(std::fs::read_to_string(dir.0.join("axon.ver")).unwrap(), old.unwrap(), "the version left");
            }
            if let [v] = started[..] {
                c.nontrivial();
                ensure!(v["height"] == json!(tip), "the height is another: {}", v);
                ensure!(v["stops"] == json!(stops.1), "it stops at another height: {}, told {:?} at {}", v, stops.0, tip);
                ensure!(v["version"].as_str().unwrap_or("").contains("1.2.3"), "another version is told: {}", v);
            }
        }
        1 => {
            let old = *c.pick(&[None, Some("0.4.5"), Some("0.0.9"), Some("0.1.0")]);
            c.note(|| format!("init, version {old:?}"));
            let open = gate(&dir, old);
            let specs = dir.0.join("spec.toml");
            let v = node::validator(&val(0, 1, 1));
            std::fs::write(&specs, SPEC.replace("BLS", &v.bls_pub_key.as_string()).replace("PUB", &v.pub_key.as_string())).unwrap();
            c.transition();
            let o = axon("no", &dir.0, &["init", cfg, &file, if short { "-s" } else { "--chain-spec" }, specs.to_str().unwrap()]);
            ends(&o, open, "beginning a chain")?;
            if open {
                c.nontrivial();
                ensure!(o.said.len() == 1 && o.said[0]["latest"] == json!(0), "no chain is begun: {:?}", o.said);
                ensure_eq!(std::fs::read_to_string(dir.0.join("axon.ver")).unwrap(), "0.4.5+abcdef0", "the version left");
            } else {
                ensure!(!o.said.iter().any(|s| s["latest"] == json!(0)), "a chain is begun in a directory of another version");
            }
        }
        _ => {
            let asked = c.choose(4);
            c.note(|| format!("hardfork on a chain of height {tip}, asked {asked}"));
            let extra: (&[&str], Option<Value>) = [
                (&[][..], None),
                (&["--hardfork-start-number", "9", "--feature", "andromeda"], Some(json!([9, flags(1)]))),
                (&["--hardfork-start-number", "20", "--feature", "andromeda", "--feature", "none"], Some(json!([20, flags(1)]))),
                (&["--hardfork-start-number", "0", "--feature", "andromeda"], None),
            ][asked]
                .clone();
            let mut args = vec!["hardfork", cfg, &file];
            args.extend(extra.0);
            c.transition();
            let o = axon(&tip.to_string(), &dir.0, &args);
            ends(&o, asked != 3, "announcing a hardfork")?;
            c.nontrivial();
            ensure!(o.said.len() == 1 && o.said[0]["proposal"] == extra.1.clone().unwrap_or(Value::Null), "another hardfork is announced: {:?}, asked {:?}", o.said, extra);
        }
    }
    Ok(())
}

fn flags(n: u64) -> String {
    format!("{:#x}", H256::from_low_u64_be(n.to_be()))
}

const SPEC: &str = r#"
[genesis]
timestamp = 0x1
base_fee_per_gas = "0x539"
chain_id = 0x41786f6e
hardforks = []
[params]
epoch = 0x0
[params.version]
start = 0x1
end = 0x3b9aca00
[params.consensus_config]
gas_limit = 0x3e7fffffc18
interval = 0xbb8
propose_ratio = 0xf
prevote_ratio = 0xa
precommit_ratio = 0xa
brake_ratio = 0xa
tx_num_limit = 0x4e20
max_tx_size = 0x186a0000
max_contract_limit = 0x8000
[[params.verifier_list]]
bls_pub_key = "BLS"
pub_key = "PUB"
propose_weight = 0x1
vote_weight = 0x1
[[accounts]]
address = "0xf39Fd6e51aad88F6F4ce6aB8827279cffFb92266"
balance = "10"
"#;

pub fn run(check: &Check) {
    check
        .part("keys", "pairs are made", "0, 1 (said or not), 2 or 11 pairs; said where or not; an empty place, one with keys and another file, none, or a file; both names of each argument; the last pair is recovered")
        .explore(makes);
    check
        .part("recovery", "both keys are good", "ten network keys and ten keys of the consensus: usual, smallest, with leading zeros, largest, one more, zero, all ones, and three other lengths; either file missing")
        .explore(recovers);
    check
        .part(
            "commands",
            "the command goes through",
            "run, init and hardfork, on chains of height 0 and 2 or none; four versions of the directory; seven ways to say when to stop; four hardforks",
        )
        .explore(commands);
    check.assume("handshakes with a peer id are not made: it is the multihash of the public key");
}
