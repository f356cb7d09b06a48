//! B02: what the operator writes in the configuration, the chain specification and key files is what the node uses.

use std::ffi::OsStr;
use std::path::{Path, PathBuf};

use clap::builder::TypedValueParser;
use clap::Parser;
use common_config_parser::types::spec::{ChainSpec, ChainSpecValueParser, HardforkInput, HardforkName, PrivateKey};
use common_config_parser::types::{Config, ConfigValueParser, JsonValueParser};
use common_config_parser::{parse_json, parse_reader};
use mc::{ensure, ensure_eq, Check, Outcome};
use protocol::types::{HardforkInfoInner, Header, Metadata, H256, RLP_EMPTY_LIST, RLP_NULL};

struct Field {
    section: &'static str,
    key: &'static str,
    /// TOML literals with the value they mean; the first is the default of the exploration.
    values: &'static [(&'static str, &'static str)],
    /// What the value is when the key is left out; `None` when it must be there.
    absent: Option<&'static str>,
    /// Literals that must be refused.
    bad: &'static [&'static str],
    get: fn(&Config) -> String,
}

macro_rules! d {
    ($e:expr) => {
        format!("{:?}", $e)
    };
}

fn ma(o: &str) -> String {
    o.to_string()
}

fn fields() -> Vec<Field> {
    const INT: &[(&str, &str)] = &[("7", "7"), ("0", "0"), ("10_485_760", "10485760")];
    const BIG: &[(&str, &str)] = &[("7", "7"), ("0", "0"), ("5_000_000_000", "5000000000"), ("9223372036854775807", "9223372036854775807")];
    const NOT_INT: &[&str] = &["\"7\"", "-1", "1.5", "true"];
    const OPT: &[(&str, &str)] = &[("7", "Some(7)"), ("0", "Some(0)"), ("4_000", "Some(4000)")];
    const BOOL: &[(&str, &str)] = &[("true", "true"), ("false", "false")];
    const NOT_BOOL: &[&str] = &["1", "\"true\""];
    const ADDR: &[(&str, &str)] = &[("\"127.0.0.1:8000\"", "Some(127.0.0.1:8000)"), ("\"[::1]:1\"", "Some([::1]:1)")];
    const NOT_ADDR: &[&str] = &["\"127.0.0.1\"", "8000", "\"localhost:1\""];
    vec![
        Field { section: "", key: "data_path", values: &[("\"./d\"", "\"./d\""), ("\"/x/y\"", "\"/x/y\"")], absent: None, bad: &["1"], get: |c| d!(c.data_path) },
        Field { section: "", key: "ibc_contract_address", values: &[("\"0x00000000000000000000000000000000000000ff\"", "0x00000000000000000000000000000000000000ff")], absent: Some("0x0000000000000000000000000000000000000000"), bad: &["\"0xff\"", "5"], get: |c| d!(c.ibc_contract_address) },
        Field { section: "rpc", key: "http_listening_address", values: ADDR, absent: Some("None"), bad: NOT_ADDR, get: |c| d!(c.rpc.http_listening_address) },
        Field { section: "rpc", key: "ws_listening_address", values: &[("\"0.0.0.0:8010\"", "Some(0.0.0.0:8010)")], absent: Some("None"), bad: NOT_ADDR, get: |c| d!(c.rpc.ws_listening_address) },
        Field { section: "rpc", key: "maxconn", values: INT, absent: None, bad: &["\"7\"", "-1", "4294967296"], get: |c| d!(c.rpc.maxconn) },
        Field { section: "rpc", key: "max_payload_size", values: &[("9", "9"), ("4294967295", "4294967295")], absent: None, bad: &["\"7\"", "-1", "4294967296"], get: |c| d!(c.rpc.max_payload_size) },
        Field { section: "rpc", key: "enable_dump_profile", values: &[("true", "Some(true)"), ("false", "Some(false)")], absent: Some("None"), bad: NOT_BOOL, get: |c| d!(c.rpc.enable_dump_profile) },
        Field { section: "web3", key: "log_filter_max_block_range", values: BIG, absent: Some("10000"), bad: NOT_INT, get: |c| d!(c.web3.log_filter_max_block_range) },
        Field { section: "web3", key: "max_gas_cap", values: &[("50_000_000", "50000000"), ("0", "0")], absent: Some("25000000"), bad: NOT_INT, get: |c| d!(c.web3.max_gas_cap) },
        Field { section: "network", key: "listening_address", values: &[("\"/ip4/0.0.0.0/tcp/8001\"", "/ip4/0.0.0.0/tcp/8001"), ("\"/dns4/a.b/tcp/1\"", "/dns4/a.b/tcp/1")], absent: None, bad: &["\"0.0.0.0:8001\"", "8001"], get: |c| ma(&c.network.listening_address.to_string()) },
        Field { section: "network", key: "rpc_timeout", values: OPT, absent: Some("None"), bad: NOT_INT, get: |c| d!(c.network.rpc_timeout) },
        Field { section: "network", key: "send_buffer_size", values: &[("11", "Some(11)"), ("5_000_000_000", "Some(5000000000)")], absent: Some("None"), bad: NOT_INT, get: |c| d!(c.network.send_buffer_size) },
        Field { section: "network", key: "recv_buffer_size", values: &[("12", "Some(12)"), ("5_000_000_000", "Some(5000000000)")], absent: Some("None"), bad: NOT_INT, get: |c| d!(c.network.recv_buffer_size) },
        Field { section: "network", key: "max_frame_length", values: &[("13", "Some(13)"), ("5_000_000_000", "Some(5000000000)")], absent: Some("None"), bad: NOT_INT, get: |c| d!(c.network.max_frame_length) },
        Field { section: "network", key: "ping_interval", values: &[("14", "Some(14)"), ("5_000_000_000", "Some(5000000000)")], absent: Some("None"), bad: NOT_INT, get: |c| d!(c.network.ping_interval) },
        Field { section: "network", key: "max_connected_peers", values: &[("15", "Some(15)"), ("5_000_000_000", "Some(5000000000)")], absent: Some("None"), bad: NOT_INT, get: |c| d!(c.network.max_connected_peers) },
        Field { section: "network", key: "inbound_conn_limit", values: &[("16", "Some(16)"), ("5_000_000_000", "Some(5000000000)")], absent: Some("None"), bad: NOT_INT, get: |c| d!(c.network.inbound_conn_limit) },
        Field { section: "network", key: "allowlist_only", values: &[("true", "Some(true)"), ("false", "Some(false)")], absent: Some("None"), bad: NOT_BOOL, get: |c| d!(c.network.allowlist_only) },
        Field { section: "network", key: "allowlist", values: &[("[\"a\", \"b\"]", "Some([\"a\", \"b\"])"), ("[]", "Some([])")], absent: Some("None"), bad: &["\"a\"", "[1]"], get: |c| d!(c.network.allowlist) },
        Field {
            section: "network", key: "bootstraps",
            values: &[("[{ multi_address = \"/ip4/1.2.3.4/tcp/1\" }, { multi_address = \"/ip4/1.2.3.4/tcp/2\" }]", "Some([\"/ip4/1.2.3.4/tcp/1\", \"/ip4/1.2.3.4/tcp/2\"])"), ("[]", "Some([])")],
            absent: Some("None"), bad: &["[{ multi_address = \"x\" }]", "[{}]"],
            get: |c| d!(c.network.bootstraps.as_ref().map(|v| v.iter().map(|b| b.multi_address.to_string()).collect::<Vec<_>>())),
        },
        Field { section: "mempool", key: "pool_size", values: BIG, absent: None, bad: NOT_INT, get: |c| d!(c.mempool.pool_size) },
        Field { section: "mempool", key: "timeout_gap", values: &[("21", "21"), ("5_000_000_000", "5000000000")], absent: None, bad: NOT_INT, get: |c| d!(c.mempool.timeout_gap) },
        Field { section: "mempool", key: "broadcast_txs_size", values: &[("22", "22"), ("5_000_000_000", "5000000000")], absent: Some("200"), bad: NOT_INT, get: |c| d!(c.mempool.broadcast_txs_size) },
        Field { section: "mempool", key: "broadcast_txs_interval", values: &[("23", "23"), ("5_000_000_000", "5000000000")], absent: Some("200"), bad: NOT_INT, get: |c| d!(c.mempool.broadcast_txs_interval) },
        Field { section: "executor", key: "triedb_cache_size", values: &[("31", "31"), ("5_000_000_000", "5000000000")], absent: None, bad: NOT_INT, get: |c| d!(c.executor.triedb_cache_size) },
        Field { section: "synchronization", key: "sync_txs_chunk_size", values: &[("32", "32"), ("5_000_000_000", "5000000000")], absent: Some("5000"), bad: NOT_INT, get: |c| d!(c.sync.sync_txs_chunk_size) },
        Field { section: "logger", key: "filter", values: &[("\"debug\"", "\"debug\"")], absent: None, bad: &["1"], get: |c| d!(c.logger.filter) },
        Field { section: "logger", key: "log_to_console", values: BOOL, absent: None, bad: NOT_BOOL, get: |c| d!(c.logger.log_to_console) },
        Field { section: "logger", key: "console_show_file_and_line", values: BOOL, absent: None, bad: NOT_BOOL, get: |c| d!(c.logger.console_show_file_and_line) },
        Field { section: "logger", key: "log_to_file", values: BOOL, absent: None, bad: NOT_BOOL, get: |c| d!(c.logger.log_to_file) },
        Field { section: "logger", key: "metrics", values: BOOL, absent: None, bad: NOT_BOOL, get: |c| d!(c.logger.metrics) },
        Field { section: "logger", key: "log_path", values: &[("\"l/\"", "\"l/\"")], absent: None, bad: &["1"], get: |c| d!(c.logger.log_path) },
        Field { section: "logger", key: "file_size_limit", values: &[("41", "41"), ("5_000_000_000", "5000000000")], absent: None, bad: NOT_INT, get: |c| d!(c.logger.file_size_limit) },
        Field { section: "logger", key: "modules_level", values: &[("{ \"a::b\" = \"warn\", c = \"off\" }", "[(\"a::b\", \"warn\"), (\"c\", \"off\")]")], absent: Some("[]"), bad: &["{ a = 1 }"], get: |c| { let mut v: Vec<_> = c.logger.modules_level.iter().collect(); v.sort(); d!(v) } },
        Field { section: "rocksdb", key: "max_open_files", values: &[("51", "51"), ("-1", "-1")], absent: None, bad: &["\"7\"", "2147483648"], get: |c| d!(c.rocksdb.max_open_files) },
        Field { section: "rocksdb", key: "cache_size", values: &[("52", "52"), ("5_000_000_000", "5000000000")], absent: Some("100"), bad: NOT_INT, get: |c| d!(c.rocksdb.cache_size) },
        Field { section: "jaeger", key: "service_name", values: &[("\"s\"", "Some(\"s\")")], absent: Some("None"), bad: &["1"], get: |c| d!(c.jaeger.as_ref().and_then(|j| j.service_name.clone())) },
        Field { section: "jaeger", key: "tracing_address", values: ADDR, absent: Some("None"), bad: NOT_ADDR, get: |c| d!(c.jaeger.as_ref().and_then(|j| j.tracing_address)) },
        Field { section: "jaeger", key: "tracing_batch_size", values: OPT, absent: Some("None"), bad: NOT_INT, get: |c| d!(c.jaeger.as_ref().and_then(|j| j.tracing_batch_size)) },
        Field { section: "prometheus", key: "listening_address", values: ADDR, absent: Some("None"), bad: NOT_ADDR, get: |c| d!(c.prometheus.as_ref().and_then(|j| j.listening_address)) },
    ]
}

const SECTIONS: [&str; 11] =
    ["", "rpc", "web3", "network", "mempool", "executor", "synchronization", "logger", "rocksdb", "jaeger", "prometheus"];
/// Sections that may be left out altogether, with what their fields then are.
const OPTIONAL: [(&str, &[(&str, &str)]); 4] = [
    ("logger", &[("filter", "\"info\""), ("log_to_console", "true"), ("console_show_file_and_line", "false"), ("log_to_file", "true"), ("metrics", "true"), ("log_path", "\"logs/\""), ("file_size_limit", "1073741824"), ("modules_level", "[]")]),
    ("rocksdb", &[("max_open_files", "64"), ("cache_size", "100")]),
    ("jaeger", &[]),
    ("prometheus", &[]),
];

const NET: &str = "net.key";
const BLS: &str = "sub/bls.key";

struct Plan {
    text: String,
    expect: Vec<(usize, String)>,
    fail: Option<String>,
}

fn plan(c: &mut mc::Chooser, fs: &[Field]) -> Plan {
    let mut p = Plan { text: String::new(), expect: vec![], fail: None };
    for s in SECTIONS {
        let optional = OPTIONAL.iter().find(|o| o.0 == s);
        let skip = s.is_empty().then_some(0).unwrap_or_else(|| c.deviate(2)) == 1;
        if skip {
            match optional {
                Some(o) => {
                    for (i, f) in fs.iter().enumerate().filter(|(_, f)| f.section == s) {
                        let v = o.1.iter().find(|x| x.0 == f.key).map(|x| x.1.to_string());
                        p.expect.push((i, v.or(f.absent.map(Into::into)).unwrap_or_default()));
                    }
                }
                None => p.fail = Some(format!("section {s} missing")),
            }
            continue;
        }
        if s.is_empty() {
            p.text += &format!("net_privkey_file = \"{NET}\"\nbls_privkey_file = \"{BLS}\"\n");
        } else {
            p.text += &format!("\n[{s}]\n");
        }
        for (i, f) in fs.iter().enumerate().filter(|(_, f)| f.section == s) {
            let n = f.values.len();
            match c.deviate(n + 1 + f.bad.len()) {
                k if k < n => {
                    p.text += &format!("{} = {}\n", f.key, f.values[k].0);
                    p.expect.push((i, f.values[k].1.to_string()));
                }
                k if k == n => match f.absent {
                    Some(a) => p.expect.push((i, a.to_string())),
                    None => p.fail = Some(format!("{s}.{} missing", f.key)),
                },
                k => {
                    p.text += &format!("{} = {}\n", f.key, f.bad[k - n - 1]);
                    p.fail = Some(format!("{s}.{} = {}", f.key, f.bad[k - n - 1]));
                }
            }
        }
    }
    p
}

fn parse(dir: &Path, name: &str) -> Result<Config, String> {
    let p = dir.join(name);
    ConfigValueParser
        .parse_ref(&clap::Command::new("x"), None, p.as_os_str())
        .map_err(|e| e.to_string())
}

#[derive(Parser, Debug)]
struct KeyArgs {
    #[command(flatten)]
    key: PrivateKey,
}

#[derive(Parser, Debug)]
struct ForkArgs {
    #[command(flatten)]
    forks: Option<HardforkInput>,
}

fn scratch() -> tempfile::TempDir {
    tempfile::Builder::new().prefix("mc-config").tempdir().expect("scratch directory")
}

pub fn configuration(check: &Check) {
    let fs = fields();
    check
        .part(
            "settings",
            "at least one setting differs from the plain file, or the file must be refused",
            "every setting: each listed value, left out, each malformed literal; every section left out; all combinations of up to the \
             stated number of departures",
        )
        .deviations(check.by_tier(2, 3))
        .explore(|c| {
            let p = plan(c, &fs);
            let got: Result<Config, _> = parse_reader(&mut p.text.as_bytes());
            if c.choices().iter().any(|x| *x != 0) {
                c.nontrivial();
            }
            match (got, p.fail) {
                (Err(_), Some(_)) => {}
                (Ok(_), Some(why)) => return Err(format!("a malformed configuration is accepted: {why}").into()),
                (Err(e), None) => return Err(format!("a valid configuration is refused: {e}\n{}", p.text).into()),
                (Ok(cfg), None) => {
                    for (i, want) in &p.expect {
                        let f = &fs[*i];
                        let got = (f.get)(&cfg);
                        ensure!(got == *want, "setting {}.{}: {got} where the file says {want}", f.section, f.key);
                    }
                    c.outcome(format!("{:?}", p.expect));
                    let base = cfg.data_path.clone();
                    for (name, got) in [
                        ("rocksdb", cfg.data_path_for_rocksdb()),
                        ("txs_wal", cfg.data_path_for_txs_wal()),
                        ("consensus_wal", cfg.data_path_for_consensus_wal()),
                        ("axon.ver", cfg.data_path_for_version()),
                    ] {
                        ensure_eq!(got, base.join(name), "data path of {name}");
                    }
                }
            }
            Ok(())
        });

    // Key files and paths relative to the configuration file, through the real command-line parser.
    let plain = mc::with_choices(&[], 0, |c| plan(c, &fs).text);
    check
        .part(
            "key-files",
            "key file of another length, missing, or placed relative to the configuration file",
            "both key files x lengths 0..=65 or missing or a directory x any bytes, line feeds from the last byte on, or blanks x relative, absolute and parent \
             paths x options file absent, relative, absolute or beside the directory",
        )
        .explore(|c| {
            let which = c.choose(2);
            let len = c.choose(68);
            let opts = c.choose(4);
            let place = c.choose(4);
            let fill = c.choose(if len < 66 && opts == 0 { 3 } else { 1 });
            let dir = scratch();
            std::fs::create_dir_all(dir.path().join("sub")).unwrap();
            let mut keys: [Vec<u8>; 2] = [(0..32).map(|i| i + 1).collect(), (0..32).map(|i| 0xf0 - i).collect()];
            match fill {
                1 => keys[which][31] = b'\n',
                2 => keys[which] = vec![b' '; 32],
                _ => {}
            }
            let mut good = true;
            for (i, name) in [NET, BLS].iter().enumerate() {
                let path = dir.path().join(name);
                let mut k = keys[i].clone();
                if i == which {
                    good = len == 32;
                    match len {
                        66 => continue,
                        67 => {
                            std::fs::create_dir(&path).unwrap();
                            continue;
                        }
                        n => k = (0..n).map(|j| *keys[i].get(j).unwrap_or(&if fill == 1 { b'\n' } else { 0 })).collect(),
                    }
                }
                std::fs::write(&path, &k).unwrap();
            }
            let mut text = plain.clone();
            if place > 0 {
                let here = dir.path().file_name().unwrap().to_str().unwrap();
                let p = |n: &str| match place {
                    1 => dir.path().join(n).display().to_string(),
                    2 => format!("./{n}"),
                    _ => format!("../{here}/{n}"),
                };
                text = text.replace(&format!("\"{NET}\""), &format!("\"{}\"", p(NET))).replace(&format!("\"{BLS}\""), &format!("\"{}\"", p(BLS)));
            }
            let options = match opts {
                0 => None,
                1 => Some(("o/db.opts", dir.path().join("o/db.opts"))),
                2 => Some(("../db.opts", dir.path().join("../db.opts"))),
                _ => Some(("/abs/db.opts", PathBuf::from("/abs/db.opts"))),
            };
            if let Some((t, _)) = &options {
                text = text.replace("[rocksdb]\n", &format!("[rocksdb]\noptions_file = \"{t}\"\n"));
            }
            std::fs::write(dir.path().join("c.toml"), &text).unwrap();
            c.nontrivial();
            c.outcome((which, len, opts, place, fill));
            match (parse(dir.path(), "c.toml"), good) {
                (Err(_), false) => {}
                (Ok(_), false) => return Err(format!("a bad key file is accepted: file {which}, case {len}").into()),
                (Err(e), true) => return Err(format!("good key files are refused: {e}").into()),
                (Ok(cfg), true) => {
                    ensure_eq!(cfg.net_privkey.as_ref(), &keys[0][..], "network key");
                    ensure_eq!(cfg.bls_privkey.as_ref(), &keys[1][..], "consensus key");
                    ensure_eq!(cfg.rocksdb.options_file, options.map(|o| o.1), "options file");
                }
            }
            Ok(())
        });

    check
        .part(
            "secret-key-arguments",
            "no key, two keys, or a malformed key",
            "every subset of the two ways to give a key x texts of every length 0..=70 with and without prefix, other prefix, non-hex, non-ASCII x \
             files of every length 0..=65",
        )
        .explore(|c| {
            let dir = scratch();
            let mut args = vec!["x".to_string()];
            let key = [0x21u8; 32];
            let mut given = 0;
            let mut good = true;
            if c.flip() {
                given += 1;
                let t = match c.choose(4) {
                    0 => {
                        let n = c.choose(71);
                        let body: String = "21".repeat(40)[..n].into();
                        let pre = *c.pick(&["0x", "0X", "", "0x0x", "x"]);
                        good &= n == 64 && (pre == "0x" || pre == "0X");
                        format!("{pre}{body}")
                    }
                    1 => {
                        good = false;
                        let at = c.choose(64);
                        let mut s: Vec<char> = "21".repeat(32).chars().collect();
                        s[at] = *c.pick(&['g', ' ', 'é', '+', '/', ':', '@', 'G', '`']);
                        format!("0x{}", s.iter().collect::<String>())
                    }
                    2 => {
                        // Of the right length in bytes, with a character of two bytes
                        good = false;
                        let at = c.choose(63);
                        let mut s = "2".repeat(at);
                        s.push('é');
                        s += &"2".repeat(62 - at);
                        format!("0x{s}")
                    }
                    _ => "0x".to_string() + &"21".repeat(32),
                };
                args.push(format!("--key={t}"));
            }
            if c.flip() {
                given += 1;
                let n = c.choose(67);
                let p = dir.path().join("k");
                if n < 66 {
                    std::fs::write(&p, (0..n).map(|_| 0x21u8).collect::<Vec<_>>()).unwrap();
                }
                good &= n == 32;
                args.push(format!("--key-file={}", p.display()));
            }
            c.note(|| format!("{args:?}"));
            c.nontrivial();
            let got = KeyArgs::try_parse_from(&args).map_err(|e| e.to_string());
            let want = good && given == 1;
            c.outcome((want, given));
            match got {
                Err(e) => ensure!(!want, "a valid key is refused: {args:?}: {e}"),
                Ok(k) => {
                    ensure!(want, "a malformed or missing key is accepted: {args:?}");
                    ensure!(!format!("{k:?}").contains("2121"), "the key is shown: {k:?}");
                    use common_crypto::PrivateKey as _;
                    let k = k.key.data().map_err(|e| format!("valid key unusable: {e}"))?;
                    ensure_eq!(k.to_bytes().to_vec(), key.to_vec(), "key");
                }
            }
            Ok(())
        });

    check
        .part(
            "hardfork-arguments",
            "a list of features is given",
            "all feature lists up to length 3 (with repetitions) x start numbers x which of the two options is given, from the command line, from a \
             genesis file and directly",
        )
        .explore(|c| {
            let n = c.choose(4);
            let names: Vec<bool> = (0..n).map(|_| c.flip()).collect();
            let number = *c.pick(&[0u64, 1, 77, u64::MAX]);
            let list: Vec<HardforkName> = names.iter().map(|a| if *a { HardforkName::Andromeda } else { HardforkName::None }).collect();
            let flags = |names: &[bool]| {
                let mut v = [0u8; 32];
                if names.is_empty() || names.contains(&true) {
                    v[24] = 1;
                }
                H256(v)
            };
            if n > 0 {
                c.nontrivial();
            }
            c.outcome((&names, number));
            let direct: HardforkInfoInner = HardforkInput { hardforks: list, block_number: number }.into();
            ensure_eq!(direct.flags, flags(&names), "flags of {names:?}");
            ensure_eq!(direct.block_number, number, "start of {names:?}");
            let word = |a: &bool| if *a { "Andromeda" } else { "None" };
            let text = format!(
                "[genesis]\ntimestamp = 5\nbase_fee_per_gas = \"0x539\"\nchain_id = 9\nhardforks = [{}]\n",
                names.iter().map(|a| format!("\"{}\"", word(a))).collect::<Vec<_>>().join(",")
            );
            #[derive(Debug)]
            struct G(common_config_parser::types::spec::Genesis);
            let spec = spec_text(&text, &[], 1);
            let g: ChainSpec = parse_reader(&mut spec.as_bytes()).map_err(|e| format!("genesis refused: {e}"))?;
            let g = G(g.genesis).0;
            let info = g.generate_hardfork_info();
            ensure_eq!((info.block_number, info.flags), (0, flags(&names)), "genesis features {names:?}");
            let mut args = vec!["x".to_string()];
            let with_number = c.flip();
            for a in &names {
                args.push(format!("--feature={}", word(a).to_lowercase()));
            }
            if with_number {
                args.push(format!("--hardfork-start-number={number}"));
            }
            match ForkArgs::try_parse_from(&args) {
                Ok(a) => {
                    match a.forks {
                        Some(f) => {
                            ensure!(n > 0 && with_number, "half of the arguments are enough: {args:?}");
                            let i: HardforkInfoInner = f.into();
                            ensure_eq!((i.block_number, i.flags), (number, flags(&names)), "arguments {args:?}");
                        }
                        None => ensure!(n == 0 && !with_number, "arguments are ignored: {args:?}"),
                    }
                }
                Err(e) => ensure!((n > 0) != with_number, "valid arguments refused: {args:?}: {e}"),
            }
            Ok(())
        });

    check
        .part(
            "chain-spec",
            "an account list, validator list or parameter differs from the plain file, or the file must be refused",
            "every parameter: five values up to the largest, left out, malformed; account lists up to 3 with checksummed, wrongly cased and malformed addresses; \
             validator lists up to 3; combinations of up to the stated number of departures",
        )
        .deviations(check.by_tier(2, 3))
        .explore(|c| spec_case(c));

    check
        .part(
            "json-and-bad-files",
            "the file cannot be read as what it should be",
            "missing files, directories, empty files, other formats, every truncation of a valid file, for each of the parsers",
        )
        .explore(|c| {
            let dir = scratch();
            let p = dir.path().join("f");
            let kind = c.choose(3);
            let spec = spec_text("[genesis]\ntimestamp = 5\nbase_fee_per_gas = \"0x539\"\nchain_id = 9\nhardforks = []\n", &[], 1);
            let good: &str = match kind {
                0 => &plain,
                1 => &spec,
                _ => "{\"a\": [1, 2]}",
            };
            let case = c.choose(6 + good.len());
            let mut must_fail = true;
            match case {
                0 => {}
                1 => std::fs::create_dir(&p).unwrap(),
                2 => std::fs::write(&p, b"").unwrap(),
                3 => std::fs::write(&p, b"\xff\xfe\x00").unwrap(),
                4 => std::fs::write(&p, if kind == 2 { plain.as_bytes() } else { b"{\"a\": 1}" }).unwrap(),
                5 => {
                    must_fail = kind == 0; // no key files here
                    std::fs::write(&p, good).unwrap()
                }
                n => {
                    must_fail = kind == 2;
                    std::fs::write(&p, &good[..n - 6]).unwrap()
                }
            }
            c.nontrivial();
            let cmd = clap::Command::new("x");
            let os: &OsStr = p.as_os_str();
            let ok = mc::no_panic(|| match kind {
                0 => ConfigValueParser.parse_ref(&cmd, None, os).is_ok(),
                1 => ChainSpecValueParser.parse_ref(&cmd, None, os).is_ok(),
                _ => JsonValueParser::<serde_json::Value>::default().parse_ref(&cmd, None, os).is_ok(),
            })
            .map_err(|e| format!("parser panics: kind {kind} case {case}: {e}"))?;
            ensure!(!(ok && must_fail), "a bad file is accepted: kind {kind} case {case}");
            if case == 5 && kind > 0 {
                ensure!(ok, "a good file is refused: kind {kind}");
            }
            if kind == 2 && case == 5 {
                let v = JsonValueParser::<serde_json::Value>::default().parse_ref(&cmd, None, os).map_err(|e| e.to_string())?;
                ensure_eq!(v, serde_json::json!({"a": [1, 2]}), "JSON value");
                let w: serde_json::Value = parse_json(&mut good.as_bytes()).map_err(|e| e.to_string())?;
                ensure_eq!(w, v, "JSON value");
            }
            c.outcome((kind, ok, case.min(6)));
            Ok(())
        });
}

const GOOD: [&str; 3] = [
    "0xf39Fd6e51aad88F6F4ce6aB8827279cffFb92266",
    "0x70997970C51812dc3A010C7d01b50e0d17dc79C8",
    "0x9965507D1a55bcC2695C58ba16FB37d819B0A4dc",
];

/// The public keys of the secrets 1, 2 and 3, with their well-known addresses.
const PUBS: [(&str, &str); 3] = [
    ("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "0x7E5F4552091A69125d5DfCb7b8C2659029395Bdf"),
    ("02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5", "0x2B5AD5c4795c026514f8317c7a215E218DcCD6cF"),
    ("02f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9", "0x6813Eb9362372EEF6200f3b1dbC3f819671cBA69"),
];

fn spec_text(genesis: &str, accounts: &[(String, String)], validators: usize) -> String {
    let mut t = genesis.to_string();
    if accounts.is_empty() {
        t = format!("accounts = []\n{t}");
    }
    for (a, b) in accounts {
        t += &format!("\n[[accounts]]\naddress = \"{a}\"\nbalance = \"{b}\"\n");
    }
    t += "\n[params]\nepoch = 3\n[params.version]\nstart = 1\nend = 100000000\n";
    t += "[params.consensus_config]\npropose_ratio = 15\nprevote_ratio = 11\nprecommit_ratio = 12\nbrake_ratio = 13\ntx_num_limit = 20000\nmax_tx_size = 409600000\ngas_limit = 4294967295000\ninterval = 3000\n";
    for i in 0..validators {
        t += &format!(
            "[[params.verifier_list]]\nbls_pub_key = \"0xa2{i:02x}\"\npub_key = \"0x031ddc35212b7fc7ff6685b17d91f77c972535aee5c7ae5684d3e72b986f0883{i:02x}\"\npropose_weight = {}\nvote_weight = {}\n",
            i + 1,
            i + 5
        );
    }
    t
}

fn spec_case(c: &mut mc::Chooser) -> Outcome {
    let mut fail: Option<String> = None;
    let mut num = |c: &mut mc::Chooser, name: &str, dflt: u64, optional: Option<u64>| -> (String, u64) {
        match c.deviate(9) {
            0 => (format!("{name} = {dflt}\n"), dflt),
            1 => (format!("{name} = {}\n", dflt + 1), dflt + 1),
            2 => (format!("{name} = 0x{:x}\n", dflt ^ 0xff), dflt ^ 0xff),
            n @ 6..=8 => {
                let v = [0, (1 << 32) + 5, i64::MAX as u64][n - 6];
                (format!("{name} = {v}\n"), v)
            }
            3 => {
                if optional.is_none() {
                    fail = Some(format!("{name} missing"));
                }
                (String::new(), optional.unwrap_or(0))
            }
            4 => {
                fail = Some(format!("{name} is text"));
                (format!("{name} = \"{dflt}\"\n"), 0)
            }
            _ => {
                fail = Some(format!("{name} is negative"));
                (format!("{name} = -1\n"), 0)
            }
        }
    };
    let ts = num(c, "timestamp", 1679656015, None);
    let chain = num(c, "chain_id", 0x41786f6e, None);
    let epoch = num(c, "epoch", 3, None);
    let start = num(c, "start", 1, None);
    let end = num(c, "end", 100000000, None);
    let names = ["gas_limit", "interval", "propose_ratio", "prevote_ratio", "precommit_ratio", "brake_ratio", "tx_num_limit", "max_tx_size"];
    let cc: Vec<(String, u64)> = names.iter().enumerate().map(|(i, n)| num(c, n, 1000 + i as u64, None)).collect();
    let limit = num(c, "max_contract_limit", 2000, Some(0x6000));
    let fee = *c.pick_dev(&[("\"0x539\"", Some(0x539u64)), ("\"0x0\"", Some(0)), ("\"0xffffffffffffffff\"", Some(u64::MAX)), ("\"0x10000000000000000\"", None), ("\"zz\"", None)]);
    let n_acc = [1usize, 0, 2, 3][c.deviate(4)];
    let mut accounts = vec![];
    for i in 0..n_acc {
        let a = match c.deviate(6) {
            0 => GOOD[i].to_string(),
            k => {
                if k != 2 {
                    fail = fail.or(Some(format!("address case {k}")));
                }
                match k {
                    1 => GOOD[i].to_lowercase(),
                    2 => GOOD[i][2..].to_string(),
                    3 => GOOD[i][..41].to_string(),
                    4 => GOOD[i].to_string() + "00",
                    _ => {
                        let mut b = GOOD[i].as_bytes().to_vec();
                        let j = b.iter().rposition(|x| x.is_ascii_alphabetic()).unwrap();
                        b[j] ^= 0x20;
                        String::from_utf8(b).unwrap()
                    }
                }
            }
        };
        let b = *c.pick_dev(&[("04ee2d6d415b85acef8100000000", Some("390786a4ddd4ed3f2e0d7be")), ("0", Some("0")), ("0xff", Some("ff")), ("zz", None)]);
        if b.1.is_none() {
            fail = fail.or(Some("balance".into()));
        }
        accounts.push((a, b.0.to_string()));
    }
    if fee.1.is_none() {
        fail = fail.or(Some("base fee".into()));
    }
    let n_val = [1usize, 0, 2, 3][c.deviate(4)];
    let mut t = if accounts.is_empty() { "accounts = []\n".to_string() } else { String::new() };
    t += &format!("[genesis]\n{}{}base_fee_per_gas = {}\nhardforks = []\n", ts.0, chain.0, fee.0);
    for (a, b) in &accounts {
        t += &format!("\n[[accounts]]\naddress = \"{a}\"\nbalance = \"{b}\"\n");
    }
    t += &format!("[params]\n{}", epoch.0);
    if n_val == 0 {
        t += "verifier_list = []\n";
    }
    t += &format!("[params.version]\n{}{}[params.consensus_config]\n", start.0, end.0);
    for x in &cc {
        t += &x.0;
    }
    t += &limit.0;
    for i in 0..n_val {
        t += &format!(
            "[[params.verifier_list]]\nbls_pub_key = \"0xa2{i:02x}\"\npub_key = \"0x{}\"\npropose_weight = {}\nvote_weight = {}\n",
            PUBS[i].0,
            i + 1,
            i + 5
        );
    }
    if c.choices().iter().any(|x| *x != 0) {
        c.nontrivial();
    }
    let got: Result<ChainSpec, _> = parse_reader(&mut t.as_bytes());
    let spec = match (got, fail) {
        (Err(_), Some(_)) => return Ok(()),
        (Ok(_), Some(f)) => return Err(format!("a malformed specification is accepted: {f}\n{t}").into()),
        (Err(e), None) => return Err(format!("a valid specification is refused: {e}\n{t}").into()),
        (Ok(s), None) => s,
    };
    c.outcome(format!("{spec:?}"));
    ensure_eq!(spec.accounts.len(), n_acc, "number of accounts");
    for (i, a) in spec.accounts.iter().enumerate() {
        ensure_eq!(rf::eip55(&a.address.0), GOOD[i].to_string(), "account address");
        let want = accounts[i].1.trim_start_matches("0x").trim_start_matches('0').to_string();
        ensure_eq!(format!("{:x}", a.balance), if want.is_empty() { "0".to_string() } else { want }, "account balance");
    }
    let h = spec.genesis.build_header();
    let want = Header {
        transactions_root: RLP_NULL,
        signed_txs_hash: RLP_EMPTY_LIST,
        timestamp: ts.1,
        base_fee_per_gas: fee.1.unwrap().into(),
        chain_id: chain.1,
        ..Default::default()
    };
    ensure_eq!(h, want, "genesis header");
    ensure_eq!(h.number, 0, "genesis number");
    let m: Metadata = spec.params.into();
    ensure_eq!((m.epoch, m.version.start, m.version.end), (epoch.1, start.1, end.1), "epoch and version range");
    let k = &m.consensus_config;
    let got = [k.gas_limit, k.interval, k.propose_ratio, k.prevote_ratio, k.precommit_ratio, k.brake_ratio, k.tx_num_limit, k.max_tx_size, k.max_contract_limit];
    let want: Vec<u64> = cc.iter().map(|x| x.1).chain([limit.1]).collect();
    ensure_eq!(got.to_vec(), want, "consensus parameters");
    ensure_eq!(m.verifier_list.len(), n_val, "number of validators");
    for (i, v) in m.verifier_list.iter().enumerate() {
        ensure_eq!(v.bls_pub_key.as_bytes().to_vec(), vec![0xa2, i as u8], "validator BLS key");
        ensure_eq!(mc::hex(v.pub_key.as_bytes()), PUBS[i].0.to_string(), "validator key");
        ensure_eq!(rf::eip55(&v.address.0), PUBS[i].1.to_string(), "validator address");
        ensure_eq!((v.propose_weight, v.vote_weight), (i as u32 + 1, i as u32 + 5), "validator weights");
    }
    Ok(())
}
