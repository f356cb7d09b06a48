//! B03: what is logged reaches exactly the places the configuration names, and rolling loses nothing.

use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;

use common_logger::{log as event, metrics, object};
use log::Level;
use mc::{ensure, ensure_eq, Check};
use protocol::traits::Context;

const LEVELS: [(&str, Level); 5] = [
    ("error", Level::Error),
    ("warn", Level::Warn),
    ("info", Level::Info),
    ("debug", Level::Debug),
    ("trace", Level::Trace),
];
const TARGETS: [&str; 5] = ["alpha", "beta", "beta::inner", "betamax", "cli"];

fn scratch() -> tempfile::TempDir {
    tempfile::Builder::new().prefix("mc-log").tempdir().expect("scratch directory")
}

/// `--log-child DIR FILTER CONSOLE LINE FILE METRICS LIMIT MODULES PROGRAM`
pub fn child() {
    let a: Vec<String> = std::env::args().collect();
    let flag = |i: usize| a[i] == "1";
    let modules: HashMap<String, String> =
        a[9].split(',').filter(|x| !x.is_empty()).map(|x| x.split_once('=').unwrap()).map(|(k, v)| (k.into(), v.into())).collect();
    common_logger::init(a[3].clone(), flag(4), flag(5), flag(6), flag(7), PathBuf::from(&a[2]), a[8].parse().unwrap(), modules);
    match a[10].as_str() {
        "levels" => {
            for t in TARGETS {
                for (n, l) in LEVELS {
                    log::log!(target: t, l, "plain {t} {n}");
                    event(l, t, "ev1", &Context::new(), object! {"k": n});
                }
            }
            metrics("m1", object! {"cost": 5});
        }
        p => {
            // A list of message lengths
            for (i, n) in p.split(',').enumerate() {
                let n: usize = n.parse().unwrap();
                log::info!(target: "alpha", "{i}:{}", "x".repeat(n));
                metrics("m", object! {"i": i, "pad": "y".repeat(n)});
            }
        }
    }
    log::logger().flush();
}

fn run(dir: &Path, args: [&str; 8]) -> Result<String, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = Command::new(exe).arg("--log-child").arg(dir).args(args).output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("the process fails: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}

fn rank(level: &str) -> usize {
    match level {
        "off" => 0,
        "error" => 1,
        "warn" => 2,
        "info" => 3,
        "debug" => 4,
        "trace" => 5,
        _ => 3, // an unknown level is announced and means info
    }
}

/// The messages (target, level, message) of a JSON-lines file.
fn lines(p: &Path) -> Result<Vec<(String, String, String)>, String> {
    let text = match std::fs::read_to_string(p) {
        Ok(t) => t,
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(vec![]),
        Err(e) => return Err(e.to_string()),
    };
    text.lines()
        .map(|l| {
            let v: serde_json::Value = serde_json::from_str(l).map_err(|e| format!("a log line is not JSON: {e}: {l}"))?;
            let s = |k: &str| v[k].as_str().unwrap_or_default().to_string();
            Ok((s("target"), s("level").to_lowercase(), s("message")))
        })
        .collect()
}

pub fn logging(check: &Check) {
    let filters = ["off", "error", "warn", "info", "debug", "trace", "verbose", "INFO", "warning", "Error", "debug ", ""];
    let mods = ["", "beta=off", "beta=error", "beta=trace", "beta::inner=debug", "beta=warn,beta::inner=trace", "alpha=info,beta=bogus"];
    check
        .part(
            "routing",
            "some message is filtered out and some is not",
            "12 filters x 7 module tables x console, file, metrics and line-number switches; every level on five targets, metrics and events",
        )
        .explore(|c| {
            let filter = *c.pick(&filters);
            let module = *c.pick(&mods);
            let (console, file, met, line) = (c.flip(), c.flip(), c.flip(), c.flip());
            let b = |x: bool| if x { "1" } else { "0" };
            let dir = scratch();
            let out = run(dir.path(), [filter, b(console), b(line), b(file), b(met), "1073741824", module, "levels"])?;
            c.note(|| format!("filter {filter} modules {module:?} console {console} file {file} metrics {met}"));
            c.nontrivial();
            c.outcome((filter, module, console, file, met, line));
            let table: Vec<(&str, &str)> = module.split(',').filter(|x| !x.is_empty()).map(|x| x.split_once('=').unwrap()).collect();
            let got = lines(&dir.path().join("axon.log"))?;
            let cli = lines(&dir.path().join("cli.log"))?;
            let mut want_file = vec![];
            let mut want_cli = vec![];
            for t in TARGETS {
                // The most specific module entry decides; otherwise the general filter.
                let entry = table.iter().filter(|(m, _)| t == *m || t.starts_with(&format!("{m}::"))).max_by_key(|(m, _)| m.len());
                for (n, _) in LEVELS {
                    let plain = format!("plain {t} {n}");
                    let shown = if t == "cli" {
                        want_cli.push((t.to_string(), n.to_string(), plain.clone()));
                        true
                    } else {
                        let limit = entry.map(|e| e.1).unwrap_or(filter);
                        let on = rank(n) <= rank(limit);
                        // A module with a level of its own is written to both places whatever the switches say.
                        if on && (file || entry.is_some()) {
                            want_file.push((t.to_string(), n.to_string(), plain.clone()));
                        }
                        on && (console || entry.is_some())
                    };
                    let on_console = out.lines().filter(|l| l.contains(&plain) && l.ends_with(&plain)).count();
                    if !(entry.is_some() && !console) {
                        ensure_eq!(on_console, shown as usize, "on the console: {plain:?}");
                    }
                    if shown && on_console > 0 {
                        let l = out.lines().find(|l| l.ends_with(&plain)).unwrap();
                        ensure!(l.to_lowercase().contains(n), "console line without its level: {l}");
                        ensure!(!line || l.contains(".rs:"), "console line without its place: {l}");
                    }
                }
            }
            let plain = |v: &[(String, String, String)]| v.iter().filter(|x| x.2.starts_with("plain")).cloned().collect::<Vec<_>>();
            let visible = |v: Vec<(String, String, String)>| -> Vec<(String, String, String)> {
                if file {
                    return v;
                }
                v.into_iter().filter(|x| !table.iter().any(|(m, _)| x.0 == *m || x.0.starts_with(&format!("{m}::")))).collect()
            };
            ensure_eq!(visible(plain(&got)), visible(want_file), "in the log file (filter {filter}, modules {module:?}, file {file})");
            ensure_eq!(plain(&cli), want_cli, "in the command-line log");
            // Events are written under the same rules, with their name and content.
            for v in [&got, &cli] {
                let p = v.iter().filter(|x| x.2.starts_with("plain")).count();
                let events: Vec<_> = v.iter().filter(|x| x.2.starts_with('{')).collect();
                ensure_eq!(events.len(), p, "events and plain messages are filtered alike");
                for e in events {
                    let m: serde_json::Value = serde_json::from_str(&e.2).map_err(|x| format!("event is not JSON: {x}"))?;
                    ensure_eq!(m, serde_json::json!({"k": e.1, "event": "ev1"}), "event content");
                }
            }
            let ms = lines(&dir.path().join("metrics.log"))?;
            ensure_eq!(ms.len(), met as usize, "metrics records");
            if met {
                let m: serde_json::Value = serde_json::from_str(&ms[0].2).map_err(|x| format!("metrics record is not JSON: {x}"))?;
                ensure_eq!(m, serde_json::json!({"cost": 5, "name": "m1"}), "metrics content");
            }
            Ok(())
        });

    let n_max = check.by_tier(5, 7);
    check
        .part(
            "rolling",
            "the file was rolled at least once",
            "every sequence of messages up to the stated length over three sizes, under three size limits: every record is kept, once, in order within its file",
        )
        .explore(|c| {
            let limit = *c.pick(&["1", "400", "900"]);
            let n = 1 + c.choose(n_max);
            let sizes: Vec<String> = (0..n).map(|_| c.pick(&["1", "300", "1000"]).to_string()).collect();
            let dir = scratch();
            run(dir.path(), ["info", "0", "0", "1", "1", limit, "", &sizes.join(",")])?;
            kept(c, dir.path(), n, 1, &format!("limit {limit}, sizes {sizes:?}"))
        });
    check
        .part(
            "rolling-often",
            "the file was rolled many times within a second",
            "15, 60 or 150 messages of one size, short or long, one or two runs one after the other, under two size limits: every record is kept",
        )
        .explore(|c| {
            let limit = *c.pick(&["1", "6000"]);
            let n = *c.pick(&[15usize, 60, 150]);
            let size = *c.pick(&["1", "5000", "20000"]);
            let runs = 1 + c.choose(2);
            let dir = scratch();
            for _ in 0..runs {
                run(dir.path(), ["info", "0", "0", "1", "1", limit, "", &vec![size; n].join(",")])?;
            }
            kept(c, dir.path(), n, runs, &format!("limit {limit}, {n} messages of {size}, {runs} runs"))
        });
}

/// Every record of every run is in one file of its kind, once.
fn kept(c: &mut mc::Chooser, dir: &std::path::Path, n: usize, runs: usize, what: &str) -> mc::Outcome {
    for (name, key) in [("axon", ""), ("metrics", "i")] {
        let mut all = vec![];
        let mut files = 0;
        for e in std::fs::read_dir(dir).map_err(|e| e.to_string())?.flatten() {
            let f = e.file_name().to_string_lossy().into_owned();
            let current = f == format!("{name}.log");
            if !current && !f.contains(&format!(".{name}.")) {
                continue;
            }
            files += !current as usize;
            let ls = lines(&e.path())?;
            let mut idx = vec![];
            for l in ls {
                let i: usize = if key.is_empty() {
                    l.2.split(':').next().unwrap().parse().map_err(|_| format!("mangled record: {}", l.2))?
                } else {
                    let v: serde_json::Value = serde_json::from_str(&l.2).map_err(|e| e.to_string())?;
                    v[key].as_u64().unwrap_or(999) as usize
                };
                idx.push(i);
            }
            ensure!(runs > 1 || idx.windows(2).all(|w| w[0] < w[1]), "records out of order in {f}: {idx:?}");
            all.extend(idx);
        }
        if files > 0 {
            c.nontrivial();
        }
        c.outcome((files, name));
        all.sort();
        ensure_eq!(all, (0..n * runs).map(|i| i / runs).collect::<Vec<_>>(), "records in the {name} files after rolling ({what})");
    }
    Ok(())
}
