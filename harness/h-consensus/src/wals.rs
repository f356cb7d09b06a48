//! H04: what a node writes down during a height is there after it was stopped at any moment.

use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use core_consensus::{ConsensusWal, SignedTxsWAL};
use crashsim::{End, Plan};
use mc::{ensure, ensure_eq, Check, Fail};
use protocol::traits::{Context, MessageCodec};
use protocol::types::*;

fn scratch() -> (tempfile::TempDir, PathBuf) {
    let d = tempfile::Builder::new().prefix("mc-wal").tempdir().expect("scratch directory");
    let p = d.path().canonicalize().unwrap();
    (d, p)
}

/// Something that must come to an end.
fn ends<T: Send + 'static>(what: &str, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(mc::no_panic(f));
    });
    match rx.recv_timeout(Duration::from_secs(20)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(Fail::new(&format!("{what} panics"), e)),
        Err(_) => Err(Fail::new(&format!("{what} does not end"), "nothing after 20 seconds")),
    }
}

fn load(p: &Path) -> Result<Option<Bytes>, Fail> {
    let p = p.to_path_buf();
    ends("loading the record of a round", move || ConsensusWal::new(p).load_overlord_wal(Context::new()).ok())
}

fn update(p: &Path, info: &Bytes) -> Result<Result<(), String>, Fail> {
    let (p, info) = (p.to_path_buf(), info.clone());
    ends("writing the record of a round", move || ConsensusWal::new(p).update_overlord_wal(Context::new(), info).map_err(|e| e.to_string()))
}

fn info(k: usize) -> Bytes {
    match k {
        0 => Bytes::from(vec![0xa5; 40]),
        1 => Bytes::from(vec![7]),
        2 => Bytes::new(),
        3 => Bytes::from((0..3000).map(|i| (i % 251) as u8).collect::<Vec<_>>()),
        k => Bytes::from(vec![k as u8; 30 + k]),
    }
}

/// A record as a node leaves it: written by the real code, wherever it is put then.
fn record(i: &Bytes) -> Vec<u8> {
    let (_d, p) = scratch();
    ConsensusWal::new(&p).update_overlord_wal(Context::new(), i.clone()).expect("a record is written");
    let mut s = crashsim::snapshot(&p);
    assert_eq!(s.len(), 1, "one file is a record");
    s.pop().unwrap().1.unwrap()
}

fn millis() -> u128 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis()
}

fn txs(k: usize) -> Vec<SignedTransaction> {
    let t = |i: u64, data: usize| kit::sign(kit::legacy(i, 1, 21000, Some(kit::h160(9)), i as u128, &vec![i as u8; data]), Some(kit::CHAIN), 1 + (i % 3) as u8);
    match k {
        0 => vec![],
        1 => vec![t(1, 0)],
        2 => vec![t(2, 3), t(3, 40)],
        _ => vec![t(4, 600), t(1, 0), t(5, 1)],
    }
}

fn key(k: usize) -> Hash {
    Hasher::digest(BatchSignedTxs::new(txs(k)).encode_msg().unwrap())
}

pub fn child() {
    let a: Vec<String> = std::env::args().collect();
    let p = Path::new(&a[3]);
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let r = match a[2].as_str() {
        "round" => ConsensusWal::new(p).update_overlord_wal(Context::new(), info(n(4) as usize)),
        "clear" => ConsensusWal::new(p).clear(),
        "save" => SignedTxsWAL::new(p).save(n(4), key(n(5) as usize), txs(n(5) as usize)),
        "remove" => SignedTxsWAL::new(p).remove(n(4)),
        _ => SignedTxsWAL::new(p).remove_all(),
    };
    match r {
        Ok(()) => println!("ok"),
        Err(e) => println!("err {e}"),
    }
}

fn follow(args: &[String], root: &Path, plan: &Plan) -> Result<crashsim::Run, Fail> {
    crashsim::run(args, root, plan).map_err(|e| Fail::new("cannot follow the process", e.to_string()))
}

fn restore(root: &Path, snap: &[(PathBuf, Option<Vec<u8>>)]) {
    for e in std::fs::read_dir(root).unwrap().flatten() {
        let p = e.path();
        if p.is_dir() {
            std::fs::remove_dir_all(&p).unwrap();
        } else {
            std::fs::remove_file(&p).unwrap();
        }
    }
    for (p, c) in snap {
        match c {
            None => std::fs::create_dir_all(root.join(p)).unwrap(),
            Some(c) => std::fs::write(root.join(p), c).unwrap(),
        }
    }
}

/// The batches of the log, against what they should be.
fn logged(p: &Path, want: &BTreeMap<(u64, usize), bool>) -> Result<(), Fail> {
    let wal = SignedTxsWAL::new(p);
    for n in 0..4u64 {
        let mut all: Vec<Hash> = vec![];
        for k in 0..4 {
            let got = mc::no_panic(|| wal.load(n, key(k)).ok()).map_err(|e| Fail::new("loading transactions panics", e))?;
            match want.get(&(n, k)) {
                None => ensure!(got.is_none(), "transactions that are not in the log: batch {k} of height {n}"),
                Some(true) => ensure!(got.as_ref() == Some(&txs(k)), "logged transactions: batch {k} of height {n} reads {:?}", got.map(|g| g.len())),
                // Being written when the process ended: all or nothing.
                Some(false) => ensure!(got.is_none() || got.as_ref() == Some(&txs(k)), "half a batch: batch {k} of height {n} reads {:?}", got.map(|g| g.len())),
            }
            if let Some(g) = got {
                all.extend(g.iter().map(|t| t.transaction.hash));
            }
        }
        let mut by = mc::no_panic(|| wal.load_by_number(n)).map_err(|e| Fail::new("loading a height panics", e))?.iter().map(|t| t.transaction.hash).collect::<Vec<_>>();
        by.sort();
        all.sort();
        ensure_eq!(by, all, "transactions of height {n}");
    }
    let mut have = mc::no_panic(|| wal.available_number().map_err(|e| e.to_string()))
        .map_err(|e| Fail::new("listing the heights panics", e))?
        .map_err(|e| Fail::new("listing the heights", e))?;
    have.sort();
    let mut heights: Vec<u64> = want.iter().filter(|(_, d)| **d).map(|((n, _), _)| *n).collect();
    heights.dedup();
    for h in &heights {
        ensure!(have.contains(h), "a height is not listed: {h} of {have:?}");
    }
    for h in &have {
        ensure!(want.keys().any(|(n, _)| n == h), "a height without transactions is listed: {h}");
    }
    Ok(())
}

pub fn run(check: &Check) {
    let hour = 3_600_000u128;
    check
        .part(
            "rounds",
            "the directory is not empty at first, or there is more than one record",
            "first content of the directory: up to one file, an hour old or of an hour ahead of the clock (it was set back), being a whole record, one cut at \
             each of nine lengths, or one with a changed byte, beside none or one older whole record; then every sequence of records up to the stated length, \
             each of six sizes, read back by a new process each time",
        )
        .explore(|c| {
            let (_d, p) = scratch();
            let now = millis();
            let mut best: Option<Bytes> = None;
            if c.flip() {
                std::fs::write(p.join((now - 2 * hour).to_string()), record(&info(4))).unwrap();
                best = Some(info(4));
            }
            let first = c.choose(13);
            if first > 0 {
                let at = if c.flip() { now + hour } else { now - hour };
                let mut r = record(&info(0));
                let n = r.len();
                match first {
                    1 => best = Some(info(0)),
                    2 => r[0] ^= 1,
                    3 => r[n - 1] ^= 0x80,
                    k => r.truncate([0, 1, 20, 31, 32, 33, 50, n - 2, n - 1][k - 4]),
                }
                c.note(|| format!("a file of {} bytes, variant {first}, {}", r.len(), if at > now { "ahead" } else { "old" }));
                std::fs::write(p.join(at.to_string()), r).unwrap();
                c.nontrivial();
            }
            ensure_eq!(load(&p)?, best, "record found first");
            let steps = c.choose(check.by_tier(2, 3) + 1);
            for s in 0..steps {
                let i = info(if s == 0 { c.choose(6) } else { *c.pick(&[0, 2, 5]) });
                c.note(|| format!("write a record of {} bytes", i.len()));
                let r = update(&p, &i)?;
                ensure!(r.is_ok(), "a record cannot be written: {r:?}");
                c.nontrivial();
                c.state();
                ensure_eq!(load(&p)?, Some(i), "record of the last round");
            }
            c.outcome((first, steps));
            if steps > 0 && c.flip() {
                let q = p.clone();
                let r = ends("clearing", move || ConsensusWal::new(q).clear().map_err(|e| e.to_string()))?;
                ensure!(r.is_ok(), "clearing: {r:?}");
                ensure_eq!(load(&p)?, None, "record after clearing");
            }
            Ok(())
        });

    check
        .part(
            "round-crashes",
            "the process dies, or a call fails, while a record is written",
            "no, one or two earlier records, written by runs of their own, of which the last was or was not stopped before it removed older ones; then every \
             file-system call of writing one of three records: the process killed before it, torn at every length for writes, or failing with ENOSPC or EIO; then \
             a record written by another run",
        )
        .explore(|c| {
            let (_d, p) = scratch();
            let arg = |k: usize| vec!["--wal-child".to_string(), "round".into(), p.display().to_string(), k.to_string()];
            let before = c.choose(3);
            let mut prev = None;
            for b in 0..before {
                let r = update(&p, &info(4 + b))?;
                ensure!(r.is_ok(), "a record cannot be written: {r:?}");
                prev = Some(info(4 + b));
            }
            if before == 2 && c.flip() {
                std::fs::write(p.join((millis() - hour).to_string()), record(&info(4))).unwrap();
            }
            let k = c.choose(3);
            let snap = crashsim::snapshot(&p);
            let rec = follow(&arg(k), &p, &Plan::Record)?;
            ensure!(rec.end == End::Exit(0) && rec.out == b"ok\n", "the plain run fails: {:?}", rec.end);
            ensure_eq!(load(&p)?, Some(info(k)), "plain run");
            restore(&p, &snap);
            let n = c.choose(rec.ops.len());
            let plan = match c.choose(4) {
                0 => Plan::KillBefore(n),
                1 if rec.ops[n].call == "write" => Plan::Tear(n, c.choose(rec.ops[n].len + 1)),
                1 => return Ok(()),
                e => Plan::Fail(n, [28, 5][e - 2]),
            };
            c.note(|| format!("{plan:?} at {:?}", rec.ops[n]));
            let r = follow(&arg(k), &p, &plan)?;
            c.nontrivial();
            c.transition();
            c.state();
            let after = load(&p)?;
            c.outcome((n, before, after == prev));
            ensure!(after == prev || after == Some(info(k)), "neither the last record nor the new one: {:?} after {plan:?} at {:?}", after.map(|a| a.len()), rec.ops[n]);
            if let Plan::Fail(..) = plan {
                let out = String::from_utf8_lossy(&r.out).into_owned();
                ensure!(r.end == End::Exit(0) && (out.starts_with("err") || out == "ok\n"), "a failing call is not reported as an error: {:?} {out}", r.end);
                ensure!(out != "ok\n" || after == Some(info(k)), "success is reported although the record was not written: {plan:?} at {:?}", rec.ops[n]);
            }
            let u = update(&p, &info(5))?;
            ensure!(u.is_ok(), "no further record can be written: {u:?} after {plan:?}");
            ensure_eq!(load(&p)?, Some(info(5)), "next record");
            Ok(())
        });

    let depth = check.by_tier(3, 4);
    check
        .part(
            "transactions",
            "something was logged",
            "every sequence up to the stated length of: log one of four batches for one of heights 1 to 3, remove up to height 0 to 3, remove everything; \
             everything read back after each step by a new process",
        )
        .explore(|c| {
            let (_d, p) = scratch();
            let mut m: BTreeMap<(u64, usize), bool> = BTreeMap::new();
            let n = 1 + c.choose(depth);
            for _ in 0..n {
                let wal = SignedTxsWAL::new(&p);
                let r = match c.choose(17) {
                    k if k < 12 => {
                        let (h, b) = (1 + (k / 4) as u64, k % 4);
                        m.insert((h, b), true);
                        c.nontrivial();
                        c.note(|| format!("log batch {b} for {h}"));
                        mc::no_panic(|| wal.save(h, key(b), txs(b)).map_err(|e| e.to_string()))
                    }
                    16 => {
                        m.clear();
                        c.note(|| "remove everything".into());
                        mc::no_panic(|| wal.remove_all().map_err(|e| e.to_string()))
                    }
                    k => {
                        let h = k as u64 - 12;
                        m.retain(|(n, _), _| *n > h);
                        c.note(|| format!("remove up to {h}"));
                        mc::no_panic(|| wal.remove(h).map_err(|e| e.to_string()))
                    }
                };
                ensure!(matches!(r, Ok(Ok(()))), "a step fails: {r:?}");
                c.state();
                c.outcome(m.len());
            }
            logged(&p, &m)
        });

    check
        .part(
            "transaction-crashes",
            "the process dies, or a call fails, while transactions are logged or removed",
            "an empty log, or one of three batches at two heights; then logging one of four batches at an old or a new height, removing up to one of two \
             heights, or removing everything: killed before every file-system call, torn at every length for writes, or the call failing with ENOSPC or EIO; \
             then the same once more by another run",
        )
        .explore(|c| {
            let (_d, p) = scratch();
            let mut m: BTreeMap<(u64, usize), bool> = BTreeMap::new();
            if c.flip() {
                for (h, b) in [(1, 1), (1, 3), (2, 2)] {
                    let r = SignedTxsWAL::new(&p).save(h, key(b), txs(b));
                    ensure!(r.is_ok(), "transactions cannot be logged");
                    m.insert((h, b), true);
                }
            }
            let act = c.choose(11);
            let mut arg = vec!["--wal-child".to_string()];
            let mut after = m.clone();
            let dir = p.display().to_string();
            match act {
                k if k < 8 => {
                    let (h, b) = ([1u64, 3][k / 4], k % 4);
                    arg.extend(["save".into(), dir, h.to_string(), b.to_string()]);
                    after.insert((h, b), true);
                }
                10 => {
                    arg.extend(["all".into(), dir]);
                    after.clear();
                }
                k => {
                    let h = [1u64, 2][k - 8];
                    arg.extend(["remove".into(), dir, h.to_string()]);
                    after.retain(|(n, _), _| *n > h);
                }
            }
            let snap = crashsim::snapshot(&p);
            let rec = follow(&arg, &p, &Plan::Record)?;
            ensure!(rec.end == End::Exit(0) && rec.out == b"ok\n", "the plain run fails: {:?}", rec.end);
            logged(&p, &after)?;
            restore(&p, &snap);
            if rec.ops.is_empty() {
                return Ok(());
            }
            let n = c.choose(rec.ops.len());
            let plan = match c.choose(4) {
                0 => Plan::KillBefore(n),
                1 if rec.ops[n].call == "write" => {
                    let len = rec.ops[n].len;
                    let t = c.choose(if check.thorough() { len + 1 } else { (len + 1).min(90) });
                    Plan::Tear(n, if check.thorough() || len < 90 { t } else { t * len / 89 })
                }
                1 => return Ok(()),
                e => Plan::Fail(n, [28, 5][e - 2]),
            };
            c.note(|| format!("{arg:?} {plan:?} at {:?}", rec.ops[n]));
            let r = follow(&arg, &p, &plan)?;
            c.nontrivial();
            c.transition();
            c.state();
            // What was there and stays is whole; what comes or goes is whole or gone.
            let mut now: BTreeMap<(u64, usize), bool> = BTreeMap::new();
            for k in m.keys().chain(after.keys()) {
                now.insert(*k, m.contains_key(k) && after.contains_key(k));
            }
            logged(&p, &now)?;
            c.outcome((act, n));
            if let Plan::Fail(..) = plan {
                let out = String::from_utf8_lossy(&r.out).into_owned();
                ensure!(r.end == End::Exit(0) && (out.starts_with("err") || out == "ok\n"), "a failing call is not reported as an error: {:?} {out}", r.end);
                if out == "ok\n" {
                    logged(&p, &after).map_err(|e| Fail::new("success is reported although it was not done", format!("{plan:?}: {e:?}")))?;
                }
            }
            let again = follow(&arg, &p, &Plan::Record)?;
            ensure!(again.out == b"ok\n", "the next run fails: {:?} after {plan:?} at {:?}", String::from_utf8_lossy(&again.out), rec.ops[n]);
            logged(&p, &after)
        });
    check.assume("a call that returned is not undone by a crash of the process (power loss is not modelled for these files, which the node does not flush)");
}
