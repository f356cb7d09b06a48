//! B05: the gate that keeps an incompatible version away from a data directory.

use std::cmp::Ordering;
use std::path::Path;

use common_version::Version;
use crashsim::{End, Plan};
use mc::{ensure, ensure_eq, Check, Outcome};

pub fn child() {
    let a: Vec<String> = std::env::args().collect();
    let r = crate::utils::check_version(Path::new(&a[2]), &a[3].parse().unwrap(), Version::new(&a[4]));
    match r {
        Ok(()) => println!("ok"),
        Err(crate::Error::CheckingVersion(e)) => println!("old {}", e),
        Err(e) => println!("err {e}"),
    }
}

/// Semantic-version precedence, written from its specification.
fn precedence(a: &str, b: &str) -> Ordering {
    let split = |s: &str| -> (Vec<u64>, Option<Vec<String>>) {
        let s = s.split('+').next().unwrap();
        let (core, pre) = match s.split_once('-') {
            Some((c, p)) => (c, Some(p.split('.').map(str::to_string).collect())),
            None => (s, None),
        };
        (core.split('.').map(|x| x.parse().unwrap()).collect(), pre)
    };
    let (ca, pa) = split(a);
    let (cb, pb) = split(b);
    ca.cmp(&cb).then_with(|| match (pa, pb) {
        (None, None) => Ordering::Equal,
        (None, Some(_)) => Ordering::Greater,
        (Some(_), None) => Ordering::Less,
        (Some(x), Some(y)) => {
            for (i, j) in x.iter().zip(&y) {
                let o = match (i.parse::<u64>(), j.parse::<u64>()) {
                    (Ok(m), Ok(n)) => m.cmp(&n),
                    (Ok(_), Err(_)) => Ordering::Less,
                    (Err(_), Ok(_)) => Ordering::Greater,
                    _ => i.cmp(j),
                };
                if o != Ordering::Equal {
                    return o;
                }
            }
            x.len().cmp(&y.len())
        }
    })
}

const VERSIONS: [&str; 14] = [
    "0.0.9", "0.1.0-alpha", "0.1.0-alpha.9", "0.1.0-alpha.10", "0.1.0-beta", "0.1.0-beta.1", "0.1.0-beta.2", "0.1.0-beta.10",
    "0.1.0-rc.1", "0.1.0", "0.1.9", "0.1.10", "0.2.0-alpha", "10.0.0",
];
const MALFORMED: [&str; 9] = ["0.1", "v0.1.0", "0.1.0\n", " 0.1.0", "0.1.0-", "0.1.0+", "garbage", "01.2.3", "99999999999999999999.0.0"];

fn scratch() -> tempfile::TempDir {
    tempfile::Builder::new().prefix("mc-gate").tempdir().expect("scratch directory")
}

fn content(p: &Path) -> Option<String> {
    std::fs::read(p).ok().map(|b| String::from_utf8_lossy(&b).into_owned())
}

pub fn gate(check: &Check) {
    check
        .part(
            "versions",
            "a pair of versions of which one may be older",
            "all ordered pairs of 19 versions around pre-release and numeric boundaries, each with no commit id and four of different forms; all malformed texts",
        )
        .explore(|c| {
            let more = ["0.1.4294967296", "0.1.0-beta.4294967297", "1.0.0-alpha.beta.1", "256.65536.0", "0.1.0-Beta"];
            let all: Vec<&str> = VERSIONS.iter().chain(&more).copied().collect();
            let a = *c.pick(&all);
            let b = *c.pick(&all);
            let ids = ["unknown", "3c54a5e", "0123", "3C54A5E-dirty", "0123456789abcdef0123456789abcdef01234567"];
            let (ia, ib) = (*c.pick(&ids), *c.pick(&ids));
            c.nontrivial();
            c.outcome((a, b, ia, ib));
            let va = Version::new_with_commit_id(a, ia);
            let vb = Version::new_with_commit_id(b, ib);
            ensure_eq!(va.to_string(), format!("{a}+{ia}"), "text of a version");
            ensure_eq!(va.commit_id(), ia.to_lowercase(), "commit id");
            let back: Version = va.to_string().parse().map_err(|e| format!("text does not parse: {e}"))?;
            ensure_eq!(back, va, "version read back");
            ensure_eq!(Version::new(a).to_string(), format!("{a}+unknown"), "version without commit");
            ensure_eq!(Version::new(a).cmp(&Version::new(b)), precedence(a, b), "order of {a} and {b}");
            if precedence(a, b) != Ordering::Equal {
                ensure_eq!(va.cmp(&vb), precedence(a, b), "order of {a} and {b} with commits");
            }
            Ok(())
        });
    check
        .part("malformed-versions", "the text is no version", "nine malformed texts and every truncation of a version with all parts")
        .explore(|c| {
            let full = "1.2.3-beta.1+3c54a5e";
            let i = c.choose(MALFORMED.len() + full.len() + 1);
            let t = if i < MALFORMED.len() { MALFORMED[i].to_string() } else { full[..i - MALFORMED.len()].to_string() };
            let r = mc::no_panic(|| t.parse::<Version>().is_ok()).map_err(|e| format!("parsing panics: {t:?}: {e}"))?;
            c.nontrivial();
            c.outcome((r, i));
            ensure_eq!(r, semver::Version::parse(&t).is_ok() , "accepts {t:?}");
            if i < MALFORMED.len() {
                ensure!(!r || t == "garbage" && false, "accepts {t:?}");
            }
            Ok(())
        });

    // Histories: what one run leaves is what the next one finds.
    let steps = check.by_tier(2, 3);
    check
        .part(
            "gate-histories",
            "the directory was used before",
            "first content of the version file (absent, in an absent directory, empty, each version with and without commit id, each malformed text), \
             then every sequence of runs up to the stated length, each of any version with any minimum",
        )
        .explore(|c| {
            let dir = scratch();
            let sub = c.flip();
            let p = if sub { dir.path().join("a/b/axon.ver") } else { dir.path().join("axon.ver") };
            let first = c.choose(2 + 2 * VERSIONS.len() + MALFORMED.len());
            let mut now: Option<String> = None;
            if first > 0 {
                let t = match first {
                    1 => String::new(),
                    k if k < 2 + VERSIONS.len() => VERSIONS[k - 2].to_string(),
                    k if k < 2 + 2 * VERSIONS.len() => format!("{}+3c54a5e", VERSIONS[k - 2 - VERSIONS.len()]),
                    k => MALFORMED[k - 2 - 2 * VERSIONS.len()].to_string(),
                };
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(&p, &t).unwrap();
                now = Some(t);
            }
            let n = if first == 0 || sub { 1 } else { 1 + c.choose(steps) };
            let few = ["0.1.0-alpha.9", "0.1.0-beta.1", "0.1.0", "0.2.0-alpha"];
            for s in 0..n {
                let cur = format!("{}+{}", if s == 0 { *c.pick(&VERSIONS) } else { *c.pick(&few) }, ["unknown", "3c54a5e"][s % 2]);
                let least = if s == 0 { *c.pick(&VERSIONS) } else { *c.pick(&few) };
                c.note(|| format!("file {now:?}, run {cur}, minimum {least}"));
                let r = mc::no_panic(|| crate::utils::check_version(&p, &cur.parse().unwrap(), Version::new(least)));
                let old = now.clone().unwrap_or_default();
                let known = old.is_empty() || semver::Version::parse(&old).is_ok();
                let refuse = !old.is_empty() && (!known || precedence(&old, least) == Ordering::Less);
                if !old.is_empty() {
                    c.nontrivial();
                }
                c.outcome((refuse, known));
                if refuse {
                    ensure!(!matches!(r, Ok(Ok(()))), "an incompatible directory is used: {old:?} with minimum {least}");
                    ensure_eq!(content(&p), now, "a refused directory is changed");
                    if known {
                        match r {
                            Ok(Err(crate::Error::CheckingVersion(e))) => {
                                let t = e.to_string();
                                for x in [old.split('+').next().unwrap(), least, cur.as_str()] {
                                    ensure!(t.contains(x), "the refusal does not name {x}: {t}");
                                }
                            }
                            other => return Err(format!("refusal of another kind: {:?}", other.map(|r| r.map_err(|e| e.to_string()))).into()),
                        }
                    }
                    break;
                }
                match r {
                    Ok(Ok(())) => {}
                    other => return Err(format!("a compatible directory is refused: {old:?} minimum {least}: {:?}", other.map(|r| r.map_err(|e| e.to_string()))).into()),
                }
                now = Some(cur);
                ensure_eq!(content(&p), now, "version file after the run");
                let others = crashsim::snapshot(p.parent().unwrap());
                ensure!(others.len() == 1, "files left behind: {others:?}");
            }
            Ok(())
        });
    check
        .part("minimum", "the version is on one side of the minimum", "the node's own minimum against all versions")
        .explore(|c| {
            let v = *c.pick(&VERSIONS);
            let least = crate::utils::latest_compatible_version();
            c.nontrivial();
            c.outcome(v);
            ensure_eq!(Version::new(v) < least, precedence(v, "0.1.0-beta.1") == Ordering::Less, "{v} against the node's minimum");
            Ok(())
        });

    // Crash points and failing calls of the real update, followed at system-call level.
    check
        .part(
            "gate-crashes",
            "the process dies, or a call fails, in the middle of the update",
            "every file-system call of the update: the process killed before it, torn at every length for writes, or the call failing with ENOSPC, EIO or \
             EACCES; file absent (with and without directory), empty, shorter, longer; then a second complete run",
        )
        .explore(|c| {
            let dir = scratch();
            let root = dir.path().canonicalize().unwrap();
            let olds = [None, Some(""), Some("0.1.0+3c54a5e"), Some("0.1.0-beta.1+0123456789abcdef0123456789abcdef01234567")];
            let old = *c.pick(&olds);
            let p = if old.is_none() && c.flip() { root.join("a/b/axon.ver") } else { root.join("axon.ver") };
            let put = || {
                if let Some(o) = old {
                    std::fs::write(&p, o).unwrap();
                }
            };
            let new = "0.2.0-alpha+1234567".to_string();
            let args = |p: &Path| vec!["--gate-child".to_string(), p.display().to_string(), new.clone(), "0.1.0-beta.1".to_string()];
            put();
            let rec = crashsim::run(&args(&p), &root, &Plan::Record).map_err(|e| format!("cannot follow the process: {e}"))?;
            ensure!(rec.end == End::Exit(0) && rec.out == b"ok\n", "the plain run fails: {:?}", rec.end);
            ensure_eq!(content(&p), Some(new.clone()), "plain run");
            let _ = std::fs::remove_dir_all(root.join("a"));
            let _ = std::fs::remove_file(&p);
            for (f, _) in crashsim::snapshot(&root) {
                return Err(format!("file left behind: {f:?}").into());
            }
            put();
            let k = c.choose(rec.ops.len());
            c.transition();
            let plan = match c.choose(5) {
                0 => Plan::KillBefore(k),
                1 if rec.ops[k].call == "write" => Plan::Tear(k, c.choose(rec.ops[k].len + 1)),
                1 => return Ok(()),
                e => Plan::Fail(k, [libc_errno::ENOSPC, libc_errno::EIO, libc_errno::EACCES][e - 2]),
            };
            c.note(|| format!("{plan:?} at {:?}", rec.ops[k]));
            let r = crashsim::run(&args(&p), &root, &plan).map_err(|e| format!("cannot follow the process: {e}"))?;
            c.nontrivial();
            c.state();
            let after = content(&p);
            let (is_old, is_new) = (after.as_deref() == old, after.as_deref() == Some(new.as_str()));
            c.outcome((k, is_old, is_new));
            ensure!(is_old || is_new, "the version file is neither old nor new: {after:?} after {plan:?} at {:?}", rec.ops[k]);
            if matches!(plan, Plan::Fail(..)) {
                let out = String::from_utf8_lossy(&r.out).into_owned();
                ensure!(r.end == End::Exit(0) && (out.starts_with("err") || out == "ok\n"), "a failing call is not reported as an error: {:?} {out}", r.end);
                ensure!(out != "ok\n" || is_new, "success is reported although the file was not written: {plan:?} at {:?}", rec.ops[k]);
            }
            let again = crashsim::run(&args(&p), &root, &Plan::Record).map_err(|e| format!("cannot follow the process: {e}"))?;
            ensure!(again.out == b"ok\n", "the next run fails: after {plan:?} at {:?}", rec.ops[k]);
            ensure_eq!(content(&p), Some(new.clone()), "next run");
            Ok(())
        });
    check.assume("a call that returned is not undone by a crash of the process (power loss is not modelled for this file)");
    let _: Option<Outcome> = None;
}

mod libc_errno {
    pub const ENOSPC: i32 = 28;
    pub const EIO: i32 = 5;
    pub const EACCES: i32 = 13;
}
