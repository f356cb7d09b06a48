//! K03: announcing a hardfork.
use common_config_parser::types::spec::HardforkName;
use mc::{ensure, Check, Chooser, Fail};
use node::{val, Disk};
use protocol::traits::{Context, Storage};
use protocol::types::*;
use rocksdb::control;

use crate::init::{block_of, init, path, place, spec};
use crate::start::extend;
use crate::world::*;

fn bits(n: u64) -> H256 {
    H256::from_low_u64_be(n.to_be())
}

fn announces(c: &mut Chooser) -> Result<(), Fail> {
    let active = c.choose(2);
    let tip = *c.pick(&[0u64, 1, 3]);
    let before = c.choose(2) == 1;
    let asked = c.choose(2) == 1;
    let (number, flags) = if asked { (*c.pick(&[0, tip.saturating_sub(1), tip, tip + 1, tip + 5, u64::MAX]), *c.pick(&[0u64, 1, 2, 3, 1 << 63])) } else { (0, 0) };
    c.note(|| format!("Andromeda is {}, tip {tip}, announced before: {before}, asked: {asked}, at {number}, flags {flags:#x}", ["not there", "active"][active]));
    let dir = Dir::new();
    let forks = if active == 1 { vec![HardforkName::Andromeda] } else { vec![HardforkName::None] };
    init(&dir, &spec(&[val(0, 1, 1)], forks, &[(10, 1000.into())], 1, 4)).map_err(|e| Fail::new("a chain cannot be begun", e))?;
    place(&dir);
    extend(&path(&dir), block_of(&dir), tip);
    let old = HardforkInfoInner { block_number: tip + 9, flags: bits(4) };
    if before {
        let disk = Disk::open(path(&dir));
        node::rt().block_on(disk.storage.set_hardfork_proposal(Context::new(), old.clone())).unwrap();
    }
    let was = control::dump(&path(&dir));
    let info = HardforkInfoInner { block_number: number, flags: bits(flags) };
    c.transition();
    let r = core_run::set_hardfork_info(config(&dir, 0, (false, false)), asked.then(|| info.clone()));
    let late = asked && number <= tip;
    ensure!(r.is_err() == late, "a hardfork at {} is {} after block {}: {:?}", number, if late { "accepted" } else { "refused" }, tip, r);
    let news = asked && !late && flags != 0 && flags & active as u64 != flags;
    let expect = if news {
        c.nontrivial();
        Some(info)
    } else {
        ensure!(control::dump(&path(&dir)) == was, "nothing was announced, but what is stored changes");
        before.then_some(old)
    };
    let now = control::dump(&path(&dir));
    let changed: usize = now.iter().map(|(k, m)| m.iter().filter(|(x, v)| was.get(k).and_then(|m| m.get(*x)) != Some(v)).count()).sum();
    let lost: usize = was.iter().map(|(k, m)| m.keys().filter(|x| !now.get(k).is_some_and(|m| m.contains_key(*x))).count()).sum();
    ensure!(changed == usize::from(news) && lost == 0, "an announcement changes {} and removes {} records", changed, lost);
    let want = expect.clone();
    let (r, seen) = run_node(config(&dir, 0, (true, false)), None, move |s, _| async move {
        let shown = s.node_info.hardfork_proposals.read().unwrap().clone();
        (shown, ask(HTTP, "axon_getHardforkInfo", "[]").await)
    });
    ensure!(r.is_ok(), "the node does not start after an announcement: {:?}", r.err().map(|e| e.to_string()));
    let (shown, told) = seen.ok_or_else(|| Fail::new("the consensus is not started", String::new()))?;
    ensure!(shown == want, "the node announces {:?} instead of {:?}", shown, want);
    let status = if active == 1 {
        "{\"Andromeda\":\"enabled\"}"
    } else if want.is_some_and(|i| i.flags.as_bytes()[24] & 1 == 1) {
        "{\"Andromeda\":\"proposed\"}"
    } else {
        "{}"
    };
    ensure!(told == status, "users are told {} instead of {}", told, status);
    c.outcome((late, news));
    Ok(())
}

fn nowhere(c: &mut Chooser) -> Result<(), Fail> {
    let dir = Dir::new();
    let info = c.flip().then(|| HardforkInfoInner { block_number: 5, flags: bits(1) });
    let empty = c.flip();
    if empty {
        c.nontrivial();
        place(&dir);
    }
    c.transition();
    let r = core_run::set_hardfork_info(config(&dir, 0, (false, false)), info);
    ensure!(r.is_err(), "a hardfork is announced where there is no chain");
    ensure!(empty || !path(&dir).exists(), "an announcement makes a directory");
    c.outcome(empty);
    Ok(())
}

pub fn run(check: &Check) {
    check
        .part(
            "announce",
            "a hardfork is announced",
            "chains with Andromeda active or not, of 0, 1 or 3 blocks x something announced before or not x nothing asked, or six heights x five sets of flags",
        )
        .serial()
        .explore(announces);
    check.part("nowhere", "the directory is empty", "no directory or an empty one x something asked or nothing").serial().explore(nowhere);
}
