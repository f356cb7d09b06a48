//! I05: the peer store: which addresses it keeps and hands out, whom it bans, and what it saves.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use crashsim::{End, Plan};
use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use tentacle::multiaddr::Multiaddr;
use tentacle::service::{ServiceError, SessionType};

use crate::world::*;

const MIN: u64 = 60_000;
const DAY: u64 = 24 * 3600 * 1000;
const BAN: u64 = 300_000;

/// ip, port, peer: two of one ip, one peer at two places, two peers at one place.
const PLACES: [(u8, u16, u8); 4] = [(1, 1, 1), (1, 2, 2), (2, 1, 1), (1, 1, 3)];

fn place(i: usize) -> Multiaddr {
    let (ip, port, peer) = PLACES[i];
    addr(ip, port, peer)
}

/// What is known of one ip and port.
#[derive(Clone, Debug)]
struct Entry {
    at:       usize,
    last:     u64,
    tried:    u64,
    attempts: u32,
}

#[derive(Clone, Default)]
struct Model {
    now:     u64,
    /// by ip and port
    known:   BTreeMap<(u8, u16), Entry>,
    /// sessions: number, place
    live:    BTreeMap<usize, usize>,
    banned:  BTreeMap<u8, u64>,
}

impl Model {
    fn socket(i: usize) -> (u8, u16) {
        (PLACES[i].0, PLACES[i].1)
    }

    fn is_banned(&self, i: usize) -> bool {
        self.banned.get(&PLACES[i].0).map_or(false, |t| *t > self.now)
    }

    fn hear(&mut self, i: usize, last: u64) {
        if self.is_banned(i) {
            return;
        }
        let e = Entry { at: i, last, tried: 0, attempts: 0 };
        match self.known.get(&Self::socket(i)) {
            Some(old) if last <= old.last => {}
            _ => {
                self.known.insert(Self::socket(i), e);
            }
        }
    }

    fn connected(&self, i: usize) -> bool {
        self.live.values().any(|p| PLACES[*p].2 == PLACES[i].2)
    }

    /// Worth another connection at all.
    fn worth(&self, e: &Entry) -> bool {
        self.now - e.tried <= MIN || !((e.last == 0 && e.attempts >= 3) || (self.now - e.last > 7 * DAY && e.attempts >= 10))
    }

    fn to_dial(&self, e: &Entry) -> bool {
        self.worth(e) && !self.connected(e.at) && self.now - e.last < 3 * DAY && self.now - e.last >= 15_000
    }

    fn to_feel(&self, e: &Entry) -> bool {
        self.worth(e) && !self.connected(e.at) && self.now - e.tried > MIN && self.now - e.last >= 3 * DAY
    }

    fn to_tell(&self, e: &Entry) -> bool {
        self.worth(e) && (self.connected(e.at) || self.now - e.last < 7 * DAY)
    }
}

fn names(it: impl IntoIterator<Item = Multiaddr>) -> Vec<String> {
    it.into_iter().map(|a| a.to_string()).collect()
}

/// Everything the book hands out, in every order it may come to.
fn compare(m: &Model, store: &mut core_network::peer_manager::PeerStore, who: &str) -> Result<(), Fail> {
    let n = m.known.len();
    let kept: BTreeSet<String> = store.addr_manager().addrs_iter().map(|a| a.addr.to_string()).collect();
    let expected: BTreeSet<String> = m.known.values().map(|e| place(e.at).to_string()).collect();
    ensure_eq!(kept, expected, "addresses of {}", who);
    ensure_eq!(store.addr_manager().count(), n, "number of addresses of {}", who);
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..n {
        orders = orders.into_iter().flat_map(|o| (0..n - i).map(move |x| [o.clone(), vec![x]].concat())).collect();
    }
    let kinds: [(&str, fn(&Model, &Entry) -> bool); 3] = [("to dial", Model::to_dial), ("to feel", Model::to_feel), ("to tell", Model::to_tell)];
    for (kind, (name, wanted)) in kinds.into_iter().enumerate() {
        let good: BTreeSet<String> = m.known.values().filter(|e| wanted(m, e)).map(|e| place(e.at).to_string()).collect();
        // of an ip of which every address will do, one has to come
        let mut ips: BTreeMap<u8, bool> = BTreeMap::new();
        for e in m.known.values() {
            let x = ips.entry(PLACES[e.at].0).or_insert(true);
            *x &= wanted(m, e);
        }
        let sure = ips.values().filter(|x| **x).count();
        for count in [1, 10] {
            let fetch = |store: &mut core_network::peer_manager::PeerStore, draws: &[usize]| {
                rand::control::script(draws.iter().copied());
                let got = match kind {
                    0 => store.fetch_addrs_to_attempt(count),
                    1 => store.fetch_addrs_to_feeler(count),
                    _ => store.fetch_random_addrs(count),
                };
                rand::control::stop();
                got
            };
            let mut seen: BTreeSet<String> = BTreeSet::new();
            for o in &orders {
                let got = fetch(store, o);
                let got = names(got.into_iter().map(|a| a.addr));
                ensure!(got.len() <= count, "more addresses than asked for: {} of {}: {:?}", name, count, got);
                for g in &got {
                    ensure!(good.contains(g), "an unfit address is handed out: {} of {}, book {:?}, at {}", g, name, m.known, m.now);
                }
                let at: BTreeSet<&str> = got.iter().map(|g| g.split('/').nth(2).unwrap()).collect();
                ensure!(at.len() == got.len(), "two addresses of one ip: {:?} of {}", got, name);
                ensure!(got.len() >= sure.min(count), "a fit address is not handed out: {} gives {:?} of {:?}, book {:?} at {}", name, got, good, m.known, m.now);
                seen.extend(got);
            }
            // the book shuffles on from where it is: look further for a draw that brings each
            let mut draw = 1u64;
            for _ in 0..400 {
                if seen == good {
                    break;
                }
                let o: Vec<usize> = (0..n)
                    .map(|_| {
                        draw = draw.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        (draw >> 33) as usize
                    })
                    .collect();
                seen.extend(names(fetch(store, &o).into_iter().map(|a| a.addr)));
            }
            ensure!(seen == good, "some fit address never comes up: {} gives {:?} of {:?} in all orders", name, seen, good);
        }
    }
    for p in 1..=3u8 {
        let got: BTreeSet<String> = names(store.fetch_addr_by_peer_id(&id(p))).into_iter().collect();
        let want: BTreeSet<String> = m
            .known
            .values()
            .filter(|e| PLACES[e.at].2 == p && m.worth(e) && m.now - e.last < 3 * DAY && m.now - e.last >= 15_000)
            .map(|e| place(e.at).to_string())
            .collect();
        ensure_eq!(got, want, "addresses of one peer, from {}", who);
    }
    for i in 0..4 {
        ensure_eq!(store.is_addr_banned(&place(i)), m.is_banned(i), "ban of an ip, in {}", who);
    }
    Ok(())
}

fn history(c: &mut Chooser, depth: usize) -> Result<(), Fail> {
    let clock = Clock::start();
    let mut net = Net::new(ME, |f| {
        f.max_connections = 20;
        f.inbound_conn_limit = 10;
    });
    let rt = rt();
    rt.block_on(async {
        let mut m = Model { now: UNIX, ..Default::default() };
        for _ in 0..depth {
            match c.choose(7) {
                0 => break,
                1 => {
                    let i = c.choose(4);
                    c.note(|| format!("hears of {:?}", PLACES[i]));
                    net.store(|b| {
                        let _ = b.add_addr(place(i));
                    });
                    m.hear(i, 0);
                }
                2 => {
                    let i = c.choose(4);
                    c.note(|| format!("has reached {:?}", PLACES[i]));
                    net.store(|b| b.add_outbound_addr(place(i)));
                    m.hear(i, m.now);
                }
                3 => {
                    let i = c.choose(4);
                    if m.connected(i) || m.is_banned(i) {
                        break;
                    }
                    c.note(|| format!("connects with {:?}", PLACES[i]));
                    let s = net.open(PLACES[i].2, place(i), if c.flip() { SessionType::Inbound } else { SessionType::Outbound }).await;
                    ensure!(net.did().is_empty(), "a session in order makes the node do something");
                    m.live.insert(s, i);
                }
                4 => {
                    let keys: Vec<usize> = m.live.keys().copied().collect();
                    if keys.is_empty() {
                        break;
                    }
                    let s = *c.pick(&keys);
                    let i = m.live.remove(&s).unwrap();
                    if c.flip() {
                        c.note(|| format!("{:?} is banned", PLACES[i]));
                        let e = std::io::Error::new(std::io::ErrorKind::Other, "test");
                        net.node.error(ServiceError::ProtocolError { id: s.into(), proto_id: proto(PING), error: e }).await;
                        m.known.remove(&Model::socket(i));
                        m.banned.insert(PLACES[i].0, m.now + BAN);
                        c.nontrivial();
                    }
                    c.note(|| format!("session {} with {:?} ends", s, PLACES[i]));
                    net.close(s).await;
                    net.did();
                }
                5 => {
                    let places: Vec<usize> = m.known.values().map(|e| e.at).collect();
                    if places.is_empty() {
                        break;
                    }
                    let i = *c.pick(&places);
                    let n = *c.pick(&[1u32, 3, 10]);
                    c.note(|| format!("{:?} is tried {} times", PLACES[i], n));
                    for _ in 0..n {
                        let now = m.now;
                        net.store(|b| b.mut_addr_manager().get_mut(&place(i)).unwrap().mark_tried(now));
                    }
                    let e = m.known.get_mut(&Model::socket(i)).unwrap();
                    e.tried = m.now;
                    e.attempts += n;
                    c.nontrivial();
                }
                6 => {
                    let by = *c.pick(&[16_000u64, 61_000, BAN + 1, 4 * DAY, 8 * DAY]);
                    c.note(|| format!("{} s go by", by / 1000));
                    clock.advance(by);
                    m.now += by;
                }
                _ => break,
            }
            c.transition();
        }
        c.state();
        c.outcome((m.known.len(), m.live.len(), m.banned.len()));
        let mut r = Ok(());
        net.store(|b| r = compare(&m, b, "the running node"));
        r?;
        // what another node makes of the files
        net.peers.with_peer_store(|b| b.dump_to_dir(&net.dir.0)).map_err(|e| Fail::new("cannot save the peer store", e.to_string()))?;
        let mut after = core_network::peer_manager::PeerStore::load_from_dir_or_default(&net.dir.0);
        m.live.clear();
        compare(&m, &mut after, "the saved files")
    })
}

/// A full book makes room, and for what.
fn full(c: &mut Chooser) -> Result<(), Fail> {
    const LIMIT: usize = 16_384;
    let clock = Clock::start();
    let net = Net::new(ME, |_| {});
    let id = id(1);
    let at = |n: usize, group: usize| -> Multiaddr {
        let mut a: Multiaddr = format!("/ip4/{}.{}.{}.{}/tcp/4", 40 + group / 200, group % 200, n / 250, n % 250).parse().unwrap();
        a.push(core_network::multiaddr::Protocol::P2P(id.clone().into_bytes().into()));
        a
    };
    // groups of neighbours: how many, and how large
    let layout = *c.pick(&[1usize, 2, 3, 4095, 4096]);
    let hopeless = *c.pick(&[0usize, 1, 5]);
    c.note(|| format!("{} groups, {} addresses not worth a try", layout, hopeless));
    let mut all: Vec<(usize, Multiaddr)> = (0..LIMIT).map(|i| (i % layout, at(i / layout, i % layout))).collect();
    let mut failed = None;
    net.store(|b| {
        for (_, a) in &all {
            if let Err(e) = b.add_addr(a.clone()) {
                failed = Some(e.to_string());
            }
        }
        for i in 0..hopeless {
            for _ in 0..3 {
                b.mut_addr_manager().get_mut(&all[i * 3].1).unwrap().mark_tried(UNIX);
            }
        }
    });
    ensure!(failed.is_none(), "an address is refused although there is room: {:?}", failed);
    clock.advance(2 * MIN);
    let content = || -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        net.store(|b| out = b.addr_manager().addrs_iter().map(|a| a.addr.to_string()).collect());
        out
    };
    ensure_eq!(content().len(), LIMIT, "addresses up to the limit");
    let useless: BTreeSet<String> = (0..hopeless).map(|i| all[i * 3].1.to_string()).collect();
    for round in 0..2 {
        let new = at(20_000 + round, 0);
        let before = content();
        let mut r = Ok(());
        net.store(|b| r = b.add_addr(new.clone()).map_err(|e| e.to_string()));
        let after = content();
        c.transition();
        ensure!(after.len() <= LIMIT, "the book outgrows its limit: {}", after.len());
        let gone: BTreeSet<&String> = before.difference(&after).collect();
        let come: BTreeSet<&String> = after.difference(&before).collect();
        c.outcome((layout, hopeless, round, gone.len(), r.is_ok()));
        if r.is_err() {
            ensure!(gone.is_empty() && come.is_empty(), "a refused address changes the book: {:?} {:?}", gone, come);
            // nothing is hopeless, and no two groups are crowded
            ensure!((hopeless == 0 || round > 0) && (layout == 1 || layout == 4096), "an address is refused although others could go: {:?}", r);
            continue;
        }
        ensure!(come == BTreeSet::from([&new.to_string()]), "the new address is not the only new one: {:?}", come);
        if hopeless > 0 && round == 0 {
            ensure!(gone == useless.iter().collect(), "other addresses went than those not worth a try: {:?} instead of {:?}", gone, useless);
            c.nontrivial();
        } else if before.len() < LIMIT {
            ensure!(gone.is_empty(), "an address went although there was room: {:?}", gone);
        } else {
            ensure!(!gone.is_empty(), "the limit is not kept");
            let mut of: BTreeMap<String, usize> = BTreeMap::new();
            for g in &gone {
                let ip = g.split('/').nth(2).unwrap();
                *of.entry(ip.split('.').take(2).collect::<Vec<_>>().join(".")).or_default() += 1;
            }
            ensure!(of.values().all(|n| *n <= 2), "one neighbourhood loses more than two: {:?}", of);
            ensure!(of.len() <= layout / 2, "more than half of the neighbourhoods lose addresses: {:?}", of);
            c.nontrivial();
        }
    }
    all.clear();
    Ok(())
}

/// The files of one directory: addresses and bans, as a fresh node has them.
type Saved = (BTreeSet<String>, BTreeSet<String>);

fn saved(dir: &Path) -> Saved {
    let b = core_network::peer_manager::PeerStore::load_from_dir_or_default(dir);
    (
        b.addr_manager().addrs_iter().map(|a| format!("{} {}", a.addr, a.last_connected_at_ms)).collect(),
        b.ban_list().get_banned_addrs().iter().map(|b| format!("{} {}", b.address, b.ban_until)).collect(),
    )
}

/// A node with so many addresses and bans saves them.
fn save(dir: &Path, kind: &str) -> Result<(), String> {
    let clock = Clock::start();
    let (known, bans) = match kind {
        "few" => (1, 0),
        "some" => (2, 1),
        _ => (4, 2),
    };
    let mut net = Net::new(ME, |_| {});
    let rt = rt();
    rt.block_on(async {
        clock.advance(kind.len() as u64 * 100_000);
        for i in 0..bans {
            let s = net.open(7 + i, addr(90 + i, 5, 7 + i), SessionType::Inbound).await;
            let e = std::io::Error::new(std::io::ErrorKind::Other, "test");
            net.node.error(ServiceError::ProtocolError { id: s.into(), proto_id: proto(PING), error: e }).await;
        }
        for i in 0..known {
            net.store(|b| b.add_outbound_addr(addr(10 + i, 6, 20 + i)));
        }
    });
    net.peers.with_peer_store(|b| b.dump_to_dir(dir)).map_err(|e| e.to_string())
}

pub fn child() {
    let a: Vec<String> = std::env::args().collect();
    match save(Path::new(&a[2]), &a[3]) {
        Ok(()) => println!("ok"),
        Err(e) => println!("err {e}"),
    }
}

fn crash(c: &mut Chooser) -> Result<(), Fail> {
    let d = Dir::new();
    let root = d.0.clone();
    std::fs::create_dir_all(&root).unwrap();
    let root = root.canonicalize().unwrap();
    let at = root.join("data/peer_store");
    let args = |kind: &str| vec!["--book-child".to_string(), at.display().to_string(), kind.to_string()];
    let (old, new) = *c.pick(&[(None, "some"), (Some("few"), "many"), (Some("many"), "some")]);
    let content = |kind: Option<&str>| -> Result<Saved, Fail> {
        let x = Dir::new();
        if let Some(k) = kind {
            save(&x.0, k).map_err(|e| Fail::new("cannot save the peer store", e))?;
        }
        Ok(saved(&x.0))
    };
    let put = || -> Result<(), Fail> {
        let _ = std::fs::remove_dir_all(root.join("data"));
        match old {
            Some(k) => save(&at, k).map_err(|e| Fail::new("cannot save the peer store", e)),
            None => Ok(()),
        }
    };
    let (before, after) = (content(old)?, content(Some(new))?);
    put()?;
    let rec = crashsim::run(&args(new), &root, &Plan::Record).map_err(|e| format!("cannot follow the process: {e}"))?;
    ensure!(rec.end == End::Exit(0) && rec.out == b"ok\n", "saving fails: {:?} {}", rec.end, String::from_utf8_lossy(&rec.out));
    ensure_eq!(saved(&at), after, "files after a plain run");
    put()?;
    let k = c.choose(rec.ops.len());
    c.transition();
    let plan = match c.choose(5) {
        0 => Plan::KillBefore(k),
        1 if rec.ops[k].call == "write" => Plan::Tear(k, c.choose(rec.ops[k].len + 1)),
        1 => return Ok(()),
        e => Plan::Fail(k, [28, 5, 13][e - 2]),
    };
    c.note(|| format!("{old:?} to {new}: {plan:?} at {:?}", rec.ops[k]));
    let r = crashsim::run(&args(new), &root, &plan).map_err(|e| format!("cannot follow the process: {e}"))?;
    c.nontrivial();
    c.state();
    let now = saved(&at);
    c.outcome((k, now.0 == after.0, now.1 == after.1));
    ensure!(now.0 == before.0 || now.0 == after.0, "the saved addresses are neither the old nor the new ones: {:?} after {:?} at {:?}", now.0, plan, rec.ops[k]);
    ensure!(now.1 == before.1 || now.1 == after.1, "the saved bans are neither the old nor the new ones: {:?} after {:?} at {:?}", now.1, plan, rec.ops[k]);
    if matches!(plan, Plan::Fail(..)) {
        let out = String::from_utf8_lossy(&r.out).into_owned();
        ensure!(r.end == End::Exit(0), "a failing call brings the node down: {:?} {}", r.end, out);
        ensure!(out != "ok\n" || now == after, "success is reported although not all is saved: {:?} at {:?}", plan, rec.ops[k]);
    }
    for kind in ["few", "many"] {
        save(&at, kind).map_err(|e| Fail::new("the next save fails", format!("{e} after {plan:?} at {:?}", rec.ops[k])))?;
        ensure_eq!(saved(&at), content(Some(kind))?, "files after the next save");
    }
    Ok(())
}

pub fn run(check: &Check) {
    let depth = check.by_tier(4, 5);
    check
        .part(
            "history",
            "an address was tried, or a peer banned",
            &format!(
                "all histories of up to {depth} events: one of four addresses (one ip with two ports, one peer at two ips, two peers at one ip and port) is \
                 heard of, reached, connected, tried once, three or ten times, banned or left, or 16 s, 61 s, 301 s, 4 d or 8 d pass; then every order in which \
                 the addresses can be drawn, for one and ten addresses, and the same from the saved files"
            ),
        )
        .explore(|c| history(c, depth));
    check
        .part(
            "full book",
            "an address had to make room",
            "a book of 16,384 addresses in 1, 2, 3, 4095 or 4096 neighbourhoods with 0, 1 or 5 addresses not worth a try; two more addresses",
        )
        .serial()
        .explore(full);
    check
        .part(
            "crash of a save",
            "the process died or a call failed in the middle of saving",
            "every file-system call of a save: the process killed before it, torn at every length for writes, or the call failing with ENOSPC, EIO or EACCES; from \
             nothing, from a shorter and from a longer book; then two further saves",
        )
        .explore(crash);
    check.assume("the clocks and the random draws are those of the harness");
    check.assume("a call that returned is not undone by a crash of the process (power loss is not modelled)");
}
