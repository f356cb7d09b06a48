//! I06: pings, and what nodes tell one another of addresses.
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::traits::{Context, Network, PeerTag};
use protocol::types::Bytes as PBytes;
use tentacle::bytes::Bytes;
use tentacle::multiaddr::Multiaddr;
use tentacle::service::SessionType;

use crate::world::pb::{self, M};
use crate::world::*;

fn gone(did: &[Did]) -> Vec<usize> {
    let mut v: Vec<usize> = did.iter().filter_map(|d| if let Did::Disconnect(s) = d { Some(*s) } else { None }).collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// The messages of one protocol, and to whom; nothing but these and ends of sessions may have happened.
fn sent(did: &[Did], p: usize) -> Result<Vec<(Vec<usize>, Bytes)>, Fail> {
    let mut out = vec![];
    for d in did {
        match d {
            Did::Send { to, proto, data, .. } if *proto == p => out.push((to.clone(), data.clone())),
            Did::Disconnect(_) => {}
            d => return Err(Fail::new("the node does something else", format!("{:?}", d))),
        }
    }
    Ok(out)
}

fn ty(inbound: bool) -> SessionType {
    if inbound {
        SessionType::Inbound
    } else {
        SessionType::Outbound
    }
}

fn ping(c: &mut Chooser, depth: usize) -> Result<(), Fail> {
    let clock = Clock::start();
    let mut net = Net::new(ME, |f| {
        f.ping_interval = Duration::from_secs(15);
        f.ping_timeout = Duration::from_secs(30);
    });
    let rt = rt();
    rt.block_on(async {
        net.node.init().await;
        let mut tokens = BTreeMap::new();
        for d in net.did() {
            if let Did::Notify { proto: PING, secs, token } = d {
                tokens.insert(secs, token);
            }
        }
        ensure!(tokens.len() == 2 && tokens.contains_key(&15) && tokens.contains_key(&30), "pings are not sent and watched as configured: {:?}", tokens);
        let mut now = 0u64;
        // sessions, and the ping they have not answered
        let mut waits: BTreeMap<usize, Option<(u64, u64)>> = BTreeMap::new();
        let mut last: Option<u64> = None;
        for i in 1..=2u8 {
            let s = net.open(i, addr(i, 1000, i), ty(i == 1)).await;
            net.connect(s, PING).await;
            waits.insert(s, None);
        }
        ensure!(net.did().is_empty(), "a new session makes the node act");
        for _ in 0..depth {
            let mut leave: Vec<usize> = vec![];
            let mut answer: Vec<(usize, u64)> = vec![];
            let mut asked: BTreeSet<usize> = BTreeSet::new();
            match c.choose(9) {
                0 => break,
                1 => {
                    c.note(|| "time to ping".to_string());
                    asked = waits.iter().filter(|w| w.1.is_none()).map(|w| *w.0).collect();
                    net.node.notify(proto(PING), tokens[&15]).await;
                }
                2 => {
                    c.note(|| "time to look for timeouts".to_string());
                    leave = waits.iter().filter(|w| w.1.map_or(false, |x| now - x.1 >= 30)).map(|w| *w.0).collect();
                    net.node.notify(proto(PING), tokens[&30]).await;
                }
                3 => {
                    let by = *c.pick(&[15u64, 29, 31]);
                    c.note(|| format!("{} s pass", by));
                    clock.advance(by * 1000);
                    now += by;
                    c.transition();
                    continue;
                }
                4 => {
                    // a session comes
                    let p = 3 + waits.len() as u8 + now as u8 % 100;
                    if waits.len() > 2 {
                        break;
                    }
                    let s = net.open(p, addr(p, 1000, p), ty(true)).await;
                    c.note(|| format!("session {} comes", s));
                    net.connect(s, PING).await;
                    waits.insert(s, None);
                }
                k => {
                    let keys: Vec<usize> = waits.keys().copied().collect();
                    if keys.is_empty() {
                        break;
                    }
                    let s = *c.pick(&keys);
                    match k {
                        5 => {
                            // the answer to the last ping, or to none
                            let right = c.flip();
                            let n = match (right, last) {
                                (true, Some(n)) => n,
                                (true, None) => break,
                                (false, n) => n.unwrap_or(0) + 1,
                            };
                            c.note(|| format!("session {} answers {}", s, n));
                            net.receive(s, PING, Bytes::from(M::default().n(2, n).0)).await;
                            let w = waits.get_mut(&s).unwrap();
                            match w {
                                Some((x, _)) if *x == n => *w = None,
                                _ => leave.push(s),
                            }
                        }
                        6 => {
                            let n = *c.pick(&[0u64, 1, 0xffff_ffff]);
                            c.note(|| format!("session {} asks {}", s, n));
                            net.receive(s, PING, Bytes::from(M::default().n(1, n).0)).await;
                            answer.push((s, n));
                        }
                        7 => {
                            let junk: [&[u8]; 3] = [&[], &[0xff], &[0x18, 5]];
                            let j = *c.pick(&junk);
                            c.note(|| format!("session {} sends {:?}", s, j));
                            net.receive(s, PING, Bytes::copy_from_slice(j)).await;
                        }
                        _ => {
                            c.note(|| format!("session {} ends", s));
                            waits.remove(&s);
                            net.close(s).await;
                        }
                    }
                }
            }
            c.transition();
            let did = net.did();
            let off = gone(&did);
            ensure!(off == leave, "a session is {}: disconnected {:?}, should be {:?}, waiting {:?} at {}", if off.len() > leave.len() { "sent away that may stay" } else { "kept that must go" }, off, leave, waits, now);
            let mut pings: BTreeSet<usize> = BTreeSet::new();
            let mut pongs = vec![];
            for (to, data) in sent(&did, PING)? {
                match (pb::number_of(&data, 1), pb::number_of(&data, 2)) {
                    (Some(n), None) => {
                        for s in to {
                            ensure!(pings.insert(s), "a session is asked twice: {}", s);
                            waits.insert(s, Some((n, now)));
                        }
                        last = Some(n);
                    }
                    (None, Some(n)) => pongs.extend(to.into_iter().map(|s| (s, n))),
                    _ => return Err(Fail::new("a message that is none is sent", format!("{:?}", data))),
                }
            }
            ensure!(pings == asked, "the wrong sessions are asked: {:?} instead of {:?}", pings, asked);
            ensure!(pongs == answer, "a ping is not answered in kind: {:?} instead of {:?}", pongs, answer);
            if !leave.is_empty() {
                c.nontrivial();
            }
            for s in leave {
                waits.remove(&s);
                net.close(s).await;
            }
        }
        c.outcome((waits.len(), waits.values().filter(|w| w.is_some()).count()));
        Ok(())
    })
}

fn nodes(announce: bool, items: &[Vec<Vec<u8>>]) -> Bytes {
    let mut m = M::default();
    if announce {
        m = m.n(1, 1);
    }
    for i in items {
        m = m.m(2, i.iter().fold(M::default(), |m, a| m.b(1, a)));
    }
    Bytes::from(M::default().m(2, m).0)
}

fn get_nodes(version: u64, count: u64, port: Option<u64>) -> Bytes {
    let mut m = M::default().n(1, version).n(2, count);
    if let Some(p) = port {
        m = m.n(3, p);
    }
    Bytes::from(M::default().m(1, m).0)
}

/// Announce flag and items, as plain text.
fn read_nodes(data: &[u8]) -> Result<(bool, Vec<Vec<String>>), Fail> {
    let all = pb::bytes_of(data, 2);
    ensure!(all.len() == 1 && pb::bytes_of(data, 1).is_empty(), "not a list of nodes: {:?}", data);
    let mut items = vec![];
    for i in pb::bytes_of(&all[0], 2) {
        let mut v = vec![];
        for a in pb::bytes_of(&i, 1) {
            v.push(Multiaddr::try_from(a).map_err(|e| Fail::new("an address that is none is sent", e.to_string()))?.to_string());
        }
        items.push(v);
    }
    Ok((pb::number_of(&all[0], 1) == Some(1), items))
}

fn book(net: &Net) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    net.store(|b| out = b.addr_manager().addrs_iter().map(|a| a.addr.to_string()).collect());
    out
}

fn asked(c: &mut Chooser) -> Result<(), Fail> {
    let clock = Clock::start();
    let inbound = c.flip();
    let public = c.flip();
    let version = c.choose(2) as u64;
    let count = *c.pick(&[0u64, 1, 2, 1000, 0xffff_ffff]);
    let port = *c.pick(&[None, Some(4321u64), Some(65_536 + 4321)]);
    let large = c.flip();
    c.note(|| format!("asked: inbound {inbound}, public {public}, version {version}, count {count}, port {port:?}, large book {large}"));
    let mut net = Net::new(ME, |_| {});
    let rt = rt();
    rt.block_on(async {
        // told: reached lately, or connected; not told: heard of only, reached long ago, private
        let mut fit = BTreeSet::new();
        net.store(|b| b.add_outbound_addr(addr(20, 1, 20)));
        clock.advance(8 * 24 * 3600 * 1000);
        for a in [addr(1, 1, 31), addr(2, 1, 32)] {
            fit.insert(a.to_string());
            net.store(|b| b.add_outbound_addr(a.clone()));
        }
        net.store(|b| b.add_outbound_addr(with_id("/ip4/10.0.0.9/tcp/1", 33)));
        net.store(|b| {
            let _ = b.add_addr(addr(21, 1, 34));
        });
        net.store(|b| {
            let _ = b.add_addr(addr(3, 1, 35));
        });
        net.open(35, addr(3, 1, 35), SessionType::Outbound).await;
        fit.insert(addr(3, 1, 35).to_string());
        if large {
            for i in 0..1100u32 {
                let a = with_id(&format!("/ip4/52.{}.{}.1/tcp/1", i / 200, i % 200), 36);
                fit.insert(a.to_string());
                net.store(|b| b.add_outbound_addr(a.clone()));
            }
        }
        let text = if public { "/ip4/47.50.3.7" } else { "/ip4/10.1.2.3" };
        let theirs = with_id(&format!("{text}/tcp/999"), 50);
        let s = net.open(50, theirs.clone(), ty(inbound)).await;
        net.connect(s, DISCOVERY).await;
        let first = sent(&net.did(), DISCOVERY)?;
        if inbound {
            ensure!(first.is_empty(), "we ask a peer that came to us: {:?}", first);
        } else {
            ensure!(first.len() == 1 && first[0].0 == vec![s], "we do not ask the peer we connected to once: {:?}", first);
            let q = pb::bytes_of(&first[0].1, 1);
            ensure!(q.len() == 1 && pb::number_of(&q[0], 2) == Some(1000), "we ask for another number of addresses: {:?}", first);
        }
        let before = book(&net);
        net.receive(s, DISCOVERY, get_nodes(version, count, port)).await;
        c.transition();
        let did = net.did();
        ensure!(gone(&did).is_empty(), "who asks first is sent away: {:?}", gone(&did));
        let got = sent(&did, DISCOVERY)?;
        ensure!(got.len() == 1 && got[0].0 == vec![s], "a question for addresses is not answered once: {} answers", got.len());
        let (announce, items) = read_nodes(&got[0].1)?;
        ensure!(!announce && items.iter().all(|i| i.len() == 1), "an answer of another form: {:?}", items);
        let told: BTreeSet<String> = items.iter().map(|i| i[0].clone()).collect();
        ensure!(told.len() == items.len(), "an address is told twice: {:?}", items);
        let strange: Vec<_> = told.difference(&fit).collect();
        ensure!(strange.is_empty(), "addresses are told that must not be: {:?}", strange);
        let want = (count as usize).min(1000).min(fit.len());
        ensure_eq!(told.len(), want, "number of addresses told");
        c.nontrivial();
        c.outcome((told.len(), inbound, public));
        // what we know of the asker now
        let after = book(&net);
        ensure!(before.is_subset(&after), "a question removes addresses: {:?}", before.difference(&after).collect::<Vec<_>>());
        let new: BTreeSet<String> = after.difference(&before).cloned().collect();
        let moved = with_id(&format!("{text}/tcp/4321"), 50).to_string();
        let listens = if inbound { (port == Some(4321)).then(|| moved.clone()) } else { port.map(|_| theirs.to_string()) };
        if public {
            let mut expect = BTreeSet::new();
            if let Some(l) = listens.clone() {
                if inbound || port == Some(4321) {
                    expect.insert(l);
                }
            }
            if version >= 1 {
                expect.insert(if inbound && port == Some(4321) { moved } else { theirs.to_string() });
            }
            ensure!(new == expect, "the address of who asks is not kept as it should be: {:?} instead of {:?}", new, expect);
        } else if version == 0 {
            ensure!(new.is_empty(), "a private address is kept: {:?}", new);
        }
        // once only
        net.receive(s, DISCOVERY, get_nodes(version, count, port)).await;
        let did = net.did();
        ensure!(gone(&did) == vec![s] && sent(&did, DISCOVERY)?.is_empty(), "a second question is not the end: {:?}", gone(&did));
        Ok(())
    })
}

/// Addresses of which some are good.
fn some_addresses(kind: usize) -> Vec<(Vec<u8>, bool)> {
    let a = |x: Multiaddr, good: bool| (x.to_vec(), good);
    match kind {
        0 => vec![],
        1 => vec![a(addr(1, 1, 1), true)],
        2 => vec![a(addr(1, 1, 1), true), a(addr(2, 1, 1), true), a(with_id("/ip4/127.0.0.1/tcp/1", 2), false)],
        3 => vec![a(with_id("/ip4/192.168.0.1/tcp/1", 3), false), a("/ip4/47.9.9.9/tcp/1".parse().unwrap(), false), (b"nonsense".to_vec(), false)],
        4 => vec![(vec![], false), a(with_id("/ip4/10.0.0.1/tcp/7", 5), false), a(addr(5, 5, 5), true)],
        _ => vec![a(addr(1, 1, 1), true), a(addr(2, 1, 2), true), a(addr(3, 1, 3), true), a(addr(4, 1, 4), true)],
    }
}

fn told(c: &mut Chooser, depth: usize) -> Result<(), Fail> {
    let _clock = Clock::start();
    let inbound = c.flip();
    let mut net = Net::new(ME, |_| {});
    let rt = rt();
    rt.block_on(async {
        let s = net.open(50, addr(50, 50, 50), ty(inbound)).await;
        net.connect(s, DISCOVERY).await;
        net.did();
        let mut known: BTreeSet<String> = BTreeSet::new();
        let mut answered = false;
        for _ in 0..depth {
            let mut leave;
            match c.choose(4) {
                0 => break,
                1 => {
                    let announce = c.flip();
                    let kind = c.choose(6);
                    let (n, limit) = (*c.pick(&[0usize, 1, 10, 11, 1000, 1001]), if announce { 10 } else { 1000 });
                    if n == 0 && kind > 0 {
                        break;
                    }
                    c.note(|| format!("announce {announce}, {n} items, first of kind {kind}"));
                    let mut items: Vec<Vec<(Vec<u8>, bool)>> = vec![];
                    for i in 0..n {
                        items.push(match i {
                            0 => some_addresses(kind),
                            _ => vec![(with_id(&format!("/ip4/60.{}.{}.1/tcp/1", i / 200, i % 200), 9).to_vec(), true)],
                        });
                    }
                    let plain: Vec<Vec<Vec<u8>>> = items.iter().map(|i| i.iter().map(|a| a.0.clone()).collect()).collect();
                    net.receive(s, DISCOVERY, nodes(announce, &plain)).await;
                    leave = n > limit || plain.iter().any(|i| i.len() > 3) || (!announce && answered);
                    if !leave {
                        for (a, good) in items.into_iter().flatten() {
                            if good {
                                known.insert(Multiaddr::try_from(a).unwrap().to_string());
                            }
                        }
                        answered |= !announce;
                    }
                }
                2 => {
                    let junk: [&[u8]; 2] = [&[0xff, 0xff], &[0x12, 9, 1]];
                    let j = *c.pick(&junk);
                    c.note(|| format!("sends {:?}", j));
                    net.receive(s, DISCOVERY, Bytes::copy_from_slice(j)).await;
                    leave = true;
                }
                _ => {
                    c.note(|| "sends an empty message".to_string());
                    net.receive(s, DISCOVERY, Bytes::new()).await;
                    leave = false;
                }
            }
            c.transition();
            let did = net.did();
            ensure!(sent(&did, DISCOVERY)?.is_empty(), "news is answered: {:?}", did);
            ensure!(gone(&did) == if leave { vec![s] } else { vec![] }, "a peer {}: {:?}", if leave { "may stay that misbehaves" } else { "that behaves is sent away" }, did);
            ensure_eq!(book(&net), known, "addresses kept");
            c.nontrivial();
            c.outcome((known.len(), leave));
            leave |= false;
            if leave {
                break;
            }
        }
        Ok(())
    })
}

/// Who is told of whom: new peers once a day, those of the consensus every minute.
fn announced(c: &mut Chooser) -> Result<(), Fail> {
    let clock = Clock::start();
    let count = *c.pick(&[1usize, 2, 3, 4, 6]);
    let validators = c.choose(3).min(count);
    let private = c.flip();
    let draws: Vec<usize> = (0..3).map(|_| c.choose(3) * 4).collect();
    c.note(|| format!("{count} sessions, {validators} of the consensus with ten addresses each, the last private {private}, draws {draws:?}"));
    let mut net = Net::new(ME, |_| {});
    let rt = rt();
    rt.block_on(async {
        net.node.init().await;
        let mut token = None;
        for d in net.did() {
            if let Did::Notify { proto: DISCOVERY, token: t, .. } = d {
                token = Some(t);
            }
        }
        let Some(token) = token else { return Err(Fail::new("addresses are never announced", String::new())) };
        // who is worth telling of, and who knows what
        let mut worth: BTreeMap<String, usize> = BTreeMap::new();
        let mut of_consensus: BTreeSet<String> = BTreeSet::new();
        let mut knows: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new();
        for i in 0..count {
            let p = 1 + i as u8;
            let inbound = i % 2 == 0;
            let hidden = private && i + 1 == count && i >= validators;
            let text = if hidden { "/ip4/10.0.0.5".to_string() } else { format!("/ip4/47.{}.3.7", 10 + i) };
            if i < validators {
                net.handle.tag(Context::new(), PBytes::from(id(p).into_bytes()), PeerTag::Consensus).map_err(|e| Fail::new("cannot tag", e.to_string()))?;
            }
            let a = with_id(&format!("{text}/tcp/1"), p);
            let s = net.open(p, a.clone(), ty(inbound)).await;
            let mut k = BTreeSet::new();
            if i < validators {
                net.connect(s, IDENTIFY).await;
                let mut m = M::default();
                for j in 0..10 {
                    let l = with_id(&format!("/ip4/48.{}.{}.1/tcp/2", i, j), p);
                    worth.insert(l.to_string(), s);
                    of_consensus.insert(l.to_string());
                    m = m.b(1, &l.to_vec());
                }
                net.receive(s, IDENTIFY, Bytes::from(M::default().b(1, CHAIN.to_string().as_bytes()).m(2, m).0)).await;
                if !inbound {
                    of_consensus.insert(a.to_string());
                }
            }
            net.connect(s, DISCOVERY).await;
            let shown = if inbound {
                net.receive(s, DISCOVERY, get_nodes(0, 0, Some(1))).await;
                a.to_string()
            } else {
                a.to_string()
            };
            k.insert(shown.clone());
            if !hidden {
                worth.insert(shown, s);
            }
            knows.insert(s, k);
        }
        // the first peer has told us of the second
        if count > 1 {
            let a = with_id("/ip4/47.11.3.7/tcp/1", 2);
            net.receive(1, DISCOVERY, nodes(true, &[vec![a.to_vec()]])).await;
            knows.get_mut(&1).unwrap().insert(a.to_string());
        }
        net.did();
        let mut times: BTreeMap<String, usize> = BTreeMap::new();
        for round in 0..5 {
            if round == 4 {
                clock.advance(25 * 3600 * 1000);
            } else {
                clock.advance(61_000);
            }
            rand::control::script(draws.iter().copied());
            net.node.notify(proto(DISCOVERY), token).await;
            rand::control::stop();
            c.transition();
            let did = net.did();
            ensure!(gone(&did).is_empty(), "an announcement ends a session: {:?}", did);
            for (to, data) in sent(&did, DISCOVERY)? {
                let (announce, items) = read_nodes(&data)?;
                ensure!(announce && !items.is_empty() && items.len() <= 10, "an announcement of another form: {:?}", items);
                ensure!(items.iter().all(|i| i.len() == 1), "an item of several addresses: {:?}", items);
                for a in items.into_iter().flatten() {
                    ensure!(worth.contains_key(&a), "an address is announced that must not be: {}", a);
                    *times.entry(a.clone()).or_default() += to.len();
                    for s in &to {
                        ensure!(knows.get_mut(s).unwrap().insert(a.clone()), "a peer is told what it knows: {} of {}", s, a);
                    }
                }
            }
        }
        c.nontrivial();
        c.outcome((count, validators, times.values().sum::<usize>()));
        for (a, s) in &worth {
            let n = times.get(a).copied().unwrap_or(0);
            if of_consensus.contains(a) {
                // told again and again until all know
                if count <= 3 {
                    ensure!(knows.values().all(|k| k.contains(a)), "an address of the consensus is not known to all of {} peers: {}", count, a);
                }
            } else {
                // the first of the four rounds only, which is sent in the next
                ensure!(n <= 3, "an address is announced to more than three peers: {} to {}", a, n);
                let unaware = knows.len() - 1 - usize::from(count > 1 && a.contains("/47.11.") && *s != 1);
                let crowded = validators > 0;
                ensure!(crowded || count > 3 || n == unaware, "an address is announced to {} of {} peers: {}", n, unaware, a);
                ensure!(crowded || count < 5 || n >= 1, "an address is not announced: {} of session {}", a, s);
            }
        }
        Ok(())
    })
}

pub fn run(check: &Check) {
    let depth = check.by_tier(4, 5);
    check
        .part(
            "ping",
            "a session had to be ended",
            &format!(
                "two sessions, and a third; up to {depth} of: time to ping, time to look for timeouts, 15, 29 or 31 s pass, right and wrong answers, questions, \
                 garbage, ends of sessions"
            ),
        )
        .explore(|c| ping(c, depth));
    check
        .part(
            "asked",
            "addresses were told",
            "in and out, public and private, version 0 and 1, five counts, three ports, a book of 6 and of 1106 addresses; then a second question",
        )
        .explore(asked);
    let depth = check.by_tier(2, 3);
    check
        .part(
            "told",
            "news was accepted or punished",
            &format!("in and out; up to {depth} lists: announced or not, 0, 1, 10, 11, 1000 or 1001 items, the first of six kinds; undecodable and empty messages"),
        )
        .explore(|c| told(c, depth));
    check
        .part("announced", "addresses were announced", "1 to 6 sessions, up to two of the consensus with ten addresses each, one private, 27 draws; four minutes and a day")
        .explore(announced);
    check.assume("the filter of known addresses is replaced by an exact set; clocks and random draws are those of the harness");
}
