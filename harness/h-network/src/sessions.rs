//! I04: who may stay connected, and what becomes of a connection until it is identified.
use std::collections::{BTreeMap, BTreeSet};

use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::traits::{Context, Network, PeerTag};
use protocol::types::Bytes as PBytes;
use tentacle::bytes::Bytes;
use tentacle::error::{DialerErrorKind, HandshakeErrorKind};
use tentacle::multiaddr::Multiaddr;
use tentacle::secio::error::SecioError;
use tentacle::service::{ServiceError, SessionType};

use crate::world::pb::{self, M};
use crate::world::*;

const BOOT: u8 = 50;
const VALIDATOR: u8 = 60;

fn sessions_of(did: &[Did]) -> Vec<usize> {
    did.iter().filter_map(|d| if let Did::Disconnect(s) = d { Some(*s) } else { None }).collect()
}

/// Comings and goings, with bans and limits.
fn limits(c: &mut Chooser, depth: usize) -> Result<(), Fail> {
    let clock = Clock::start();
    let (max, inbound) = *c.pick(&[(4usize, 2usize), (3, 1)]);
    let mut net = Net::new(ME, |f| {
        f.max_connections = max;
        f.inbound_conn_limit = inbound;
        f.bootstraps = vec![addr(BOOT, 1000, BOOT)];
    });
    let rt = rt();
    rt.block_on(async {
        net.handle.tag(Context::new(), PBytes::from(id(VALIDATOR).into_bytes()), PeerTag::Consensus).map_err(|e| Fail::new("cannot tag", e.to_string()))?;
        // live sessions: peer, inbound
        let mut live: BTreeMap<usize, (u8, bool)> = BTreeMap::new();
        let mut banned: Vec<u8> = vec![];
        let mut left: Vec<u8> = vec![];
        let mut next = 1u8;
        net.did();
        for _ in 0..depth {
            let mut open = None;
            match c.choose(6) {
                0 => break,
                1 => {
                    let inbound = c.flip();
                    open = Some((next, inbound, false));
                    next += 1;
                }
                2 => {
                    let p = *c.pick(&[BOOT, VALIDATOR]);
                    if live.values().any(|x| x.0 == p) {
                        break;
                    }
                    open = Some((p, c.flip(), true));
                }
                3 if !live.is_empty() => {
                    let keys: Vec<_> = live.keys().copied().collect();
                    let s = *c.pick(&keys);
                    c.note(|| format!("session {} ends", s));
                    left.push(live.remove(&s).unwrap().0);
                    net.close(s).await;
                }
                4 => {
                    // an ordinary peer misbehaves, or another part of the node wants it gone
                    let keys: Vec<_> = live.iter().filter(|x| x.1 .0 < BOOT).map(|x| *x.0).collect();
                    if keys.is_empty() {
                        break;
                    }
                    let s = *c.pick(&keys);
                    let by = c.choose(2);
                    let (p, _) = live.remove(&s).unwrap();
                    c.note(|| format!("session {} of peer {} is banned, way {}", s, p, by));
                    match by {
                        0 => {
                            let e = std::io::Error::new(std::io::ErrorKind::Other, "test");
                            net.node.error(ServiceError::ProtocolError { id: s.into(), proto_id: proto(PING), error: e }).await;
                        }
                        _ => {
                            let until = UNIX + 50_000_000;
                            net.handle.tag(Context::new(), PBytes::from(id(p).into_bytes()), PeerTag::Ban { until }).map_err(|e| Fail::new("cannot ban", e.to_string()))?;
                            settle().await;
                        }
                    }
                    let did = net.did();
                    ensure!(sessions_of(&did) == vec![s] && did.len() == 1, "a banned peer stays connected: session {}, asked {:?}", s, did);
                    banned.push(p);
                    net.close(s).await;
                }
                5 => {
                    // one that has been here comes back
                    let was: Vec<u8> = banned.iter().chain(&left).copied().filter(|p| *p < BOOT && live.values().all(|x| x.0 != *p)).collect();
                    if was.is_empty() {
                        break;
                    }
                    open = Some((*c.pick(&was), c.flip(), false));
                }
                _ => break,
            }
            c.transition();
            if let Some((p, is_in, privileged)) = open {
                let count = |x: bool| live.values().filter(|v| v.1 == x).count();
                let room = live.len() < max && if is_in { count(true) < inbound } else { count(false) < max - inbound };
                let stays = privileged || (room && !banned.contains(&p));
                let s = net.open(p, addr(p, 1000, p), if is_in { SessionType::Inbound } else { SessionType::Outbound }).await;
                c.note(|| format!("peer {} connects as session {}, inbound {}: {}", p, s, is_in, if stays { "stays" } else { "goes" }));
                let did = net.did();
                let gone = sessions_of(&did);
                ensure!(gone.len() == did.len(), "a new session makes the node do something else: {:?}", did);
                if stays {
                    let why = if privileged { "of the consensus or bootstrap list" } else { "for which there is room" };
                    ensure!(gone.is_empty(), "a peer {} is turned away: peer {} inbound {} with {:?}", why, p, is_in, live);
                    live.insert(s, (p, is_in));
                } else {
                    let why = if banned.contains(&p) { "banned" } else { "above the limit" };
                    ensure!(gone == vec![s], "a peer {} is let in: peer {} inbound {} with {:?} of {} (inbound {})", why, p, is_in, live, max, inbound);
                    c.nontrivial();
                    net.close(s).await;
                }
            }
            let did = net.did();
            ensure!(did.is_empty(), "the end of a session makes the node act: {:?}", did);
            let n = net.handle.peer_count(Context::new()).map_err(|e| Fail::new("peer count", e.to_string()))?;
            ensure_eq!(n, live.len(), "number of peers reported");
        }
        c.outcome((live.len(), banned.len(), left.len()));
        if banned.len() == 1 && live.len() < max && left.is_empty() {
            // a ban for misbehaviour ends
            clock.advance(301_000);
        }
        Ok(())
    })
}

/// What each peer sends to introduce itself.
fn introduction(kind: usize) -> (Bytes, bool) {
    let me = |chain: &str, listens: Vec<Multiaddr>, observed: Option<Multiaddr>| {
        let mut a = M::default();
        for l in listens {
            a = a.b(1, &l.to_vec());
        }
        if let Some(o) = observed {
            a = a.b(2, &o.to_vec());
        }
        M::default().b(1, chain.as_bytes()).m(2, a)
    };
    let seen = Some(addr(99, 5000, ME));
    let chain = CHAIN.to_string();
    let many = |n: u8| (0..n).map(|i| addr(100 + i, 1000, 1)).collect::<Vec<_>>();
    let (m, good) = match kind {
        0 => (me(&chain, vec![addr(1, 1000, 1), "/ip4/10.0.0.1/tcp/1".parse().unwrap()], seen), true),
        1 => (me(&chain, vec![], None), true),
        2 => (me(&chain, many(10), seen), true),
        3 => (me(&chain, many(11), seen), false),
        4 => (me("2023", vec![], seen), false),
        5 => (me("", vec![], seen), false),
        6 => (M::default().b(1, chain.as_bytes()), false),
        7 => (M(vec![0xff, 0xff]), false),
        8 => (M(vec![]), false),
        // addresses that are none
        _ => (M::default().b(1, chain.as_bytes()).m(2, M::default().b(1, b"nonsense").b(1, &[]).b(2, &[4, 1])), true),
    };
    (Bytes::from(m.0), good)
}

fn identify(c: &mut Chooser, depth: usize) -> Result<(), Fail> {
    let clock = Clock::start();
    let inbound = c.flip();
    let feeler = !inbound && c.flip();
    let other = c.flip();
    let mut net = Net::new(ME, |_| {});
    let rt = rt();
    rt.block_on(async {
        let a = addr(1, 1000, 1);
        if feeler {
            net.peers.with_registry_mut(|r| r.add_feeler(a.clone()));
        }
        net.node.init().await;
        let did = net.did();
        ensure!(did.iter().any(|d| matches!(d, Did::Notify { proto: IDENTIFY, secs, token: 100 } if *secs <= 2)), "nobody watches the time of introductions: {:?}", did);
        if other {
            // somebody who has introduced himself
            let s = net.open(2, addr(2, 1000, 2), SessionType::Inbound).await;
            net.connect(s, IDENTIFY).await;
            net.receive(s, IDENTIFY, introduction(1).0).await;
        }
        net.did();
        let s = net.open(1, a.clone(), if inbound { SessionType::Inbound } else { SessionType::Outbound }).await;
        ensure!(net.did().is_empty(), "a new session makes the node act: {}", s);
        net.connect(s, IDENTIFY).await;
        // our own introduction
        let did = net.did();
        let mine: Vec<_> = did.iter().filter_map(|d| if let Did::Send { to, proto: IDENTIFY, data, .. } = d { Some((to.clone(), data.clone())) } else { None }).collect();
        ensure!(mine.len() == 1 && did.len() == 1 && mine[0].0 == vec![s], "we do not introduce ourselves once: {:?}", did);
        let info = pb::bytes_of(&mine[0].1, 2);
        ensure!(pb::bytes_of(&mine[0].1, 1) == vec![CHAIN.to_string().into_bytes()] && info.len() == 1, "we introduce ourselves as another chain: {:?}", mine);
        ensure!(pb::bytes_of(&info[0], 2) == vec![a.to_vec()], "we report another address than we saw: {:?}", mine);
        let (mut received, mut age, mut gone, mut opened) = (false, 0u64, false, false);
        for _ in 0..depth {
            if gone {
                break;
            }
            let e = c.choose(13);
            if e == 0 {
                break;
            }
            let (mut leave, mut open, mut maybe) = (false, false, false);
            match e {
                11 | 12 => {
                    let ms = [4000, 9000][e - 11];
                    c.note(|| format!("{} ms pass", ms));
                    clock.advance(ms);
                    age += ms;
                    net.node.notify(proto(IDENTIFY), 100).await;
                    leave = !received && age > 8000;
                    maybe = !received && age == 8000;
                }
                k => {
                    let (m, good) = introduction(k - 1);
                    c.note(|| format!("introduction {}, acceptable {}", k - 1, good));
                    net.receive(s, IDENTIFY, m).await;
                    leave = !good || received;
                    open = good && !received && !inbound;
                    received = true;
                    // too many addresses are noticed after the protocols are opened; either order will do
                    maybe = false;
                }
            }
            c.transition();
            let did = net.did();
            let off = sessions_of(&did);
            ensure!(off.iter().all(|x| *x == s), "another session is disconnected: {:?}", did);
            if !maybe {
                ensure!(off.is_empty() != leave, "a peer {}: event {} at {} ms, introduced {}, asked {:?}", if leave { "is kept that must go" } else { "is sent away that may stay" }, e, age, received, did);
            }
            gone = !off.is_empty();
            for d in &did {
                match d {
                    Did::Open { id, protos } => {
                        ensure!(*id == s && !inbound, "protocols are opened on a session that is not ours to open: {:?}", d);
                        let set: BTreeSet<_> = protos.iter().copied().collect();
                        match feeler {
                            true => ensure!(set == BTreeSet::from([FEELER]), "a feeler opens more: {:?}", set),
                            false => ensure!(set.is_superset(&BTreeSet::from([PING, DISCOVERY, TRANSMITTER])) && !set.contains(&FEELER), "wrong protocols are opened: {:?}", set),
                        }
                        ensure!(!opened && (open || leave), "protocols are opened without an introduction, or again: {:?}", d);
                        ensure!(e != 5 && e != 6 && e != 7 && e != 8 && e != 9, "protocols are opened for a peer that is not of our chain: {}", e);
                        opened = true;
                    }
                    Did::Dial { addr, protos } => {
                        ensure!(protos == &vec![IDENTIFY] && addr.contains("/47.99.3.7/") && !inbound, "something else is dialed: {:?}", d);
                    }
                    Did::Disconnect(_) => {}
                    d => return Err(Fail::new("an introduction makes the node do something else", format!("{:?}", d))),
                }
            }
            ensure!(!open || opened, "no protocols are opened after an introduction: {:?}", did);
        }
        c.nontrivial();
        c.outcome((received, gone, opened));
        // the address the peer said it listens on is known, the private one and those of strangers are not
        net.close(s).await;
        Ok(())
    })
}

/// An address others see us at is dialed, and once it proves to be ours it is told to others.
fn observed(c: &mut Chooser) -> Result<(), Fail> {
    let inbound = c.flip();
    let reachable = c.flip();
    let own_id = c.flip();
    let proof = c.choose(4);
    let mut net = Net::new(ME, |_| {});
    let text = if reachable { "/ip4/47.99.3.7/tcp/5000" } else { "/ip4/192.168.1.7/tcp/5000" };
    let plain: Multiaddr = text.parse().unwrap();
    let full = with_id(text, ME);
    c.note(|| format!("inbound {}, observed {} with our id {}, proof {}", inbound, text, own_id, proof));
    let rt = rt();
    rt.block_on(async {
        let s = net.open(1, addr(1, 1000, 1), if inbound { SessionType::Inbound } else { SessionType::Outbound }).await;
        net.connect(s, IDENTIFY).await;
        net.did();
        let seen = if own_id { full.clone() } else { plain };
        let m = M::default().b(1, CHAIN.to_string().as_bytes()).m(2, M::default().b(2, &seen.to_vec()));
        net.receive(s, IDENTIFY, Bytes::from(m.0)).await;
        let did = net.did();
        let dials: Vec<_> = did.iter().filter_map(|d| if let Did::Dial { addr, .. } = d { Some(addr.clone()) } else { None }).collect();
        let want = if reachable && !inbound { vec![full.to_string()] } else { vec![] };
        ensure!(dials == want, "the address we are seen at is dialed wrongly: {:?}, should be {:?}", dials, want);
        c.nontrivial();
        let error = match proof {
            0 => DialerErrorKind::HandshakeError(HandshakeErrorKind::SecioError(SecioError::ConnectSelf)),
            1 => DialerErrorKind::PeerIdNotMatch,
            2 => DialerErrorKind::RepeatedConnection(s.into()),
            _ => DialerErrorKind::IoError(std::io::Error::new(std::io::ErrorKind::AddrNotAvailable, "test")),
        };
        net.node.error(ServiceError::DialerError { address: full.clone(), error }).await;
        let t = net.open(2, addr(2, 1000, 2), SessionType::Inbound).await;
        net.connect(t, IDENTIFY).await;
        let mut told = vec![];
        for d in net.did() {
            if let Did::Send { proto: IDENTIFY, data, .. } = d {
                for i in pb::bytes_of(&data, 2) {
                    told.extend(pb::bytes_of(&i, 1));
                }
            }
        }
        let want = if proof == 0 && reachable { vec![full.to_vec()] } else { vec![] };
        c.outcome((dials.len(), told.len()));
        ensure!(told == want, "others are told wrong addresses of ours: {:?}, should be {:?}", told, want);
        Ok(())
    })
}

/// A ban for misbehaviour ends after five minutes.
fn ban_time(c: &mut Chooser) -> Result<(), Fail> {
    let clock = Clock::start();
    let wait = *c.pick(&[0u64, 1000, 299_000, 301_000, 1_000_000]);
    let port = *c.pick(&[1000u16, 2000]);
    let inbound = c.flip();
    c.note(|| format!("back after {} ms from port {}, inbound {}", wait, port, inbound));
    let mut net = Net::new(ME, |_| {});
    let rt = rt();
    rt.block_on(async {
        let s = net.open(1, addr(1, 1000, 1), SessionType::Inbound).await;
        let e = std::io::Error::new(std::io::ErrorKind::Other, "test");
        net.node.error(ServiceError::ProtocolError { id: s.into(), proto_id: proto(PING), error: e }).await;
        net.close(s).await;
        net.did();
        clock.advance(wait);
        let t = net.open(1, addr(1, port, 1), if inbound { SessionType::Inbound } else { SessionType::Outbound }).await;
        let gone = sessions_of(&net.did());
        c.nontrivial();
        c.outcome(gone.len());
        ensure!(gone == if wait < 300_000 { vec![t] } else { vec![] }, "a ban of five minutes is {} after {} ms: {:?}", if wait < 300_000 { "over" } else { "on" }, wait, gone);
        // another peer elsewhere is not concerned
        net.open(2, addr(2, port, 2), SessionType::Inbound).await;
        let did = net.did();
        ensure!(did.is_empty(), "another peer is banned as well: {:?}", did);
        Ok(())
    })
}

pub fn run(check: &Check) {
    let depth = check.by_tier(6, 7);
    check
        .part("limits", "a session stays exactly if there is room for it and its address is not banned, or its peer is on a list", &format!("up to {} comings, goings, bans and returns, in and out, with limits of 4 (2 in) and 3 (1 in)", depth))
        .explore(move |c| limits(c, depth));
    check.part("ban time", "a ban for misbehaviour holds for the address and for five minutes", "5 times x 2 ports x direction").explore(ban_time);
    let depth = check.by_tier(3, 4);
    check
        .part("identify", "a peer has eight seconds to introduce itself, once, as of our chain; then protocols are opened", &format!("direction, feeler, another session; up to {} of 10 introductions and 2 waits", depth))
        .explore(move |c| identify(c, depth));
    check.part("observed", "an address we are seen at is dialed and, when it proves ours, told", "direction x reachable x with our id x 4 outcomes of the dial").explore(observed);
}
