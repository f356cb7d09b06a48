//! I07: whom the node dials, and the configuration of the network.
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::traits::{Context, Network, PeerTag};
use protocol::types::Bytes as PBytes;
use tentacle::error::{DialerErrorKind, HandshakeErrorKind};
use tentacle::multiaddr::Multiaddr;
use tentacle::secio::error::SecioError;
use tentacle::service::{ServiceError, SessionType};

use crate::world::*;

const DAY: u64 = 24 * 3600 * 1000;
const TICK: u64 = 10_000;

#[derive(Clone, Debug)]
struct Known {
    peer:     u8,
    last:     u64,
    tried:    u64,
    attempts: u32,
}

struct World {
    now:     u64,
    book:    BTreeMap<String, Known>,
    /// session: peer, its address, inbound
    live:    BTreeMap<usize, (u8, String, bool)>,
    /// dialed and not yet answered: address, and whether only to see that it lives
    out:     BTreeMap<String, bool>,
}

impl World {
    fn hear(&mut self, a: &Multiaddr, peer: u8, last: u64) {
        match self.book.get(&a.to_string()) {
            Some(k) if last <= k.last => {}
            _ => {
                self.book.insert(a.to_string(), Known { peer, last, tried: 0, attempts: 0 });
            }
        }
    }

    fn connected(&self, peer: u8) -> bool {
        self.live.values().any(|l| l.0 == peer)
    }

    fn worth(&self, k: &Known) -> bool {
        self.now - k.tried <= 60_000 || !((k.last == 0 && k.attempts >= 3) || (self.now - k.last > 7 * DAY && k.attempts >= 10))
    }

    fn fit(&self) -> BTreeSet<String> {
        self.book
            .iter()
            .filter(|(_, k)| !self.connected(k.peer) && self.worth(k) && self.now - k.last < 3 * DAY && self.now - k.last >= 15_000)
            .map(|x| x.0.clone())
            .collect()
    }

    fn to_feel(&self) -> BTreeSet<String> {
        self.book
            .iter()
            .filter(|(_, k)| !self.connected(k.peer) && self.worth(k) && self.now - k.last >= 3 * DAY && self.now - k.tried > 60_000)
            .map(|x| x.0.clone())
            .collect()
    }

    fn mark(&mut self, which: &BTreeSet<String>) {
        let now = self.now;
        for a in which {
            let k = self.book.get_mut(a).unwrap();
            k.tried = now;
            k.attempts += 1;
        }
    }
}

fn peer_of(a: &str) -> u8 {
    (1..=255u8).find(|p| a.ends_with(&id(*p).to_base58())).unwrap()
}

const VALIDATOR: u8 = 60;
const BOOT: [u8; 2] = [70, 71];

fn rounds(c: &mut Chooser, ticks: usize) -> Result<(), Fail> {
    let clock = Clock::start();
    let (max, room_in) = *c.pick(&[(5usize, 2usize), (3, 2)]);
    let (ins, outs) = *c.pick(&[(0usize, 0usize), (1, 0), (0, 1), (2, 1), (2, 0)]);
    let fits = *c.pick(&[0usize, 1, 2, 3, 5]);
    let boots = c.choose(3);
    let validator = c.choose(3);
    let own = c.flip();
    c.note(|| format!("{max} connections, {room_in} in; {ins} in and {outs} out; {fits} reached lately, {boots} bootnodes, validator {validator}, own address {own}"));
    let mut net = Net::new(ME, |f| {
        f.max_connections = max;
        f.inbound_conn_limit = room_in;
        f.bootstraps = BOOT[..boots].iter().map(|b| addr(*b, 1, *b)).collect();
    });
    let slots = max - room_in;
    let rt = rt();
    rt.block_on(async {
        let mut w = World { now: UNIX, book: BTreeMap::new(), live: BTreeMap::new(), out: BTreeMap::new() };
        // one that lived long ago
        net.store(|b| b.add_outbound_addr(addr(30, 1, 30)));
        w.hear(&addr(30, 1, 30), 30, w.now);
        clock.advance(4 * DAY);
        w.now += 4 * DAY;
        for i in 0..fits as u8 {
            net.store(|b| b.add_outbound_addr(addr(1 + i, 1, 1 + i)));
            w.hear(&addr(1 + i, 1, 1 + i), 1 + i, w.now);
        }
        let mine = addr(99, 1, ME);
        if own {
            net.node
                .error(ServiceError::DialerError { address: mine.clone(), error: DialerErrorKind::HandshakeError(HandshakeErrorKind::SecioError(SecioError::ConnectSelf)) })
                .await;
        }
        if validator > 0 {
            net.handle.tag(Context::new(), PBytes::from(id(VALIDATOR).into_bytes()), PeerTag::Consensus).map_err(|e| Fail::new("cannot tag", e.to_string()))?;
            let a = addr(VALIDATOR, 1, VALIDATOR);
            if validator == 1 {
                net.store(|b| b.add_outbound_addr(a.clone()));
                w.hear(&a, VALIDATOR, w.now);
            } else {
                net.store(|b| {
                    let _ = b.add_addr(a.clone());
                });
                w.hear(&a, VALIDATOR, 0);
            }
        }
        clock.advance(DAY);
        w.now += DAY;
        net.store(|b| {
            let _ = b.add_addr(addr(31, 1, 31));
        });
        w.hear(&addr(31, 1, 31), 31, 0);
        for i in 0..(ins + outs) as u8 {
            let p = 40 + i;
            let inbound = (i as usize) < ins;
            let s = net.open(p, addr(p, 1, p), if inbound { SessionType::Inbound } else { SessionType::Outbound }).await;
            w.live.insert(s, (p, addr(p, 1, p).to_string(), inbound));
        }
        net.did();
        let service = net.service.take().unwrap();
        let task = tokio::spawn(service.run());
        let mut dry: BTreeMap<u8, usize> = BTreeMap::new();
        for tick in 0..ticks {
            if tick > 0 {
                // what becomes of the dials
                let fate = c.deviate(4);
                c.note(|| format!("before tick {tick}: {}", ["dials fail", "dials succeed", "nothing answers", "a session ends"][fate]));
                if fate == 3 {
                    let keys: Vec<usize> = w.live.keys().copied().collect();
                    // which sessions there are depends on the node's own draws: choose among a fixed number
                    let which = c.choose(4);
                    if which < keys.len() {
                        let s = keys[which];
                        let (p, a, inbound) = w.live.remove(&s).unwrap();
                        let introduced = net.sessions[&s].open.contains(&IDENTIFY);
                        net.close(s).await;
                        net.did();
                        // an address we had reached was good until now
                        if !inbound && introduced {
                            let now = w.now;
                            w.hear(&a.parse().unwrap(), p, now);
                        }
                    }
                }
                if fate != 2 {
                    let out: Vec<(String, bool)> = std::mem::take(&mut w.out).into_iter().collect();
                    for (a, feel) in out {
                        let p = peer_of(&a);
                        let address: Multiaddr = a.parse().unwrap();
                        if fate == 1 && p != ME && !w.connected(p) {
                            let before = net.handle.peer_count(Context::new()).unwrap();
                            let s = net.open(p, address.clone(), SessionType::Outbound).await;
                            let away = net.did().iter().any(|d| matches!(d, Did::Disconnect(_)));
                            if feel {
                                ensure!(!away, "a peer we only look after is sent away at once: {}", a);
                                ensure_eq!(net.handle.peer_count(Context::new()).unwrap(), before, "peers, after one we only look after");
                                net.connect(s, FEELER).await;
                                let did = net.did();
                                ensure!(did == vec![Did::Disconnect(s)], "a peer that lives is not left: {:?}", did);
                                let now = w.now;
                                w.hear(&address, p, now);
                                net.close(s).await;
                                c.nontrivial();
                            } else if away {
                                net.close(s).await;
                            } else {
                                net.connect(s, IDENTIFY).await;
                                net.did();
                                let now = w.now;
                                w.hear(&address, p, now);
                                w.live.insert(s, (p, a, false));
                            }
                        } else {
                            let error = if p == ME {
                                DialerErrorKind::HandshakeError(HandshakeErrorKind::SecioError(SecioError::ConnectSelf))
                            } else {
                                DialerErrorKind::PeerIdNotMatch
                            };
                            net.node.error(ServiceError::DialerError { address, error }).await;
                        }
                    }
                }
                ensure!(net.did().iter().all(|d| matches!(d, Did::Disconnect(_))), "the end of a dial makes the node act");
                clock.advance(TICK);
                w.now += TICK;
                tokio::time::advance(Duration::from_millis(TICK)).await;
            }
            settle().await;
            ensure!(!task.is_finished(), "the node stops dialing");
            c.transition();
            let did = net.did();
            let mut dials: Vec<String> = vec![];
            for d in &did {
                match d {
                    Did::Dial { addr, protos } => {
                        ensure!(protos == &vec![IDENTIFY], "a dial opens more than the introduction: {:?}", d);
                        dials.push(addr.clone());
                    }
                    Did::Listen(_) if tick == 0 => {}
                    d => return Err(Fail::new("the node does something else", format!("{:?}", d))),
                }
            }
            if tick == 0 {
                ensure!(did.iter().filter(|d| matches!(d, Did::Listen(_))).count() == 1, "the node does not listen once");
            }
            let set: BTreeSet<String> = dials.iter().cloned().collect();
            ensure!(set.len() == dials.len(), "an address is dialed twice: {:?}", dials);
            for a in &set {
                ensure!(!w.out.contains_key(a), "an address is dialed that is being dialed: {} in tick {}", a, tick);
                ensure!(!w.connected(peer_of(a)), "a connected peer is dialed: {} in tick {}", a, tick);
            }
            // those of the consensus, if we know a good address; regardless of room
            let fit = w.fit();
            let chosen: BTreeSet<String> = fit.iter().filter(|a| validator > 0 && w.book[*a].peer == VALIDATOR).cloned().collect();
            for a in &chosen {
                ensure!(set.contains(a) || w.out.contains_key(a), "a peer of the consensus is not dialed: tick {}, dials {:?}", tick, dials);
            }
            w.mark(&chosen);
            // signs of life
            let feel = w.to_feel();
            for a in &feel {
                ensure!(set.contains(a) || w.out.contains_key(a), "an old or new address is not looked after: {} in tick {}, dials {:?}", a, tick, dials);
            }
            w.mark(&feel);
            // our own address
            let me = mine.to_string();
            if own {
                ensure!(set.contains(&me) || w.out.contains_key(&me), "our own address is not checked: tick {}", tick);
            }
            let rest: BTreeSet<String> = set.iter().filter(|a| !chosen.contains(*a) && !feel.contains(*a) && **a != me).cloned().collect();
            let free = slots.saturating_sub(w.live.values().filter(|l| !l.2).count());
            let boot: BTreeSet<String> = BOOT[..boots].iter().filter(|b| !w.connected(**b)).map(|b| addr(*b, 1, *b).to_string()).collect();
            for a in &rest {
                ensure!(boot.contains(a) || fit.contains(a), "an address is dialed that must not be: {} in tick {}", a, tick);
            }
            if tick == 0 {
                // all bootnodes first
                for b in &boot {
                    ensure!(set.contains(b), "a bootnode is not dialed at the start: {}", b);
                }
            }
            let mut others = rest.clone();
            if tick == 0 {
                others.retain(|a| !boot.contains(a));
            }
            ensure!(others.len() <= free, "more is dialed than there is room for: {:?} with {} free in tick {}, live {:?}", others, free, tick, w.live);
            let boot_tick = tick > 0 && rest.iter().any(|a| boot.contains(a));
            let sure: BTreeSet<String> = fit.iter().filter(|a| !w.out.contains_key(*a) && !chosen.contains(*a)).cloned().collect();
            if free > 0 && !boot_tick {
                if fit.len() <= free {
                    ensure!(sure.is_subset(&set), "there is room, and a good address is not dialed: {:?} of {:?} with {} free in tick {}", set, sure, free, tick);
                } else if w.out.is_empty() {
                    ensure!(rest.len() + chosen.len() >= free, "there is room, and good addresses are not dialed: {:?} with {} free in tick {}", set, free, tick);
                }
                c.nontrivial();
            }
            // no bootnode waits for more than four rounds with room for all of them
            for b in &boot {
                let n = dry.entry(peer_of(b)).or_default();
                if set.contains(b) || w.out.contains_key(b) || free < boot.len() {
                    *n = 0;
                } else {
                    *n += 1;
                }
                ensure!(*n <= 4, "a bootnode is forgotten: {} in tick {}", b, tick);
            }
            for a in &set {
                let f = feel.contains(a);
                w.out.insert(a.clone(), f);
            }
            c.outcome((tick, set.len(), free, w.live.len()));
        }
        task.abort();
        Ok(())
    })
}

/// The peer store is saved at the start and every day.
fn saves(c: &mut Chooser) -> Result<(), Fail> {
    let clock = Clock::start();
    let days = c.choose(3);
    let mut net = Net::new(ME, |_| {});
    let rt = rt();
    rt.block_on(async {
        let service = net.service.take().unwrap();
        let task = tokio::spawn(service.run());
        settle().await;
        net.store(|b| b.add_outbound_addr(addr(1, 1, 1)));
        for _ in 0..days {
            for _ in 0..24 {
                clock.advance(3600 * 1000);
                tokio::time::advance(Duration::from_secs(3600)).await;
                settle().await;
                net.did();
            }
        }
        settle().await;
        let after = core_network::peer_manager::PeerStore::load_from_dir_or_default(&net.dir.0);
        c.nontrivial();
        c.outcome(days);
        ensure_eq!(after.addr_manager().count(), usize::from(days > 0), "addresses saved after {} days", days);
        task.abort();
        Ok(())
    })
}

const REST: &str = r#"
net_privkey_file = "x"
bls_privkey_file = "y"
data_path = "./d"
[rpc]
maxconn = 1
max_payload_size = 1
[web3]
[synchronization]
[mempool]
timeout_gap = 1
pool_size = 1
[executor]
triedb_cache_size = 1
[network]
listening_address = "/ip4/0.0.0.0/tcp/8001"
"#;

/// What the operator writes is what the network uses.
fn configured(c: &mut Chooser) -> Result<(), Fail> {
    let mut text = REST.to_string();
    let keys = ["max_connected_peers", "inbound_conn_limit", "send_buffer_size", "recv_buffer_size", "max_frame_length", "ping_interval"];
    let default = core_network::NetworkConfig::new();
    let mut want = [
        default.max_connections,
        default.inbound_conn_limit,
        default.send_buffer_size,
        default.recv_buffer_size,
        default.max_frame_length,
        default.ping_interval.as_secs() as usize,
    ];
    for (i, k) in keys.iter().enumerate() {
        let options: &[Option<usize>] = match i {
            0 => &[None, Some(10), Some(20), Some(21), Some(100)],
            1 => &[None, Some(5), Some(10), Some(40), Some(60)],
            _ => &[None, Some(123)],
        };
        if let Some(v) = *c.pick(options) {
            text += &format!("{} = {}\n", k, v);
            want[i] = v;
        }
    }
    let boots = c.choose(3);
    for b in 0..boots as u8 {
        text += &format!("[[network.bootstraps]]\nmulti_address = \"{}\"\n", addr(b, 1, b + 1));
    }
    let mut config: common_config_parser::types::Config = common_config_parser::parse_reader(&mut text.as_bytes()).map_err(|e| Fail::new("cannot read the configuration", e.to_string()))?;
    config.net_privkey = [7u8; 32].into();
    c.nontrivial();
    c.transition();
    let got = core_network::NetworkConfig::from_config(&config, 77);
    c.outcome(got.is_ok());
    if want[0] <= want[1] {
        ensure!(got.is_err(), "limits that leave no room for a connection of ours are accepted: {:?}", want);
        return Ok(());
    }
    let got = got.map_err(|e| Fail::new("a configuration in order is refused", format!("{} {:?}", e, want)))?;
    let has = [got.max_connections, got.inbound_conn_limit, got.send_buffer_size, got.recv_buffer_size, got.max_frame_length, got.ping_interval.as_secs() as usize];
    for i in 0..6 {
        ensure!(has[i] == want[i], "the configured {} is not used: {} instead of {}", keys[i], has[i], want[i]);
    }
    ensure_eq!(got.default_listen.to_string(), "/ip4/0.0.0.0/tcp/8001", "listening address");
    let list: Vec<String> = got.bootstraps.iter().map(|a| a.to_string()).collect();
    let expect: Vec<String> = (0..boots as u8).map(|b| addr(b, 1, b + 1).to_string()).collect();
    ensure_eq!(list, expect, "bootnodes");
    ensure!(got.secio_keypair.peer_id() == id(7) && got.chain_id == 77, "another key or chain is used");
    ensure!(got.peer_store_path.ends_with("d/peer_store"), "another directory is used: {:?}", got.peer_store_path);
    Ok(())
}

pub fn run(check: &Check) {
    let ticks = check.by_tier(6, 6);
    check
        .part(
            "rounds",
            "there was room and an address to dial, or a sign of life",
            &format!(
                "limits of 5 (2 in) and 3 (2 in), five sets of sessions, 0 to 5 addresses reached lately, one old and one new, 0 to 2 bootnodes, a validator with a \
                 good, a new or no address, an own address; {ticks} rounds, after one of which (two in the thorough tier) dials succeed or hang, or one of four sessions ends, \
                 instead of dials failing"
            ),
        )
        .deviations(check.by_tier(1, 2))
        .explore(|c| rounds(c, ticks));
    check.part("saves", "the peer store was looked at", "after 0, 1 and 2 days").explore(saves);
    check
        .part("configuration", "a configuration was applied", "limits of connections (5 x 5), each other value given or not, 0 to 2 bootnodes")
        .explore(configured);
    check.assume("clocks are those of the harness; the framework's answers to dials are played by it");
}
