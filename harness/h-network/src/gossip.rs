//! I03: messages to many go to the peers they should, once each.
use std::collections::BTreeSet;
use std::sync::Arc;
use std::time::Duration;

use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::traits::{Context, Gossip, Priority};
use protocol::types::Bytes as PBytes;
use rand::control;
use tentacle::bytes::Bytes;
use tentacle::service::SessionType;

use crate::wire::{Handler, Log, Word};
use crate::world::*;

const NEWS: &str = "/gossip/x/news";

/// The messages of the transmitter among what was done: recipients, data, urgency.
fn sends(did: &[Did]) -> Vec<(Vec<usize>, Bytes, bool)> {
    did.iter()
        .filter_map(|d| match d {
            Did::Send { to, proto: TRANSMITTER, data, quick } => Some((to.clone(), data.clone(), *quick)),
            _ => None,
        })
        .collect()
}

fn kind(i: usize) -> SessionType {
    if i % 2 == 0 {
        SessionType::Inbound
    } else {
        SessionType::Outbound
    }
}

fn spread(c: &mut Chooser, max: usize) -> Result<(), Fail> {
    let n = c.choose(max + 1);
    let way = c.choose(2);
    let urgent = c.flip();
    let url = *c.pick_dev(&[NEWS, "/gossip/x", "", "/none/x/y"]);
    let mut net = Net::new(ME, |_| {});
    let rt = rt();
    rt.block_on(async {
        let mut on = vec![];
        for i in 0..n {
            // some sessions have not opened the protocol yet, or are gone again
            let state = c.deviate(3);
            let s = match state {
                1 => net.open(i as u8 + 1, addr(i as u8 + 1, 1000, i as u8 + 1), kind(i)).await,
                _ => net.join(i as u8 + 1, i as u8 + 1, kind(i)).await,
            };
            if state == 2 {
                net.close(s).await;
            }
            if state == 0 {
                on.push(s);
            }
        }
        net.did();
        let p = if urgent { Priority::High } else { Priority::Normal };
        let msg = Word(vec![7, 1, 2, 3]);
        let mut all = 0;
        let ret = match way {
            0 => {
                c.note(|| format!("broadcast to {:?} of {} sessions, urgent {}, url {:?}", on, n, urgent, url));
                net.handle.broadcast(Context::new(), url, msg, p).await
            }
            _ => {
                let origin = match c.choose(n + 2) {
                    0 => None,
                    k => Some(k),
                };
                let roll = c.choose(3);
                c.note(|| format!("gossip to {:?} of {} sessions, from {:?}, roll {}, urgent {}, url {:?}", on, n, origin, roll, urgent, url));
                control::script([roll]);
                let ret = net.handle.gossip(Context::new(), origin, url, msg, p).await;
                control::stop();
                on.retain(|s| Some(*s) != origin);
                all = net.sessions.keys().filter(|s| Some(**s) != origin).count();
                ret
            }
        };
        let did = net.did();
        c.nontrivial();
        if url != NEWS {
            ensure!(ret.is_err() && did.is_empty(), "a message to no endpoint is sent: {:?} {:?}", url, did);
            return Ok(());
        }
        ensure!(ret.is_ok(), "a message cannot be sent: {:?}", ret);
        let sent = sends(&did);
        ensure!(sent.len() == 1 && did.len() == 1, "a message is not sent as one: {:?}", did);
        let (to, data, quick) = &sent[0];
        c.outcome((way, to.len(), on.len(), *quick));
        ensure!(url_of(data) == NEWS && content_of(data) == vec![7, 1, 2, 3], "the message sent is another: {:?} {:?}", url_of(data), content_of(data));
        ensure_eq!(*quick, urgent, "urgency of a message");
        let set: BTreeSet<_> = to.iter().copied().collect();
        ensure!(set.len() == to.len(), "a peer gets a message twice: {:?}", to);
        if way == 0 {
            ensure!(to == &on, "a broadcast does not go to all peers: {:?}, should be {:?}", to, on);
        } else {
            ensure!(set.iter().all(|s| on.contains(s)), "gossip goes where it should not: {:?} of {:?}", to, on);
            // of any three sessions there are, one may be left out
            ensure!(to.len() + (all + 2) / 3 >= on.len(), "gossip reaches too few: {:?} of {:?}", to, on);
        }
        Ok(())
    })
}

/// What the node knows of a peer named in a multicast.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Known {
    Connected,
    Address,
    Fresh,
    Banned,
    No,
}

fn multicast(c: &mut Chooser) -> Result<(), Fail> {
    use Known::*;
    let _clock = Clock::start();
    let states: Vec<Known> = (0..3).map(|_| *c.pick(&[Connected, Address, Fresh, Banned, No])).collect();
    let named: Vec<bool> = (0..3).map(|_| c.flip()).collect();
    let urgent = c.flip();
    let bad = c.deviate(2) == 1;
    c.note(|| format!("peers {:?}, named {:?}, a bad id {}", states, named, bad));
    let mut net = Net::new(ME, |_| {});
    let rt = rt();
    rt.block_on(async {
        let (mut on, mut dial) = (vec![], BTreeSet::new());
        for (i, s) in states.iter().enumerate() {
            let (p, a) = (i as u8 + 1, addr(i as u8 + 1, 1000, i as u8 + 1));
            if *s != No && *s != Fresh {
                net.store(|b| b.add_outbound_addr(a.clone()));
            }
            match s {
                Connected => {
                    let n = net.join(p, p, kind(i)).await;
                    if named[i] {
                        on.push(n);
                    }
                }
                Address if named[i] => {
                    dial.insert(a.to_string());
                }
                Banned => {
                    let n = net.join(p, p, kind(i)).await;
                    net.peers.ban_session_id(n.into(), 1_000_000, "test".into());
                    net.close(n).await;
                }
                _ => {}
            }
        }
        _clock.advance(20_000);
        for (i, s) in states.iter().enumerate() {
            if *s == Fresh {
                net.store(|b| b.add_outbound_addr(addr(i as u8 + 1, 1000, i as u8 + 1)));
            }
        }
        net.did();
        let mut ids: Vec<PBytes> = (0..3).filter(|i| named[*i]).map(|i| PBytes::from(id(i as u8 + 1).into_bytes())).collect();
        if bad {
            ids.push(PBytes::from_static(b"xx"));
        }
        let p = if urgent { Priority::High } else { Priority::Normal };
        let ret = net.handle.multicast(Context::new(), NEWS, ids, Word(vec![7, 5]), p).await;
        settle().await;
        let did = net.did();
        c.nontrivial();
        c.outcome((on.len(), dial.len(), bad));
        if bad {
            ensure!(ret.is_err() && did.is_empty(), "a multicast to no peer is sent: {:?}", did);
            return Ok(());
        }
        ensure!(ret.is_ok(), "a multicast cannot be sent: {:?}", ret);
        let sent = sends(&did);
        let to: Vec<usize> = sent.iter().flat_map(|s| s.0.clone()).collect();
        ensure!(to == on, "a multicast goes to others: {:?}, should be {:?}", to, on);
        for (to, data, quick) in &sent {
            ensure!(to.is_empty() || *quick == urgent, "urgency of a multicast: {}", quick);
            ensure!(url_of(data) == NEWS && content_of(data) == vec![7, 5], "the message sent is another: {:?}", url_of(data));
        }
        let mut dialed = BTreeSet::new();
        for d in &did {
            match d {
                Did::Send { .. } => {}
                Did::Dial { addr, protos } if protos == &vec![IDENTIFY] => {
                    ensure!(dialed.insert(addr.clone()), "an address is dialed twice: {}", addr);
                }
                d => return Err(Fail::new("a multicast does something else", format!("{:?}", d))),
            }
        }
        ensure!(dialed == dial, "a multicast dials wrongly: {:?}, should be {:?}", dialed, dial);
        Ok(())
    })
}

/// From one node to the handlers of three others, whatever the size.
fn arrival(c: &mut Chooser) -> Result<(), Fail> {
    let way = c.choose(3);
    let n = *c.pick(&[1usize, 60, 1000, 1024, 5000, 70_000]);
    let trace = c.flip();
    c.note(|| format!("way {}, {} bytes, traced {}", way, n, trace));
    let mut a = Net::new(200, |_| {});
    let log = Log::default();
    let mut others: Vec<Net> = (0..3u8).map(|i| Net::new(201 + i, |_| {})).collect();
    for o in &mut others {
        o.service.as_mut().unwrap().register_endpoint_handler(NEWS, Handler("news", Arc::clone(&log))).map_err(|e| Fail::new("cannot register", e.to_string()))?;
    }
    let rt = rt();
    rt.block_on(async {
        let mut ends = vec![];
        for (i, o) in others.iter_mut().enumerate() {
            let s = a.join(201 + i as u8, 1 + i as u8, kind(i)).await;
            for _ in 0..i {
                o.join(90, 9, SessionType::Inbound).await;
                o.close(1).await;
            }
            ends.push((s, o.join(200, 9, kind(i + 1)).await));
        }
        a.did();
        let content: Vec<u8> = (0..n).map(|i| if i == 0 { 7 } else { (i * i) as u8 }).collect();
        let mut ctx = Context::new();
        if trace {
            let state = common_apm::tracing::AxonTracer::new_state(common_apm::tracing::AxonTracer::str_to_trace("5f00000000000000a1").unwrap(), 77);
            ctx = common_apm::tracing::AxonTracer::inject_span_state(ctx, state);
        }
        let msg = Word(content.clone());
        control::script([2]);
        let ret = match way {
            0 => a.handle.broadcast(ctx, NEWS, msg, Priority::High).await,
            1 => a.handle.gossip(ctx, Some(ends[0].0), NEWS, msg, Priority::High).await,
            _ => a.handle.multicast(ctx, NEWS, [PBytes::from(id(202).into_bytes())], msg, Priority::High).await,
        };
        control::stop();
        ensure!(ret.is_ok(), "cannot be sent: {:?}", ret);
        for (to, data, _) in sends(&a.did()) {
            for s in to {
                let k = ends.iter().position(|e| e.0 == s).ok_or_else(|| Fail::new("sent to nobody", ""))?;
                let wire = a.node.wire(proto(TRANSMITTER), data.clone());
                let o = &mut others[k];
                let data = o.node.unwire(proto(TRANSMITTER), &wire).map_err(|e| Fail::new("a frame does not arrive", e.to_string()))?;
                o.receive(ends[k].1, TRANSMITTER, data).await;
                settle().await;
                let got = std::mem::take(&mut *log.lock().unwrap());
                ensure_eq!(got.len(), 1, "times a message is handled");
                let g = &got[0];
                ensure!(g.content == content && g.session == Some(ends[k].1) && g.peer == Some(id(200).into_bytes()), "a message arrives wrongly: {} of {} bytes from session {:?}", g.content.len(), n, g.session);
                ensure!(g.trace == trace.then(|| ("5f00000000000000a1".to_string(), 77)), "the trace of a message is lost: {:?}", g.trace);
                c.transition();
            }
        }
        c.nontrivial();
        c.outcome((way, n > 1000));
        tokio::time::sleep(Duration::from_millis(1)).await;
        Ok(())
    })
}

pub fn run(check: &Check) {
    let max = check.by_tier(5, 7);
    check
        .part("spread", "a broadcast reaches all; gossip at least two of three, never its origin", &format!("0 to {} sessions, each perhaps without the protocol or gone (2 deviations), every origin, every roll of the die, both urgencies, 3 bad addresses", max))
        .deviations(check.by_tier(2, 3))
        .explore(move |c| spread(c, max));
    check
        .part("multicast", "a multicast reaches exactly the connected among its peers, and dials the known others", "3 peers in 5 states, every subset named, both urgencies, a bad id")
        .deviations(1)
        .explore(multicast);
    check.part("arrival", "a message to many is handled at the other ends as sent", "3 ways x 6 sizes x traced or not").explore(arrival);
}
