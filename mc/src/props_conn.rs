//! Configurations of the single-connection explorations.
use crate::conn::*;
use crate::explore::*;
use crate::refcodec::*;
use crate::report::Ctx;
use crate::sys::*;
use crate::world::*;

pub struct Cfg {
    pub label: String,
    pub spec: Spec,
    pub a: Alpha,
    /// (quick depth, thorough depth)
    pub d: (usize, usize),
}
fn spec(role: RoleK, ver: Ver) -> Spec {
    Spec { role, ver: Some(ver), idw: 2 }
}
fn vname(v: Ver) -> &'static str {
    if v == Ver::V3 {
        "v3.1.1"
    } else {
        "v5.0"
    }
}
const RV: [(RoleK, Ver); 4] = [(RoleK::Client, Ver::V3), (RoleK::Client, Ver::V5), (RoleK::Server, Ver::V3), (RoleK::Server, Ver::V5)];

/// CONNECT variants: new session / persistent session, with extra v5 properties
pub fn connects(v: Ver, ka: u16, extra: Vec<Prop>) -> Vec<Pkt> {
    if v == Ver::V3 {
        vec![connect(v, true, ka, vec![]), connect(v, false, ka, vec![])]
    } else {
        let mut p = vec![sei(100)];
        p.extend(extra.clone());
        vec![connect(v, true, ka, extra), connect(v, false, ka, p)]
    }
}
pub fn connacks(v: Ver, extra: Vec<Prop>) -> Vec<Pkt> {
    let e = if v == Ver::V3 { vec![] } else { extra };
    vec![connack(v, false, 0, e.clone()), connack(v, true, 0, e)]
}
/// every way the two sides can settle the life of the session: Clean Start or not, with each
/// kind of Session Expiry Interval in the CONNECT and in the CONNACK that may override it
pub fn session_lives() -> (Vec<Pkt>, Vec<Pkt>) {
    let v = Ver::V5;
    let vals: [Option<u32>; 4] = [None, Some(0), Some(1), Some(u32::MAX)];
    let (mut c, mut k) = (vec![], vec![]);
    for flag in [false, true] {
        for e in vals {
            let p: Vec<Prop> = e.map(sei).into_iter().collect();
            c.push(connect(v, flag, 0, p.clone()));
            k.push(connack(v, flag, 0, p));
        }
    }
    (c, k)
}
/// the acknowledgements a peer can send for outbound exchanges
pub fn outbound_acks(v: Ver) -> Vec<(u8, Option<u8>)> {
    let mut a = vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None)];
    if v == Ver::V5 {
        a.push((PUBREC, Some(0x80)));
        a.push((PUBREC, Some(0x10)));
    }
    a
}

fn c06(quick: bool) -> Vec<Cfg> {
    let mut o = vec![];
    for (r, v) in RV {
        for auto in [true, false] {
            for offline in [false, true] {
                let a = Alpha {
                    setup: vec![Call::AutoPub(auto), Call::Offline(offline)],
                    connects: connects(v, 0, vec![]),
                    connacks: connacks(v, vec![]),
                    pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![])],
                    pub_any_state: true,
                    peer_acks: outbound_acks(v),
                    ack_ids: vec![1, 2],
                    local_acks: vec![(PUBREL, None)],
                    erase: true,
                    max_conns: 3,
                    probe: vec![1, 2, 3],
                    ..Alpha::default()
                };
                o.push(Cfg { label: format!("{r:?} {} auto={auto} offline={offline}", vname(v)), spec: spec(r, v), a, d: (if quick { 7 } else { 7 }, 12) });
            }
        }
    }
    // the life of the session as CONNECT and CONNACK settle it
    for r in [RoleK::Client, RoleK::Server] {
        for offline in [false, true] {
            o.push(lives(r, offline, &[]));
        }
    }
    // store order: three packets stored, some of them dropped or completed, resumed more than once
    for (r, v) in RV {
        for auto in [true, false] {
            for offline in [false, true] {
                let lims = if v == Ver::V5 { vec![vec![], vec![mps(12)]] } else { vec![vec![]] };
                let (c, k) = nego(r, v, 0, vec![vec![]], lims);
                let keep = |l: Vec<Pkt>| -> Vec<Pkt> { l.into_iter().filter(|p| !matches!(p.b, Body::Connect { clean: true, .. } | Body::Connack { sp: false, .. })).collect() };
                let a = Alpha {
                    setup: vec![Call::AutoPub(auto), Call::Offline(offline)],
                    connects: keep(c),
                    connacks: keep(k),
                    pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![]), publish_pl(v, 1, 1, "t", vec![], 9)],
                    pub_any_state: true,
                    peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None)],
                    acks_matching_only: true,
                    ack_ids: vec![1, 2, 3],
                    local_acks: vec![(PUBREL, None)],
                    erase: true,
                    max_used: 3,
                    max_conns: 3,
                    probe: vec![1, 2, 3, 4],
                    ..Alpha::default()
                };
                o.push(Cfg { label: format!("{r:?} {} store order auto={auto} offline={offline}", vname(v)), spec: spec(r, v), a, d: (8, 14) });
            }
        }
    }
    o
}

/// small traffic in both directions under every life of the session
fn lives(r: RoleK, offline: bool, probe: &[u32]) -> Cfg {
    let v = Ver::V5;
    let (c, k) = session_lives();
    let a = Alpha {
        setup: vec![Call::AutoPub(true), Call::Offline(offline)],
        connects: c,
        connacks: k,
        pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![])],
        pub_any_state: true,
        subs: if cl(r) { vec![subscribe(v)] } else { vec![] },
        peer_pubs: vec![publish(v, 2, 1, "t", vec![])],
        peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None), (PUBREL, None)],
        acks_matching_only: true,
        ack_ids: vec![1, 2],
        max_used: 2,
        max_conns: 3,
        probe: if probe.is_empty() { vec![1, 2, 3] } else { probe.to_vec() },
        restart: true,
        ..Alpha::default()
    };
    Cfg { label: format!("{r:?} v5.0 session lives offline={offline}"), spec: spec(r, v), a, d: (7, 11) }
}
fn cl(r: RoleK) -> bool {
    r == RoleK::Client
}
/// put the limits of each side into the packet that carries them: `mine` are this endpoint's
/// announcements, `theirs` the peer's
fn nego(r: RoleK, v: Ver, ka: u16, mine: Vec<Vec<Prop>>, theirs: Vec<Vec<Prop>>) -> (Vec<Pkt>, Vec<Pkt>) {
    let (cp, ap) = if cl(r) { (mine, theirs) } else { (theirs, mine) };
    let mut c = vec![];
    for p in cp {
        c.extend(connects(v, ka, p));
    }
    let mut a = vec![];
    for p in ap {
        a.extend(connacks(v, p));
    }
    (c, a)
}

fn c07(_quick: bool) -> Vec<Cfg> {
    let mut o = vec![lives(RoleK::Client, false, &[]), lives(RoleK::Server, false, &[])];
    for (r, v) in RV {
        for auto in [true, false] {
            let mut la = vec![(PUBREC, None), (PUBCOMP, None), (PUBACK, None)];
            if v == Ver::V5 {
                la.push((PUBREC, Some(0x80)));
                la.push((PUBREC, Some(0x10)));
            }
            let mut peer_pubs = vec![publish(v, 2, 1, "t", vec![]), publish(v, 2, 2, "u", vec![])];
            let mut d = publish(v, 2, 1, "t", vec![]);
            if let Body::Publish { dup, .. } = &mut d.b {
                *dup = true;
            }
            peer_pubs.push(d);
            let a = Alpha {
                setup: vec![Call::AutoPub(auto)],
                connects: connects(v, 0, vec![]),
                connacks: connacks(v, vec![]),
                peer_pubs: peer_pubs.clone(),
                peer_acks: vec![(PUBREL, None)],
                ack_ids: vec![1, 2],
                local_acks: la.clone(),
                max_conns: 3,
                restart: true,
                ..Alpha::default()
            };
            o.push(Cfg { label: format!("{r:?} {} auto={auto}", vname(v)), spec: spec(r, v), a, d: (7, 14) });
            // both directions with the same identifiers
            let a = Alpha {
                setup: vec![Call::AutoPub(auto)],
                connects: connects(v, 0, vec![]),
                connacks: connacks(v, vec![]),
                pubs: vec![publish(v, 2, 1, "t", vec![])],
                peer_pubs: vec![publish(v, 2, 1, "t", vec![]), publish(v, 1, 1, "t", vec![]), publish(v, 0, 0, "t", vec![])],
                peer_acks: vec![(PUBREL, None), (PUBREC, None), (PUBCOMP, None)],
                ack_ids: vec![1],
                local_acks: {
                    let mut l = la.clone();
                    l.push((PUBREL, None));
                    l
                },
                max_used: 1,
                max_conns: 3,
                restart: true,
                ..Alpha::default()
            };
            o.push(Cfg { label: format!("{r:?} {} auto={auto} both directions", vname(v)), spec: spec(r, v), a, d: (7, 14) });
            if v == Ver::V5 {
                // refusals of the PUBLISH itself: alias, receive maximum, packet sizes
                for (n, mine, theirs) in [
                    ("alias", vec![tam(1)], vec![]),
                    ("receive maximum 1", vec![rm(1), tam(1)], vec![]),
                    ("peer's maximum packet size 3", vec![], vec![mps(3)]),
                    ("own maximum packet size 10", vec![mps(10), tam(1)], vec![]),
                ] {
                    let (c, k) = nego(r, v, 0, vec![mine], vec![theirs]);
                    let a = Alpha {
                        setup: vec![Call::AutoPub(auto)],
                        connects: c,
                        connacks: k,
                        peer_pubs: vec![
                            publish(v, 2, 1, "t", vec![]),
                            publish(v, 2, 2, "u", vec![]),
                            publish(v, 2, 1, "t", vec![alias(2)]),
                            publish(v, 2, 1, "", vec![alias(1)]),
                            publish(v, 2, 1, "t", vec![alias(1)]),
                        ],
                        peer_acks: vec![(PUBREL, None)],
                        ack_ids: vec![1, 2],
                        local_acks: la.clone(),
                        max_conns: 2,
                        ..Alpha::default()
                    };
                    o.push(Cfg { label: format!("{r:?} v5.0 auto={auto} {n}"), spec: spec(r, v), a, d: (6, 10) });
                }
            }
        }
    }
    o
}

fn c08(_quick: bool) -> Vec<Cfg> {
    let mut o = vec![lives(RoleK::Client, false, &[]), lives(RoleK::Server, false, &[])];
    for idw in [2u8, 4] {
        let max = if idw == 2 { 65535u32 } else { u32::MAX };
        for (r, v) in RV {
            for auto in [true, false] {
                let mut subs = vec![];
                let mut acks = outbound_acks(v);
                if cl(r) {
                    subs = vec![subscribe(v), unsubscribe(v)];
                    acks.push((SUBACK, None));
                    acks.push((UNSUBACK, None));
                }
                let (c, k) = nego(r, v, 0, vec![vec![]], vec![vec![]]);
                let a = Alpha {
                    setup: vec![Call::AutoPub(auto)],
                    connects: c,
                    connacks: k,
                    pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![])],
                    pub_any_state: true,
                    subs,
                    peer_acks: acks,
                    ack_ids: vec![1, 2],
                    local_acks: vec![(PUBREL, None)],
                    erase: true,
                    acquire_only: true,
                    register: vec![0, 1, 3, max],
                    release_ids: vec![0, 1, 2, max],
                    max_used: 2,
                    max_conns: 2,
                    probe: vec![0, 1, 2, 3, 4, max - 1, max],
                    send_err: true,
                    ..Alpha::default()
                }
                .width(idw);
                let mut s = spec(r, v);
                s.idw = idw;
                o.push(Cfg { label: format!("{r:?} {} auto={auto} id{}", vname(v), idw * 8), spec: s, a, d: (5, 8) });
            }
            // packets refused for their own reasons
            for offline in [false, true] {
                let ov = if v == Ver::V3 { Ver::V5 } else { Ver::V3 };
                let (c, k) = nego(r, v, 0, vec![vec![]], vec![if v == Ver::V5 { vec![rm(1), mps(30), tam(1)] } else { vec![] }]);
                let mut pubs = vec![publish(v, 1, 1, "t", vec![]), publish(ov, 1, 1, "t", vec![]), publish(ov, 2, 1, "t", vec![]), publish_pl(v, 2, 1, "t", vec![], 40)];
                if v == Ver::V5 {
                    pubs.push(publish(v, 1, 1, "t", vec![alias(2)]));
                    pubs.push(publish(v, 2, 1, "", vec![alias(1)]));
                    pubs.push(publish(v, 1, 1, "t", vec![alias(1)]));
                }
                let mut big_sub = subscribe(v);
                if let Body::Subscribe { entries, .. } = &mut big_sub.b {
                    entries.push(("x".repeat(40), 0));
                }
                let mut big_unsub = unsubscribe(v);
                if let Body::Unsubscribe { topics, .. } = &mut big_unsub.b {
                    topics.push("x".repeat(40));
                }
                let mut acks = outbound_acks(v);
                if cl(r) {
                    acks.push((SUBACK, None));
                    acks.push((UNSUBACK, None));
                }
                let a = Alpha {
                    setup: vec![Call::AutoPub(true), Call::Offline(offline)],
                    connects: c,
                    connacks: k,
                    pubs,
                    pub_any_state: true,
                    subs: vec![subscribe(v), unsubscribe(v), subscribe(ov), unsubscribe(ov), big_sub, big_unsub],
                    peer_acks: acks,
                    acks_matching_only: true,
                    ack_ids: vec![1, 2],
                    max_used: 2,
                    max_conns: 2,
                    probe: vec![1, 2, 3],
                    ..Alpha::default()
                }
                .width(idw);
                let mut s = spec(r, v);
                s.idw = idw;
                o.push(Cfg { label: format!("{r:?} {} refusals offline={offline} id{}", vname(v), idw * 8), spec: s, a, d: (5, 8) });
            }
        }
    }
    o
}

fn c12(_quick: bool) -> Vec<Cfg> {
    let mut o = vec![];
    let v = Ver::V5;
    for r in [RoleK::Client, RoleK::Server] {
        for auto in [true, false] {
            for m in [1u16, 2, 3] {
                let (c, k) = nego(r, v, 0, vec![vec![]], vec![vec![rm(m)]]);
                let a = Alpha {
                    setup: vec![Call::AutoPub(auto)],
                    connects: c,
                    connacks: k,
                    pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![]), publish(v, 0, 0, "t", vec![])],
                    pub_any_state: true,
                    peer_acks: outbound_acks(v),
                    acks_matching_only: m > 1,
                    ack_ids: (1..=m as u32 + 1).collect(),
                    local_acks: vec![(PUBREL, None)],
                    erase: m < 3,
                    send_err: m == 1,
                    max_used: m as usize + 1,
                    max_conns: 2,
                    ..Alpha::default()
                };
                o.push(Cfg { label: format!("{r:?} outbound auto={auto} RM={m}"), spec: spec(r, v), a, d: (if m < 3 { 7 } else { 6 }, 10) });
                let (c, k) = nego(r, v, 0, vec![vec![rm(m)]], vec![vec![]]);
                let a = Alpha {
                    setup: vec![Call::AutoPub(auto)],
                    connects: c,
                    connacks: k,
                    peer_pubs: vec![
                        publish(v, 1, 1, "t", vec![]),
                        publish(v, 1, 2, "t", vec![]),
                        publish(v, 2, 3, "t", vec![]),
                        publish(v, 2, 4, "t", vec![]),
                        publish(v, 0, 0, "t", vec![]),
                    ],
                    peer_acks: vec![(PUBREL, None)],
                    ack_ids: vec![3, 4],
                    local_acks: vec![(PUBACK, None), (PUBREC, None), (PUBREC, Some(0x80)), (PUBREC, Some(0x10)), (PUBACK, Some(0x80)), (PUBCOMP, None)],
                    max_conns: 2,
                    ..Alpha::default()
                };
                o.push(Cfg { label: format!("{r:?} inbound auto={auto} RM={m}"), spec: spec(r, v), a, d: (6, 10) });
            }
            // different limits on consecutive connections, offline publishes, restart
            for offline in [false, true] {
                let (c, k) = nego(r, v, 0, vec![vec![]], vec![vec![rm(1)], vec![rm(2)], vec![]]);
                let a = Alpha {
                    setup: vec![Call::AutoPub(auto), Call::Offline(offline)],
                    connects: c,
                    connacks: k,
                    pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![])],
                    pub_any_state: true,
                    peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None), (PUBREC, Some(0x80))],
                    acks_matching_only: true,
                    ack_ids: vec![1, 2, 3],
                    local_acks: vec![(PUBREL, None)],
                    max_used: 3,
                    max_conns: 2,
                    restart: true,
                    ..Alpha::default()
                };
                o.push(Cfg { label: format!("{r:?} reconnect auto={auto} offline={offline}"), spec: spec(r, v), a, d: (6, 9) });
            }
            // RM together with aliases and small packet sizes: refused packets do not count
            let (c, k) = nego(r, v, 0, vec![vec![rm(1), mps(12), tam(1)]], vec![vec![rm(2), mps(12), tam(1)]]);
            let a = Alpha {
                setup: vec![Call::AutoPub(auto)],
                connects: c,
                connacks: k,
                pubs: vec![publish(v, 1, 1, "t", vec![]), publish_pl(v, 2, 1, "t", vec![], 20), publish(v, 2, 1, "", vec![alias(1)]), publish(v, 1, 1, "t", vec![alias(1)])],
                peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None), (PUBREL, None)],
                ack_ids: vec![1],
                peer_pubs: vec![publish(v, 2, 1, "t", vec![]), publish_pl(v, 2, 2, "t", vec![], 20), publish(v, 1, 2, "", vec![alias(1)]), publish(v, 1, 2, "", vec![alias(2)])],
                local_acks: vec![(PUBREL, None), (PUBREC, None), (PUBACK, None), (PUBCOMP, None)],
                max_used: 3,
                max_conns: 2,
                ..Alpha::default()
            };
            o.push(Cfg { label: format!("{r:?} refusals auto={auto}"), spec: spec(r, v), a, d: (5, 8) });
        }
    }
    o
}

fn c13(_quick: bool) -> Vec<Cfg> {
    let mut o = vec![];
    let v = Ver::V5;
    for r in [RoleK::Client, RoleK::Server] {
        for (map, rep) in [(true, false), (false, true), (true, true), (false, false)] {
            for t in [0u16, 1, 2] {
                for lim in 0..3 {
                    let mut th = if t > 0 { vec![tam(t)] } else { vec![] };
                    match lim {
                        1 => th.push(rm(1)),
                        // a plain PUBLISH fits, one with a topic alias added does not
                        2 => th.push(mps(10)),
                        _ => {}
                    }
                    let (c, k) = nego(r, v, 0, vec![vec![]], vec![th]);
                    let mut pubs = vec![publish(v, 0, 0, "a", vec![]), publish(v, 0, 0, "b", vec![]), publish(v, 0, 0, "ccc", vec![]), publish(v, 1, 1, "a", vec![]), publish(v, 2, 1, "ccc", vec![])];
                    for al in [1u16, 2, 3] {
                        pubs.push(publish(v, 0, 0, "a", vec![alias(al)]));
                        pubs.push(publish(v, 0, 0, "", vec![alias(al)]));
                        if al < 3 {
                            pubs.push(publish(v, 1, 1, "b", vec![alias(al)]));
                            pubs.push(publish(v, 2, 1, "", vec![alias(al)]));
                        }
                    }
                    if lim > 0 {
                        pubs.truncate(9);
                        pubs.push(publish(v, 1, 1, "b", vec![alias(1)]));
                        pubs.push(publish(v, 1, 1, "", vec![alias(1)]));
                    }
                    let a = Alpha {
                        setup: vec![Call::AutoPub(true), Call::AutoMap(map), Call::AutoReplace(rep)],
                        connects: c,
                        connacks: k,
                        pubs,
                        pub_any_state: lim == 0,
                        peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None)],
                        acks_matching_only: true,
                        ack_ids: vec![1],
                        max_used: 2,
                        max_conns: 2,
                        ..Alpha::default()
                    };
                    o.push(Cfg { label: format!("{r:?} outbound map={map} replace={rep} TAM={t} lim={lim}"), spec: spec(r, v), a, d: (5, 7) });
                }
            }
        }
        // switching the options on one connection, three topics on two aliases
        let (c, k) = nego(r, v, 0, vec![vec![]], vec![vec![tam(2)]]);
        let a = Alpha {
            setup: vec![Call::AutoPub(true)],
            connects: c,
            connacks: k,
            pubs: vec![publish(v, 0, 0, "a", vec![]), publish(v, 0, 0, "b", vec![]), publish(v, 0, 0, "c", vec![]), publish(v, 0, 0, "a", vec![alias(2)]), publish(v, 0, 0, "", vec![alias(2)])],
            cfg: vec![Call::AutoMap(true), Call::AutoMap(false), Call::AutoReplace(true), Call::AutoReplace(false)],
            max_conns: 2,
            ..Alpha::default()
        };
        o.push(Cfg { label: format!("{r:?} outbound switching options"), spec: spec(r, v), a, d: (7, 11) });
        for t in [0u16, 1, 2] {
            let (c, k) = nego(r, v, 0, vec![if t > 0 { vec![tam(t)] } else { vec![] }], vec![vec![]]);
            let mut pp = vec![publish(v, 0, 0, "a", vec![]), publish(v, 2, 1, "a", vec![])];
            for al in [0u16, 1, 2, 3] {
                pp.push(publish(v, 0, 0, "a", vec![alias(al)]));
                pp.push(publish(v, 0, 0, "", vec![alias(al)]));
                pp.push(publish(v, 1, 1, "b", vec![alias(al)]));
                pp.push(publish(v, 2, 2, "b", vec![alias(al)]));
                pp.push(publish(v, 2, 1, "", vec![alias(al)]));
                // a retransmission binds and uses aliases like any other PUBLISH
                for (q, t) in [(1, "c"), (2, "c"), (1, "")] {
                    let mut d = publish(v, q, 3, t, vec![alias(al)]);
                    if let Body::Publish { dup, .. } = &mut d.b {
                        *dup = true;
                    }
                    if al < 3 {
                        pp.push(d);
                    }
                }
            }
            let a = Alpha {
                setup: vec![Call::AutoPub(true)],
                connects: c,
                connacks: k,
                peer_pubs: pp,
                max_conns: 2,
                ..Alpha::default()
            };
            o.push(Cfg { label: format!("{r:?} inbound TAM={t}"), spec: spec(r, v), a, d: (5, 7) });
        }
    }
    o
}

fn c14(quick: bool) -> Vec<Cfg> {
    let mut o = vec![];
    let v = Ver::V5;
    for r in [RoleK::Client, RoleK::Server] {
        for m in if quick { vec![2u32, 3, 4, 7, 9, 10, 11, 12, 14] } else { (1u32..=24).collect() } {
            for auto in [true, false] {
                // outbound: what this endpoint sends, incl. automatic responses
                let (c, k) = nego(r, v, 0, vec![vec![tam(1)]], vec![vec![mps(m), tam(1)]]);
                let mut subs = vec![];
                let mut misc = vec![disconnect(v, None), disconnect(v, Some(4)), mk(v, 2, Body::Auth { code: Some(0x18), props: Some(vec![Prop { id: 0x15, v: PV::Str("m".into()) }]) })];
                let mut mrecv = vec![];
                let mut acks = vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None), (PUBREL, None)];
                if cl(r) {
                    subs = vec![subscribe(v), unsubscribe(v)];
                    misc.push(mk(v, 2, Body::Pingreq));
                    acks.push((SUBACK, None));
                } else {
                    mrecv.push(mk(v, 2, Body::Pingreq));
                    mrecv.push(subscribe(v));
                    misc.push(mk(v, 2, Body::Suback { id: 1, props: vec![], codes: vec![0] }));
                    misc.push(mk(v, 2, Body::Unsuback { id: 1, props: vec![], codes: vec![0] }));
                    misc.push(mk(v, 2, Body::Pingresp));
                }
                let a = Alpha {
                    setup: vec![Call::AutoPub(auto), Call::AutoPing(auto), Call::AutoMap(auto), Call::PingrespTo(if cl(r) { 500 } else { 0 })],
                    connects: c,
                    connacks: k,
                    pubs: vec![publish(v, 1, 1, "t", vec![]), publish_pl(v, 2, 1, "t", vec![], 3), publish_pl(v, 0, 0, "t", vec![], 2), publish(v, 1, 1, "t", vec![alias(1)]), publish(v, 2, 1, "", vec![alias(1)])],
                    subs,
                    peer_pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 2, "t", vec![]), publish(v, 0, 0, "", vec![alias(1)]), publish(v, 0, 0, "t", vec![alias(2)])],
                    peer_acks: acks,
                    ack_ids: vec![1, 2],
                    local_acks: vec![(PUBACK, None), (PUBREC, None), (PUBREC, Some(0x80)), (PUBCOMP, None), (PUBREL, None)],
                    misc_send: misc,
                    misc_recv: mrecv,
                    timers: true,
                    max_used: 2,
                    max_conns: 2,
                    ..Alpha::default()
                };
                o.push(Cfg { label: format!("{r:?} outbound auto={auto} MPS={m}"), spec: spec(r, v), a, d: (4, 6) });
            }
            // inbound limit
            let (c, k) = nego(r, v, 0, vec![vec![mps(m)]], vec![vec![]]);
            let mut mrecv = vec![disconnect(v, None)];
            if cl(r) {
                mrecv.push(mk(v, 2, Body::Suback { id: 1, props: vec![], codes: vec![0] }));
                mrecv.push(mk(v, 2, Body::Pingresp));
            } else {
                mrecv.push(mk(v, 2, Body::Pingreq));
                mrecv.push(subscribe(v));
            }
            let mut pp = vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 2, "t", vec![])];
            for n in 0..14usize {
                pp.push(publish_pl(v, 0, 0, "t", vec![], n));
            }
            let a = Alpha {
                setup: vec![Call::AutoPub(true)],
                connects: c,
                connacks: k,
                pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![])],
                peer_pubs: pp,
                peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBREC, Some(0x10)), (PUBCOMP, None), (PUBREL, None)],
                ack_ids: vec![1, 2],
                misc_recv: mrecv,
                max_used: 1,
                max_conns: 2,
                ..Alpha::default()
            };
            o.push(Cfg { label: format!("{r:?} inbound MPS={m}"), spec: spec(r, v), a, d: (4, 6) });
        }
        // stored packets against a different limit on the next connection
        for auto in [true, false] {
            for offline in [false, true] {
                let lims: Vec<Vec<Prop>> = if quick { vec![vec![], vec![mps(3)], vec![mps(4)], vec![mps(9)], vec![mps(10)]] } else { [None, Some(2), Some(3), Some(4), Some(5), Some(8), Some(9), Some(10), Some(13), Some(14)].iter().map(|m| m.map(mps).into_iter().collect()).collect() };
                let (c, k) = nego(r, v, 0, vec![vec![]], lims);
                let a = Alpha {
                    setup: vec![Call::AutoPub(auto), Call::Offline(offline)],
                    connects: c,
                    connacks: k,
                    pubs: vec![publish(v, 1, 1, "t", vec![]), publish_pl(v, 2, 1, "t", vec![], 5)],
                    pub_any_state: true,
                    peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None)],
                    acks_matching_only: true,
                    ack_ids: vec![1, 2],
                    local_acks: vec![(PUBREL, None)],
                    max_used: 2,
                    max_conns: 2,
                    probe: vec![1, 2, 3],
                    ..Alpha::default()
                };
                o.push(Cfg { label: format!("{r:?} resume auto={auto} offline={offline}"), spec: spec(r, v), a, d: (6, 9) });
            }
        }
    }
    o
}

fn c15(_quick: bool) -> Vec<Cfg> {
    let mut o = vec![];
    for (r, v) in RV {
        for ka in [0u16, 10] {
            for (ovr, prt) in [(None, 0u64), (Some(0u64), 700), (Some(3000), 700), (None, 700)] {
                if !cl(r) && (ovr.is_some() || prt > 0) {
                    continue;
                }
                for auto in [true, false] {
                    let (mut c, mut k) = (connects(v, ka, vec![]), connacks(v, vec![]));
                    // a second keep-alive value for the next connection
                    c.push(connect(v, true, 7, vec![]));
                    c.push(connect(v, true, 0, vec![]));
                    if v == Ver::V5 {
                        k.push(connack(v, false, 0, vec![ska(0)]));
                        k.push(connack(v, false, 0, vec![ska(20)]));
                        k.push(connack(v, true, 0, vec![ska(20)]));
                        k.push(connack(v, false, 0x87, vec![]));
                        k.push(connack(v, true, 0x87, vec![]));
                    } else {
                        k.push(connack(v, false, 5, vec![]));
                        k.push(connack(v, true, 5, vec![]));
                    }
                    let mut misc = vec![];
                    let mut mrecv = vec![];
                    let mut cfg = vec![];
                    let mut pubs = vec![publish(v, 0, 0, "t", vec![]), publish(v, 1, 1, "t", vec![])];
                    let mut subs = vec![];
                    let mut acks = vec![(PUBACK, None)];
                    if cl(r) {
                        misc.push(disconnect(v, None));
                        misc.push(mk(v, 2, Body::Pingreq));
                        mrecv.push(mk(v, 2, Body::Pingresp));
                        cfg = vec![Call::PingInterval(Some(0)), Call::PingInterval(Some(3000)), Call::PingInterval(None), Call::PingrespTo(0), Call::PingrespTo(900)];
                        subs = vec![subscribe(v)];
                        acks.push((SUBACK, None));
                        if v == Ver::V5 {
                            mrecv.push(disconnect(v, None));
                        }
                    } else {
                        mrecv.push(disconnect(v, None));
                        mrecv.push(mk(v, 2, Body::Pingreq));
                        mrecv.push(subscribe(v));
                        if v == Ver::V5 {
                            misc.push(disconnect(v, None));
                        }
                        pubs.pop();
                    }
                    if v == Ver::V5 {
                        mrecv.push(mk(v, 2, Body::Auth { code: Some(0x18), props: Some(vec![Prop { id: 0x15, v: PV::Str("m".into()) }]) }));
                    }
                    let a = Alpha {
                        setup: vec![Call::AutoPub(auto), Call::AutoPing(auto), Call::PingInterval(ovr), Call::PingrespTo(prt)].into_iter().filter(|c| cl(r) || !matches!(c, Call::PingInterval(_))).collect(),
                        connects: c,
                        connacks: k,
                        pubs,
                        pub_any_state: true,
                        subs,
                        peer_pubs: vec![publish(v, 0, 0, "t", vec![]), publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![])],
                        peer_acks: acks,
                        ack_ids: vec![1],
                        local_acks: vec![(PUBACK, None), (PUBREC, None)],
                        misc_send: misc,
                        misc_recv: mrecv,
                        cfg,
                        timers: true,
                        max_used: 1,
                        max_conns: 2,
                        raw: vec![vec![0xf0, 0x80, 0x80, 0x80, 0x80], vec![0x62, 0x01, 0x00], vec![0x30]],
                        ..Alpha::default()
                    };
                    o.push(Cfg { label: format!("{r:?} {} ka={ka} override={ovr:?} pingresp={prt} auto={auto}", vname(v)), spec: spec(r, v), a, d: (5, 7) });
                    // keep alive across resumption with small packet sizes
                    if v == Ver::V5 && ka == 10 {
                        let (c, k) = nego(r, v, ka, vec![vec![mps(20)]], vec![vec![mps(2)], vec![mps(3)], vec![]]);
                        let a = Alpha {
                            setup: vec![Call::AutoPub(auto), Call::AutoPing(auto), Call::PingInterval(ovr), Call::PingrespTo(prt)].into_iter().filter(|c| cl(r) || !matches!(c, Call::PingInterval(_))).collect(),
                            connects: c,
                            connacks: k,
                            pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![])],
                            pub_any_state: true,
                            peer_pubs: vec![publish(v, 1, 1, "t", vec![]), publish_pl(v, 0, 0, "t", vec![], 40)],
                            peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None)],
                            ack_ids: vec![1],
                            timers: true,
                            max_used: 1,
                            max_conns: 2,
                            ..Alpha::default()
                        };
                        o.push(Cfg { label: format!("{r:?} {} small packets ka={ka} override={ovr:?} pingresp={prt} auto={auto}", vname(v)), spec: spec(r, v), a, d: (5, 8) });
                    }
                }
            }
        }
    }
    // every kind of packet that can be sent and received, with the keep-alive timers armed
    for (r, v) in RV {
        for (auto, prt) in [(true, 0u64), (false, 700)] {
            if !cl(r) && prt > 0 && auto {
                continue;
            }
            let auth = |c: u8| mk(v, 2, Body::Auth { code: Some(c), props: Some(vec![Prop { id: 0x15, v: PV::Str("m".into()) }]) });
            let mut misc = vec![];
            let mut mrecv = vec![];
            let mut subs = vec![];
            let mut acks = vec![(PUBACK, None), (PUBREC, None), (PUBREL, None), (PUBCOMP, None)];
            if cl(r) {
                misc.push(mk(v, 2, Body::Pingreq));
                mrecv.push(mk(v, 2, Body::Pingresp));
                subs = vec![subscribe(v), unsubscribe(v)];
                acks.push((SUBACK, None));
                acks.push((UNSUBACK, None));
            } else {
                misc.push(mk(v, 2, Body::Pingresp));
                misc.push(mk(v, 2, Body::Suback { id: 1, props: vec![], codes: vec![0] }));
                misc.push(mk(v, 2, Body::Unsuback { id: 1, props: vec![], codes: if v == Ver::V5 { vec![0] } else { vec![] } }));
                mrecv.push(mk(v, 2, Body::Pingreq));
                mrecv.push(subscribe(v));
                mrecv.push(unsubscribe(v));
            }
            if v == Ver::V5 {
                misc.push(auth(0x18));
                misc.push(auth(0x19));
                mrecv.push(auth(0x18));
                mrecv.push(auth(0x19));
                acks.push((PUBREC, Some(0x80)));
            }
            let a = Alpha {
                setup: vec![Call::AutoPub(auto), Call::AutoPing(auto), Call::PingrespTo(if cl(r) { prt } else { 0 })],
                connects: connects(v, 10, vec![]),
                connacks: connacks(v, vec![]),
                pubs: vec![publish(v, 0, 0, "t", vec![]), publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![])],
                subs,
                peer_pubs: vec![publish(v, 0, 0, "t", vec![]), publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![])],
                peer_acks: acks,
                ack_ids: vec![1],
                local_acks: vec![(PUBACK, None), (PUBREC, None), (PUBREL, None), (PUBCOMP, None)],
                misc_send: misc,
                misc_recv: mrecv,
                timers: true,
                max_used: 1,
                max_conns: 2,
                ..Alpha::default()
            };
            o.insert(0, Cfg { label: format!("{r:?} {} every kind auto={auto} pingresp={prt}", vname(v)), spec: spec(r, v), a, d: (6, 9) });
        }
    }
    o
}

fn c19(_quick: bool) -> Vec<Cfg> {
    let mut o = vec![];
    for (r, v) in RV {
        for auto in [true, false] {
            for ka in [0u16, 10] {
                let lims: Vec<Vec<Prop>> = if v == Ver::V5 { vec![vec![], vec![mps(2)], vec![mps(3)], vec![rm(1), mps(12)]] } else { vec![vec![]] };
                for l in lims {
                    let (mut c, mut k) = nego(r, v, ka, vec![if v == Ver::V5 { vec![rm(1), tam(1), mps(24)] } else { vec![] }], vec![l.clone()]);
                    c.push(connect(v, true, ka, vec![]));
                    let codes: Vec<u8> = if v == Ver::V5 { vec![0x80, 0x84, 0x87, 0x95, 0x9f] } else { vec![1, 2, 5] };
                    for code in codes {
                        k.push(connack(v, false, code, vec![]));
                        k.push(connack(v, true, code, vec![]));
                    }
                    let mut misc = vec![];
                    let mut mrecv = vec![];
                    if cl(r) {
                        misc.push(disconnect(v, None));
                        mrecv.push(subscribe(v));
                        mrecv.push(mk(v, 2, Body::Pingreq));
                        mrecv.push(mk(v, 2, Body::Pingresp));
                        mrecv.push(mk(v, 2, Body::Suback { id: 1, props: vec![], codes: vec![0] }));
                    } else {
                        mrecv.push(connect(v, true, ka, vec![]));
                        mrecv.push(mk(v, 2, Body::Pingresp));
                        mrecv.push(mk(v, 2, Body::Pingreq));
                        mrecv.push(connack(v, true, 0, vec![]));
                    }
                    mrecv.push(disconnect(v, if v == Ver::V5 { Some(0x81) } else { None }));
                    if v == Ver::V5 {
                        misc.push(disconnect(v, Some(0x04)));
                        misc.push(disconnect(v, Some(0x00)));
                        misc.push(disconnect(v, Some(0x8b)));
                        mrecv.push(mk(v, 2, Body::Auth { code: Some(0x18), props: Some(vec![Prop { id: 0x15, v: PV::Str("m".into()) }]) }));
                    }
                    let a = Alpha {
                        setup: vec![Call::AutoPub(auto), Call::AutoPing(auto), Call::PingrespTo(if cl(r) { 700 } else { 0 })],
                        connects: c,
                        connacks: k,
                        pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![])],
                        peer_pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![]), publish(v, 2, 2, "t", vec![]), publish(v, 0, 0, "", vec![]), publish_pl(v, 0, 0, "t", vec![], 40)],
                        peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBREL, None), (PUBCOMP, None)],
                        ack_ids: vec![1],
                        local_acks: vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None)],
                        misc_send: misc,
                        misc_recv: mrecv,
                        raw: vec![vec![0xf0, 0x80, 0x80, 0x80, 0x80], vec![0x62, 0x01, 0x00], vec![0x36, 0x00], vec![0x00, 0x00], vec![0xf7, 0x00], vec![0x10, 0x00], vec![0x20, 0x00]],
                        timers: true,
                        peer_any_state: true,
                        max_used: 1,
                        max_conns: 2,
                        ..Alpha::default()
                    };
                    o.push(Cfg { label: format!("{r:?} {} auto={auto} ka={ka} peer {l:?}", vname(v)), spec: spec(r, v), a, d: (4, 6) });
                }
            }
        }
    }
    o
}

fn c05(_quick: bool) -> Vec<Cfg> {
    let mut o = vec![];
    let all_specs: Vec<Spec> = {
        let mut s: Vec<Spec> = RV.iter().map(|(r, v)| spec(*r, *v)).collect();
        s.push(Spec { role: RoleK::Server, ver: None, idw: 2 });
        s.push(spec(RoleK::Any, Ver::V3));
        s.push(spec(RoleK::Any, Ver::V5));
        s.push(Spec { role: RoleK::Any, ver: None, idw: 2 });
        s.push(Spec { role: RoleK::Client, ver: Some(Ver::V5), idw: 4 });
        s.push(Spec { role: RoleK::Server, ver: Some(Ver::V3), idw: 4 });
        s
    };
    for s in all_specs {
        let vs: Vec<Ver> = match s.ver {
            Some(v) => vec![v],
            None => vec![Ver::V3, Ver::V5],
        };
        for auto in [true, false] {
            let mut c = vec![];
            let mut k = vec![];
            let mut misc = vec![];
            let mut mrecv = vec![];
            let mut pp = vec![];
            let mut pubs = vec![];
            let mut subs = vec![];
            for v in &vs {
                let v = *v;
                let (a, b) = nego(s.role, v, 10, vec![vec![], vec![rm(1), tam(1), mps(60)]], vec![vec![], vec![rm(1), tam(1), mps(4)], vec![tam(0)]]);
                c.extend(a);
                k.extend(b);
                c.push(connect(v, true, 65535, vec![]));
                pubs.push(publish(v, 1, 1, "t", vec![]));
                pubs.push(publish(v, 2, 1, "t", vec![]));
                if cl(s.role) {
                    subs.push(subscribe(v));
                    subs.push(unsubscribe(v));
                    misc.push(disconnect(v, None));
                    misc.push(mk(v, 2, Body::Pingreq));
                }
                for q in 0..3u8 {
                    for id in if q == 0 { vec![0u32] } else { vec![0u32, 1, 65535] } {
                        pp.push(publish(v, q, id, "t", vec![]));
                    }
                    pp.push(publish(v, q, 1, "", vec![]));
                    if v == Ver::V5 {
                        for al in [0u16, 1, 2] {
                            pp.push(publish(v, q, 2, "", vec![alias(al)]));
                            pp.push(publish(v, q, 2, "t", vec![alias(al)]));
                        }
                    }
                }
                pp.push(publish_pl(v, 1, 1, "t", vec![], 70));
                mrecv.push(connect(v, true, 21846, vec![]));
                mrecv.push(connect(v, false, 0, if v == Ver::V5 { vec![tam(0), sei(1)] } else { vec![] }));
                mrecv.push(connack(v, false, 0, vec![]));
                mrecv.push(connack(v, true, 0, vec![]));
                mrecv.push(connack(v, false, 5, vec![]));
                mrecv.push(connack(v, true, 5, vec![]));
                mrecv.push(subscribe(v));
                mrecv.push(unsubscribe(v));
                mrecv.push(mk(v, 2, Body::Pingreq));
                mrecv.push(mk(v, 2, Body::Pingresp));
                mrecv.push(disconnect(v, None));
                for i in [0u32, 1] {
                    mrecv.push(mk(v, 2, Body::Suback { id: i, props: vec![], codes: vec![0] }));
                    mrecv.push(mk(v, 2, Body::Unsuback { id: i, props: vec![], codes: if v == Ver::V5 { vec![0] } else { vec![] } }));
                }
                if v == Ver::V5 {
                    mrecv.push(disconnect(v, Some(0x8d)));
                    mrecv.push(mk(v, 2, Body::Auth { code: Some(0x18), props: Some(vec![Prop { id: 0x15, v: PV::Str("m".into()) }]) }));
                    mrecv.push(mk(v, 2, Body::Auth { code: None, props: None }));
                    k.push(connack(v, false, 0x87, vec![]));
                    k.push(connack(v, true, 0x87, vec![]));
                } else {
                    k.push(connack(v, false, 5, vec![]));
                    k.push(connack(v, true, 5, vec![]));
                }
            }
            // unsolicited CONNACK is accepted by design of the original tests only while disconnected;
            // the driver offers peer bytes on an open transport
            let a = Alpha {
                setup: vec![Call::AutoPub(auto), Call::AutoPing(auto), Call::PingrespTo(if cl(s.role) { 700 } else { 0 })],
                connects: c,
                connacks: k,
                pubs,
                subs,
                peer_pubs: pp,
                peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBREL, None), (PUBCOMP, None), (PUBREC, Some(0x80)), (PUBCOMP, Some(0x92))].into_iter().filter(|x| x.1.is_none() || vs.contains(&Ver::V5)).collect(),
                ack_ids: vec![0, 1, 2, 65535],
                local_acks: vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None), (PUBREL, None)],
                misc_send: misc,
                misc_recv: mrecv,
                raw: vec![
                    vec![0x30],
                    vec![0x00],
                    vec![0x80, 0x80],
                    vec![0x00, 0x00],
                    vec![0xf0, 0x80, 0x80, 0x80, 0x80],
                    vec![0x30, 0x00],
                    vec![0x36, 0x05, 0, 1, b't', 0, 1],
                    vec![0x40, 0x00],
                    vec![0x40, 0x01, 0x01],
                    vec![0x60, 0x02, 0, 1],
                    vec![0xe0, 0x01, 0x8d],
                    vec![0xf7, 0x00],
                    vec![0x10, 0x02, 0x00, 0x04],
                ],
                timers: true,
                max_used: 1,
                max_conns: 2,
                peer_any_state: true,
                ..Alpha::default()
            };
            let vn = s.ver.map(vname).unwrap_or("undetermined");
            let any = s.role == RoleK::Any || s.idw == 4;
            let a = a.width(s.idw);
            o.push(Cfg { label: format!("{:?} {vn} auto={auto} id{} hostile peer", s.role, s.idw * 8), spec: s, a: a.clone(), d: if any { (2, 3) } else { (3, 4) } });
            if any && !auto {
                o.pop();
                continue;
            }
            // the same peer against a connection with exchanges in flight, aliases bound and
            // timers running (brought there by a fixed prefix)
            if let Some(v) = s.ver {
                for role_client in [true, false] {
                    if s.role == RoleK::Client && !role_client || s.role == RoleK::Server && role_client {
                        continue;
                    }
                    for tight in [false, true] {
                        if tight && v == Ver::V3 {
                            continue;
                        }
                        let lim = if v == Ver::V3 { vec![] } else if tight { vec![sei(9), rm(3), tam(1), mps(12)] } else { vec![sei(9), tam(2)] };
                        let mut setup = a.setup.clone();
                        setup.extend([Call::AutoMap(true), Call::AutoReplace(true), Call::Offline(true)]);
                        let w = |p: Pkt| set_w(&p, s.idw);
                        let con = w(connect(v, false, 10, lim.clone()));
                        let ack_ = w(connack(v, true, 0, lim.clone()));
                        if role_client {
                            setup.extend([Call::Send(con), Call::RecvP(ack_)]);
                        } else {
                            setup.extend([Call::RecvP(con), Call::Send(ack_)]);
                        }
                        for q in [1u8, 2, 2] {
                            setup.push(Call::Acquire);
                            let id = setup.iter().filter(|c| matches!(c, Call::Acquire)).count() as u32;
                            setup.push(Call::Send(w(publish(v, q, id, "t", vec![]))));
                        }
                        setup.push(Call::RecvP(w(ack(v, PUBREC, 3, None))));
                        if role_client {
                            setup.push(Call::Acquire);
                            setup.push(Call::Send(w(subscribe(v).with_id(4))));
                            setup.push(Call::Send(w(mk(v, 2, Body::Pingreq))));
                        }
                        setup.push(Call::RecvP(w(publish(v, 2, 1, "t", if v == Ver::V5 { vec![alias(1)] } else { vec![] }))));
                        let b = Alpha { setup, ack_ids: vec![0, 1, 2, 3, 4, 5], max_used: 6, ..a.clone() };
                        let side = if role_client { "client" } else { "server" };
                        o.push(Cfg { label: format!("{:?} {vn} auto={auto} id{} busy {side} tight={tight}", s.role, s.idw * 8), spec: s, a: b, d: (1, 3) });
                    }
                }
            }
        }
    }
    o
}

/// every role and version, reaching every connection state and every kind of identifier ownership
fn c11(_quick: bool) -> Vec<Cfg> {
    let mut o = vec![];
    for role in [RoleK::Client, RoleK::Server, RoleK::Any] {
        for ver in [Some(Ver::V3), Some(Ver::V5), None] {
            for idw in [2u8, 4] {
                for offline in [false, true] {
                    if ver.is_none() && (offline || role == RoleK::Client) {
                        continue;
                    }
                    let s = Spec { role, ver, idw };
                    let vs: Vec<Ver> = ver.map(|v| vec![v]).unwrap_or(vec![Ver::V3, Ver::V5]);
                    let mut c = vec![];
                    let mut k = vec![];
                    let mut pubs = vec![];
                    let mut subs = vec![];
                    let mut pp = vec![];
                    let mut misc = vec![];
                    let mut mrecv = vec![];
                    for v in vs {
                        c.extend(connects(v, 10, vec![]));
                        k.extend(connacks(v, vec![]));
                        k.push(connack(v, false, if v == Ver::V5 { 0x87 } else { 5 }, vec![]));
                        k.push(connack(v, true, if v == Ver::V5 { 0x87 } else { 5 }, vec![]));
                        pubs.push(publish(v, 1, 1, "t", vec![]));
                        pubs.push(publish(v, 2, 1, "t", vec![]));
                        if role != RoleK::Server {
                            subs.push(subscribe(v));
                            subs.push(unsubscribe(v));
                        }
                        if role != RoleK::Client {
                            mrecv.push(subscribe(v));
                        }
                        if v == Ver::V5 {
                            mrecv.push(mk(v, 2, Body::Auth { code: Some(0x18), props: Some(vec![Prop { id: 0x15, v: PV::Str("m".into()) }]) }));
                        }
                        mrecv.push(disconnect(v, None));
                        if role != RoleK::Server || v == Ver::V5 {
                            misc.push(disconnect(v, None));
                        }
                        pp.push(publish(v, 1, 1, "t", vec![]));
                        pp.push(publish(v, 2, 1, "t", vec![]));
                    }
                    let a = Alpha {
                        setup: vec![Call::Offline(offline), Call::PingrespTo(if role == RoleK::Server { 0 } else { 500 })],
                        connects: c,
                        connacks: k,
                        pubs,
                        subs,
                        pub_any_state: true,
                        peer_pubs: pp,
                        peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBREL, None)],
                        ack_ids: vec![1],
                        local_acks: vec![(PUBREL, None)],
                        misc_send: misc,
                        misc_recv: mrecv,
                        raw: vec![vec![0xf0, 0x80, 0x80, 0x80, 0x80], vec![0x30]],
                        acquire_only: true,
                        max_used: 2,
                        max_conns: 2,
                        ..Alpha::default()
                    }
                    .width(idw);
                    o.push(Cfg { label: format!("{role:?} {} offline={offline} id{}", ver.map(vname).unwrap_or("undetermined"), idw * 8), spec: s, a, d: (if idw == 2 { 4 } else { 3 }, 6) });
                }
            }
        }
    }
    o
}

/// crash points in the histories of C06 and C07 (judged by the C16 monitors)
fn c16(quick: bool) -> Vec<Cfg> {
    let mut o = c06(quick);
    for c in o.iter_mut() {
        c.a.restart = true;
        c.d = (8, 13);
    }
    let mut h = c07(quick);
    h.retain(|c| c.a.restart);
    for c in h.iter_mut() {
        c.d = (9, 16);
    }
    o.extend(h);
    // small packet sizes and aliases at the time of the retransmission
    for r in [RoleK::Client, RoleK::Server] {
        for auto in [true, false] {
            let v = Ver::V5;
            let (c, k) = nego(r, v, 0, vec![vec![]], vec![vec![tam(2)], vec![mps(10), rm(1)]]);
            let a = Alpha {
                setup: vec![Call::AutoPub(auto), Call::AutoMap(true)],
                connects: c,
                connacks: k,
                pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![alias(1)]), publish_pl(v, 1, 1, "t", vec![], 9), publish(v, 2, 1, "", vec![alias(1)])],
                peer_acks: outbound_acks(v),
                ack_ids: vec![1, 2],
                acks_matching_only: true,
                local_acks: vec![(PUBREL, None)],
                max_conns: 3,
                probe: vec![1, 2, 3],
                restart: true,
                ..Alpha::default()
            };
            o.push(Cfg { label: format!("{r:?} v5.0 auto={auto} aliases and packet sizes"), spec: spec(r, v), a, d: (7, 9) });
        }
    }
    o
}

fn c17(quick: bool) -> Vec<Cfg> {
    let mut o = c11(quick);
    for c in o.iter_mut() {
        c.a.cfg = vec![];
        c.a.acquire_only = false;
        c.d = (6, 9);
    }
    o
}

pub fn cfgs(prop: &str, quick: bool) -> Vec<Cfg> {
    match prop {
        "C05" => c05(quick),
        "C11" => c11(quick),
        "C17" => c17(quick),
        "C06" => c06(quick),
        "C16" => c16(quick),
        "C07" => c07(quick),
        "C08" => c08(quick),
        "C12" => c12(quick),
        "C13" => c13(quick),
        "C14" => c14(quick),
        "C15" => c15(quick),
        "C19" => c19(quick),
        _ => vec![],
    }
}

/// The same exploration with other values in the fields its property does not depend on.
#[derive(Clone, Copy, PartialEq)]
pub enum Dress {
    /// every optional field, flag and property present
    Rich,
    /// identifiers above one byte, up to the maximum
    Ids,
}
fn dress_pkt(p: &mut Pkt, peer: bool) {
    let v5 = p.ver == Ver::V5;
    let st = |id: u8, s: &str| Prop { id, v: PV::Str(s.into()) };
    let user = || Prop { id: 0x26, v: PV::Pair("k".into(), "v".into()) };
    let add = |ps: &mut Vec<Prop>, x: Vec<Prop>| {
        for q in x {
            if q.id == 0x26 || !ps.iter().any(|o| o.id == q.id) {
                ps.push(q)
            }
        }
    };
    match &mut p.b {
        Body::Connect { client_id, will, user: us, pass, props, keep_alive, .. } => {
            *keep_alive = match *keep_alive {
                10 => 65535,
                7 => 21847,
                k => k,
            };
            *client_id = "client".into();
            *us = Some("u".into());
            *pass = Some(vec![0, 255]);
            let wp = if v5 { vec![pu32(0x18, 5), pu32(0x02, 1), Prop { id: 0x01, v: PV::U8(1) }, st(0x03, "c"), user()] } else { vec![] };
            *will = Some(Will { topic: "w".into(), payload: vec![1], qos: 2, retain: true, props: wp });
            if v5 {
                for q in props.iter_mut() {
                    if q.id == 0x11 {
                        q.v = PV::U32(u32::MAX)
                    }
                }
                add(props, vec![Prop { id: 0x17, v: PV::U8(0) }, Prop { id: 0x19, v: PV::U8(1) }, user(), user()]);
            }
        }
        Body::Connack { code, props, .. } if v5 => {
            for q in props.iter_mut() {
                if q.id == 0x13 && q.v == PV::U16(20) {
                    q.v = PV::U16(65535)
                }
            }
            if *code == 0 {
                add(props, vec![Prop { id: 0x24, v: PV::U8(1) }, Prop { id: 0x25, v: PV::U8(0) }, st(0x12, "id"), Prop { id: 0x28, v: PV::U8(0) }, Prop { id: 0x29, v: PV::U8(0) }, Prop { id: 0x2a, v: PV::U8(0) }, st(0x1a, "i")]);
            }
            add(props, vec![st(0x1f, "r"), user(), st(0x1c, "s")]);
        }
        Body::Publish { dup, qos, retain, props, payload, .. } => {
            *retain = true;
            if peer && *qos > 0 {
                *dup = true;
            }
            if payload.len() == 1 {
                payload.clear();
            }
            if v5 {
                let mut x = vec![Prop { id: 0x01, v: PV::U8(1) }, pu32(0x02, 0), st(0x03, "c"), st(0x08, "r"), Prop { id: 0x09, v: PV::Bin(vec![0]) }, user(), user()];
                if peer {
                    x.push(Prop { id: 0x0b, v: PV::Vbi(128) });
                }
                // the alias (if any) is neither first nor last
                let own = std::mem::take(props);
                add(props, x[..3].to_vec());
                add(props, own);
                add(props, x[3..].to_vec());
            }
        }
        Body::Subscribe { props, entries, .. } => {
            entries.push(("u/#".into(), 2));
            if v5 {
                add(props, vec![Prop { id: 0x0b, v: PV::Vbi(268_435_455) }, user()]);
            }
        }
        Body::Unsubscribe { props, topics, .. } => {
            topics.push("+/u".into());
            if v5 {
                add(props, vec![user()]);
            }
        }
        Body::Suback { props, .. } | Body::Unsuback { props, .. } if v5 => add(props, vec![user()]),
        Body::Disconnect { code, props } if v5 => {
            *code = code.or(Some(0));
            *props = Some(vec![st(0x1f, "r"), user()]);
        }
        _ => {}
    }
}
fn dress(c: &Cfg, d: Dress) -> Option<Cfg> {
    let mut a = c.a.clone();
    match d {
        Dress::Rich => {
            a.rich = true;
            for (l, peer) in [(&mut a.connects, false), (&mut a.connacks, false), (&mut a.pubs, false), (&mut a.reg_pubs, false), (&mut a.peer_pubs, true), (&mut a.subs, false), (&mut a.misc_send, false), (&mut a.misc_recv, true)] {
                for p in l.iter_mut() {
                    dress_pkt(p, peer)
                }
            }
        }
        Dress::Ids => {
            if !a.reg_pubs.is_empty() || !a.register.is_empty() {
                return None;
            }
            let wide = c.spec.idw == 4;
            let f = |i: u32| match i {
                1 => if wide { 0x1_0001 } else { 0x100 },
                2 => if wide { u32::MAX } else { 65535 },
                3 => if wide { 0x1_0000 } else { 0x8000 },
                _ => i,
            };
            let map = |l: &mut Vec<Pkt>| {
                for p in l.iter_mut() {
                    if let Some(i) = p.id() {
                        *p = p.with_id(f(i))
                    }
                }
            };
            let mut reg = vec![];
            for p in a.pubs.iter().chain(&a.subs).filter(|p| p.id().is_some()) {
                for i in [2u32, 1] {
                    reg.push(set_w(&p.with_id(f(i)), c.spec.idw));
                }
            }
            a.pubs.retain(|p| p.id().is_none());
            a.subs.clear();
            a.reg_pubs = reg;
            map(&mut a.peer_pubs);
            map(&mut a.misc_send);
            map(&mut a.misc_recv);
            for l in [&mut a.ack_ids, &mut a.erase_ids, &mut a.release_ids, &mut a.probe] {
                for i in l.iter_mut() {
                    *i = f(*i)
                }
            }
            if a.reg_pubs.is_empty() && a.peer_pubs.iter().all(|p| p.id().is_none()) {
                return None;
            }
        }
    }
    let n = if d == Dress::Rich { "rich packets" } else { "high identifiers" };
    Some(Cfg { label: format!("{} ({n})", c.label), spec: c.spec, a, d: c.d })
}

/// Every alphabet that differs from `a` in one field of one packet kind: each reason code, each
/// property the specification allows there (except those the configurations themselves vary),
/// each flag, each optional field.
pub fn vary(a: &Alpha) -> Vec<(String, Alpha)> {
    const OWN: [u8; 7] = [0x11, 0x13, 0x21, 0x22, 0x23, 0x27, 0x0b];
    let mut out: Vec<(String, Alpha)> = vec![];
    fn lists(a: &mut Alpha) -> [&mut Vec<Pkt>; 8] {
        [&mut a.connects, &mut a.connacks, &mut a.pubs, &mut a.reg_pubs, &mut a.peer_pubs, &mut a.subs, &mut a.misc_send, &mut a.misc_recv]
    }
    let mut copy = a.clone();
    let mut vers: Vec<Ver> = vec![];
    let mut kinds: Vec<(u8, usize)> = vec![];
    for (i, l) in lists(&mut copy).into_iter().enumerate() {
        for p in l.iter() {
            if !vers.contains(&p.ver) {
                vers.push(p.ver);
            }
            // (local and peer PUBLISHes separately)
            let k = (p.ptype(), if p.ptype() == 3 && i == 4 { 1 } else { 0 });
            if !kinds.contains(&k) {
                kinds.push(k);
            }
        }
    }
    kinds.sort();
    let v5 = vers.contains(&Ver::V5);
    let mut each = |what: String, kind: u8, peer: Option<bool>, f: &dyn Fn(&mut Pkt) -> bool| {
        let mut x = a.clone();
        let mut any = false;
        for (i, l) in lists(&mut x).into_iter().enumerate() {
            for p in l.iter_mut() {
                if p.ptype() == kind && peer.is_none_or(|q| q == (i == 4)) {
                    any |= f(p);
                }
            }
        }
        if any {
            out.push((what, x));
        }
    };
    let props_of = |b: &mut Body| -> Option<*mut Vec<Prop>> {
        Some(match b {
            Body::Connect { props, .. } | Body::Connack { props, .. } | Body::Publish { props, .. } | Body::Subscribe { props, .. } | Body::Unsubscribe { props, .. } | Body::Suback { props, .. } | Body::Unsuback { props, .. } => props,
            Body::Disconnect { props, code } | Body::Auth { props, code } => {
                *code = code.or(Some(0));
                props.get_or_insert_default()
            }
            _ => return None,
        })
    };
    for (kind, peer) in kinds {
        let side = if kind == 3 { Some(peer == 1) } else { None };
        let who = format!("{}{}", kind_name(kind), if kind != 3 { "" } else if peer == 1 { " of the peer" } else { " sent" });
        if v5 {
            for id in crate::space::allowed_props(kind) {
                if OWN.contains(&id) && !(id == 0x0b && (kind == 8 || peer == 1)) || kind == 15 && id == 0x15 {
                    continue;
                }
                for val in crate::space::prop_values(id, true).into_iter().take(2) {
                    each(format!("{who} with property {val:?}"), kind, side, &|p| {
                        if p.ver != Ver::V5 {
                            return false;
                        }
                        if let Body::Connect { props, .. } = &mut p.b {
                            // (authentication data needs a method)
                            if val.id == 0x16 && !props.iter().any(|q| q.id == 0x15) {
                                props.push(Prop { id: 0x15, v: PV::Str("m".into()) });
                            }
                        }
                        if let Body::Connack { props, .. } = &mut p.b {
                            if val.id == 0x16 && !props.iter().any(|q| q.id == 0x15) {
                                props.push(Prop { id: 0x15, v: PV::Str("m".into()) });
                            }
                        }
                        match props_of(&mut p.b) {
                            // SAFETY: points into `p`, nothing else uses it meanwhile
                            Some(l) => {
                                let l = unsafe { &mut *l };
                                l.retain(|q| q.id != val.id);
                                l.push(val.clone());
                                true
                            }
                            None => false,
                        }
                    });
                }
            }
        }
        match kind {
            1 => {
                let set = |w: u8| {
                    move |p: &mut Pkt| match &mut p.b {
                        Body::Connect { client_id, will, user, pass, clean, .. } => {
                            match w {
                                0 => *will = Some(Will { topic: "w".into(), payload: vec![], qos: 2, retain: true, props: vec![] }),
                                1 => *user = Some("u".into()),
                                2 => {
                                    *user = Some("u".into());
                                    *pass = Some(vec![0]);
                                }
                                _ => {
                                    if p.ver == Ver::V3 && !*clean {
                                        return false;
                                    }
                                    client_id.clear();
                                }
                            }
                            true
                        }
                        _ => false,
                    }
                };
                each(format!("{who} with a will"), 1, None, &set(0));
                each(format!("{who} with a user name"), 1, None, &set(1));
                each(format!("{who} with a password"), 1, None, &set(2));
                each(format!("{who} without client id"), 1, None, &set(3));
            }
            3 => {
                let set = |w: u8| {
                    move |p: &mut Pkt| match &mut p.b {
                        Body::Publish { dup, retain, payload, qos, .. } => {
                            match w {
                                0 => *retain = true,
                                1 => {
                                    if *qos == 0 {
                                        return false;
                                    }
                                    *dup = true;
                                }
                                _ => {
                                    if payload.is_empty() {
                                        payload.push(7);
                                    } else {
                                        payload.clear();
                                    }
                                }
                            }
                            true
                        }
                        _ => false,
                    }
                };
                each(format!("{who} retained"), 3, side, &set(0));
                each(format!("{who} with DUP"), 3, side, &set(1));
                each(format!("{who} with another payload"), 3, side, &set(2));
            }
            8 => {
                each(format!("{who} of two filters"), 8, None, &|p| match &mut p.b {
                    Body::Subscribe { entries, .. } => {
                        entries.push(("u/#".into(), 0x02));
                        true
                    }
                    _ => false,
                });
                if v5 {
                    each(format!("{who} with options"), 8, None, &|p| match &mut p.b {
                        Body::Subscribe { entries, .. } if p.ver == Ver::V5 => {
                            entries[0].1 = 0x2e;
                            true
                        }
                        _ => false,
                    });
                }
            }
            10 => each(format!("{who} of two filters"), 10, None, &|p| match &mut p.b {
                Body::Unsubscribe { topics, .. } => {
                    topics.push("+/u".into());
                    true
                }
                _ => false,
            }),
            _ => {}
        }
    }
    // reason codes: those that end the connection are added, the others replace
    for ver in &vers {
        let vn = if *ver == Ver::V3 { "v3.1.1" } else { "v5.0" };
        if let Some(k) = a.connacks.iter().find(|k| k.ver == *ver) {
            let w = k.idw;
            for sp in [false, true] {
                let mut x = a.clone();
                for c in crate::space::spec_codes(*ver, 2).iter().filter(|c| **c != 0) {
                    x.connacks.push(set_w(&connack(*ver, sp, *c, vec![]), w));
                }
                out.push((format!("every {vn} CONNACK code, session present={sp}"), x));
            }
        }
        if *ver == Ver::V5 {
            for t in [14u8, 15] {
                let mut x = a.clone();
                let mut any = false;
                for l in [&mut x.misc_send, &mut x.misc_recv] {
                    if let Some(p) = l.iter().find(|p| p.ptype() == t && p.ver == Ver::V5).cloned() {
                        any = true;
                        for c in crate::space::spec_codes(*ver, t) {
                            let mut q = p.clone();
                            if let Body::Disconnect { code, .. } | Body::Auth { code, .. } = &mut q.b {
                                *code = Some(*c);
                            }
                            if let Body::Auth { props, .. } = &mut q.b {
                                props.get_or_insert_default();
                            }
                            l.push(q);
                        }
                    }
                }
                if any {
                    out.push((format!("every {} code", kind_name(t)), x));
                }
            }
            let mut ks: Vec<u8> = a.peer_acks.iter().chain(&a.local_acks).map(|k| k.0).collect();
            ks.sort();
            ks.dedup();
            for k in ks {
                if matches!(k, SUBACK | UNSUBACK) {
                    continue;
                }
                for c in crate::space::spec_codes(*ver, k) {
                    out.push((format!("{} code {c:#04x}", kind_name(k)), Alpha { ack_code: Some((k, *c)), ..a.clone() }));
                }
                for p in [Prop { id: 0x1f, v: PV::Str("r".into()) }, Prop { id: 0x26, v: PV::Pair("k".into(), "v".into()) }] {
                    out.push((format!("{} with property {p:?}", kind_name(k)), Alpha { ack_props: Some((k, vec![p])), ..a.clone() }));
                }
                out.push((format!("{} with an empty property list", kind_name(k)), Alpha { ack_props: Some((k, vec![])), ..a.clone() }));
            }
        }
        for k in [SUBACK, UNSUBACK] {
            if !a.peer_acks.iter().any(|x| x.0 == k) || *ver == Ver::V3 && k == UNSUBACK {
                continue;
            }
            for c in crate::space::spec_codes(*ver, k) {
                out.push((format!("{vn} {} code {c:#04x}", kind_name(k)), Alpha { sub_codes: Some((*ver, k, vec![*c])), ..a.clone() }));
            }
            for c in [[0u8, 0x80], [0x80, 0]] {
                out.push((format!("{vn} {} codes {c:02x?}", kind_name(k)), Alpha { sub_codes: Some((*ver, k, c.to_vec())), ..a.clone() }));
            }
            if *ver == Ver::V5 {
                out.push((format!("{} with a property", kind_name(k)), Alpha { ack_props: Some((k, vec![Prop { id: 0x1f, v: PV::Str("r".into()) }])), ..a.clone() }));
            }
        }
    }
    // options of the connection: the other value throughout, and changed at any time
    let opts: [(&str, fn(bool) -> Call); 5] = [("auto pub response", Call::AutoPub), ("auto ping response", Call::AutoPing), ("auto map", Call::AutoMap), ("auto replace", Call::AutoReplace), ("offline publish", Call::Offline)];
    for (what, f) in opts {
        if !v5 && what.starts_with("auto map") || !v5 && what.starts_with("auto rep") {
            continue;
        }
        for on in [false, true] {
            if a.setup.contains(&f(on)) || !on && !a.setup.contains(&f(true)) {
                continue;
            }
            let mut x = a.clone();
            x.setup.push(f(on));
            out.push((format!("{what} {}", if on { "on" } else { "off" }), x));
        }
        let mut x = a.clone();
        x.cfg.extend([f(true), f(false)]);
        out.push((format!("{what} switched at any time"), x));
    }
    out
}

/// Whose configurations a property's monitors also watch.
const SHARED: [&str; 8] = ["C06", "C07", "C08", "C12", "C13", "C14", "C15", "C19"];

pub fn run(ctx: &mut Ctx, prop: &str) {
    let quick = ctx.quick();
    let own = cfgs(prop, quick);
    let mut list: Vec<(Cfg, bool)> = vec![];
    if SHARED.contains(&prop) {
        for c in &own {
            for d in [Dress::Rich, Dress::Ids] {
                if let Some(x) = dress(c, d) {
                    list.push((x, false));
                }
            }
        }
    }
    let n_dress = list.len();
    if SHARED.contains(&prop) {
        for o in SHARED {
            if o != prop {
                for mut c in cfgs(o, true) {
                    c.label = format!("{} (alphabet of {o})", c.label);
                    list.push((c, false));
                }
            }
        }
    }
    let mut list: Vec<(Cfg, u8)> = own.into_iter().map(|c| (c, 0)).chain(list.into_iter().enumerate().map(|(i, c)| (c.0, if i < n_dress { 1 } else { 2 }))).collect();
    let only = std::env::var("MC_ONLY").ok();
    if let Some(o) = &only {
        list.retain(|c| c.0.label.contains(o.as_str()));
    }
    let n_own = list.iter().filter(|c| c.1 == 0).count();
    let n = list.len();
    let has_leaf = matches!(prop, "C05" | "C11" | "C17");
    if SHARED.contains(&prop) && only.as_ref().is_none_or(|o| "one field varied".contains(o.as_str())) {
        let mut units = vec![];
        for c in cfgs(prop, quick) {
            for (what, a) in vary(&c.a) {
                units.push((c.spec, format!("{}; {what}", c.label), a));
            }
        }
        let (cap, min) = if quick { (if matches!(prop, "C06" | "C07" | "C08" | "C12") { 900 } else { 300 }, 4) } else { (6_000, 5) };
        let label = format!("{prop}: one field varied ({} alphabets, {cap} states or depth {min} each)", units.len());
        enumerate_multi(ctx, &label, units.len(), |i, s| {
            let (spec, label, a) = &units[i];
            let m = ConnModel { prop: prop.into(), label: label.clone(), spec: *spec, a: a.clone(), leaf: None };
            small(&m, cap, min, s);
        });
    }
    for (i, (c, class)) in list.into_iter().enumerate() {
        let own = class == 0;
        let left = (ctx.budget_s - ctx.elapsed()).max(1.0);
        let share = if own && n > n_own { left * 0.75 / (n_own - i) as f64 } else { left / (n - i) as f64 };
        let m = ConnModel { prop: prop.into(), label: c.label.clone(), spec: c.spec, a: c.a.clone(), leaf: if own { crate::leafs::leaf_for(prop, &c, quick) } else { None } };
        let d = if quick { c.d.0 } else { c.d.1 };
        let env = std::env::var("MC_DEPTH").ok().and_then(|s| s.parse().ok());
        // without a per-state pass depth is cheap: go on to a fixpoint while states are few
        let (depth, min_depth, states) = match (has_leaf, own, quick) {
            (true, ..) => (d, d, 3_000_000),
            (_, true, true) => (60, d, if prop == "C19" { 10_000 } else { 30_000 }),
            (_, true, false) => (60, d, 1_500_000),
            (_, false, true) => (60, 3, if class == 1 { 1500 } else { 700 }),
            (_, false, false) => (60, 4, if class == 1 { 200_000 } else { 20_000 }),
        };
        let depth = env.unwrap_or(depth);
        if ctx.violations.len() >= 3 && std::env::var_os("MC_KEEP").is_none() {
            break;
        }
        bfs(ctx, &m, &Limits { depth, states, min_depth, secs: share * 1.5 });
    }
}
