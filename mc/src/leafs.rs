//! Passes run in every distinct state an exploration reaches: hostile inputs (C05), the send
//! matrix (C11), the receive matrix (C17).
use crate::conn::*;
use crate::explore::*;
use crate::props_conn::Cfg;
use crate::refcodec::*;
use crate::space;
use crate::sys::*;
use crate::world::*;
use std::collections::HashSet;
use std::sync::Arc;

pub fn leaf_for(prop: &str, c: &Cfg, quick: bool) -> Option<LeafFn> {
    match prop {
        "C05" => Some(c05_leaf(c, quick)),
        "C11" => Some(c11_leaf(c)),
        "C17" => Some(c17_leaf(c)),
        "C13" if c.spec.ver == Some(Ver::V5) => Some(Arc::new(c13_leaf)),
        _ => None,
    }
}

/// Can the two objects be told apart?  Equal full states cannot; otherwise every sequence of the
/// alphabet up to `depth` (driven by the reference state of `b`) is compared call by call.
pub fn diverge(a: &World, b: &World, alpha: &Alpha, depth: usize) -> Option<String> {
    fn obs(w: &World) -> (Vec<Pkt>, Vec<u32>, Option<u16>, Option<Ver>) {
        (w.c.stored(), w.c.handled(), w.c.vacancy(), w.c.version())
    }
    fn rec(a: &World, b: &World, alpha: &Alpha, depth: usize, seen: &mut HashSet<(u128, u128, usize)>) -> Option<String> {
        let (oa, ob) = (obs(a), obs(b));
        if oa != ob {
            return Some(format!("observable state differs: (store, handled ids, vacancy, version) = {oa:?} vs {ob:?}"));
        }
        let (da, db) = (a.c.digest(), b.c.digest());
        if cfg!(feature = "hook") && da == db {
            return None;
        }
        if depth == 0 || !seen.insert((da, db, depth)) {
            return None;
        }
        let mut acts = alpha.actions(b);
        for i in 1..=3 {
            acts.push(Act::C(Call::Register(i)));
        }
        acts.push(Act::C(Call::Acquire));
        if !b.sh.open {
            acts.push(Act::C(Call::Closed));
        }
        for x in acts {
            let (mut a2, mut b2) = (a.clone(), b.clone());
            let mut bads = vec![];
            a2.sh = b2.sh.clone();
            run_act(&mut a2, &x, &mut bads);
            run_act(&mut b2, &x, &mut bads);
            if a2.last != b2.last {
                return Some(format!("{x:?}\n   yields\n{}   instead of\n{}", listing(&a2.last), listing(&b2.last)));
            }
            if let Some(m) = rec(&a2, &b2, alpha, depth - 1, seen) {
                return Some(format!("{x:?}\n{m}"));
            }
        }
        None
    }
    rec(a, b, alpha, depth, &mut HashSet::new())
}

// ------------------------------------------------------------------ C05
fn sample_packets(vs: &[Ver], w: u8) -> Vec<Pkt> {
    let mut o = vec![];
    for v in vs {
        for (ver, t) in space::all_kinds() {
            if ver != *v {
                continue;
            }
            o.extend(rich(*v, t, w));
        }
    }
    o
}
/// a few field-rich packets of one kind
pub fn rich(v: Ver, t: u8, w: u8) -> Vec<Pkt> {
    let p5 = |ps: Vec<Prop>| if v == Ver::V5 { ps } else { vec![] };
    let up = || space_user();
    let b: Vec<Body> = match t {
        1 => vec![
            Body::Connect {
                clean: false,
                keep_alive: 10,
                client_id: "c".into(),
                will: Some(Will { qos: 1, retain: true, topic: "w".into(), payload: b"x".to_vec(), props: p5(vec![pu32(0x18, 5)]) }),
                user: Some("u".into()),
                pass: Some(b"p".to_vec()),
                props: p5(vec![sei(100), rm(2), mps(60), tam(2), up()]),
            },
            Body::Connect { clean: true, keep_alive: 0, client_id: "".into(), will: None, user: None, pass: None, props: vec![] },
        ],
        2 => vec![
            Body::Connack { sp: true, code: 0, props: p5(vec![sei(7), rm(1), mps(60), tam(2), ska(5), up()]) },
            Body::Connack { sp: false, code: if v == Ver::V5 { 0x87 } else { 5 }, props: vec![] },
        ],
        3 => vec![
            Body::Publish { dup: false, qos: 0, retain: true, topic: "t".into(), id: None, props: p5(vec![alias(1), up()]), payload: b"p".to_vec() },
            Body::Publish { dup: true, qos: 1, retain: false, topic: "t".into(), id: Some(1), props: p5(vec![pu32(0x02, 9)]), payload: vec![] },
            Body::Publish { dup: false, qos: 2, retain: false, topic: "t".into(), id: Some(2), props: p5(vec![alias(2)]), payload: b"pq".to_vec() },
        ],
        4..=7 => {
            let mut x = vec![Body::Ack { kind: t, id: 1, code: None, props: None }];
            if v == Ver::V5 {
                x.push(Body::Ack { kind: t, id: 1, code: Some(if t < 6 { 0x10 } else { 0x92 }), props: None });
                x.push(Body::Ack { kind: t, id: 2, code: Some(0), props: Some(vec![Prop { id: 0x1f, v: PV::Str("r".into()) }]) });
            }
            x
        }
        8 => vec![Body::Subscribe { id: 1, props: p5(vec![Prop { id: 0x0b, v: PV::Vbi(1) }, up()]), entries: vec![("t".into(), 1), ("#".into(), 2)] }],
        9 => vec![Body::Suback { id: 1, props: p5(vec![up()]), codes: vec![0, 0x80] }],
        10 => vec![Body::Unsubscribe { id: 1, props: p5(vec![up()]), topics: vec!["t".into(), "+".into()] }],
        11 => vec![Body::Unsuback { id: 1, props: p5(vec![up()]), codes: if v == Ver::V5 { vec![0, 0x11] } else { vec![] } }],
        12 => vec![Body::Pingreq],
        13 => vec![Body::Pingresp],
        14 => {
            let mut x = vec![Body::Disconnect { code: None, props: None }];
            if v == Ver::V5 {
                x.push(Body::Disconnect { code: Some(0x81), props: Some(vec![Prop { id: 0x1f, v: PV::Str("r".into()) }]) });
            }
            x
        }
        _ => vec![Body::Auth { code: Some(0x18), props: Some(vec![Prop { id: 0x15, v: PV::Str("m".into()) }]) }, Body::Auth { code: None, props: None }],
    };
    b.into_iter().map(|b| mk(v, w, b)).collect()
}
fn space_user() -> Prop {
    user_prop("k", "v")
}

/// (short list, long list) of byte strings a hostile peer may send
fn hostile(vs: &[Ver], w: u8, quick: bool) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let mut s: Vec<Vec<u8>> = vec![];
    let mut l: Vec<Vec<u8>> = vec![];
    for f in 0..=255u8 {
        s.push(vec![f, 0]);
        l.push(vec![f, 2, 0, 1]);
        l.push(vec![f]);
        l.push(vec![f, 1, 0]);
        l.push(vec![f, 3, 0, 1, 0]);
        l.push(vec![f, 4, 0, 1, 0, 1]);
        l.push(vec![f, 0x80]);
        l.push(vec![f, 0x80, 0]);
        l.push(vec![f, 0xff, 0xff, 0xff, 0x7f, 0]);
        l.push(vec![f, 0xff, 0xff, 0xff, 0xff]);
    }
    for p in sample_packets(vs, w) {
        let b = p.enc();
        s.push(b.clone());
        // truncated body with a matching length
        for n in 2..b.len() {
            let mut t = b[..n].to_vec();
            t[1] = (n - 2) as u8;
            l.push(t);
        }
        // surplus byte
        let mut t = b.clone();
        t.push(0);
        t[1] += 1;
        l.push(t);
        // single-byte changes
        for i in 0..b.len() {
            let vals: Vec<u8> = if quick { vec![0, 0xff, b[i] ^ 0x80, b[i].wrapping_add(1), b[i] ^ 0x20] } else { (0..=255).collect() };
            for x in vals {
                if x != b[i] {
                    let mut t = b.clone();
                    t[i] = x;
                    l.push(t);
                }
            }
        }
        // glued to the start of another frame
        let mut t = b.clone();
        t.push(0x30);
        l.push(t);
    }
    l.extend(s.iter().cloned());
    let d = |v: Vec<Vec<u8>>| {
        let mut h = HashSet::new();
        v.into_iter().filter(|x| h.insert(x.clone())).collect::<Vec<_>>()
    };
    (d(s), d(l))
}

fn c05_leaf(c: &Cfg, quick: bool) -> LeafFn {
    let vs: Vec<Ver> = c.spec.ver.map(|v| vec![v]).unwrap_or(vec![Ver::V3, Ver::V5]);
    let both = [Ver::V3, Ver::V5];
    let (short_l, long_l) = hostile(&both, c.spec.idw, quick);
    let valid_l: Vec<Vec<u8>> = sample_packets(&vs, c.spec.idw).iter().map(|p| p.enc()).collect();
    let a = c.a.clone();
    let busy = c.label.contains("busy");
    Arc::new(move |w, depth, k| {
        let live = w.sh.st == St::Connected && !w.sh.closing;
        let list = match (quick, if busy { depth + 2 } else { depth }) {
            (_, 0..=1) => &long_l,
            (_, 2) if live => &long_l,
            (true, 3) if busy => &short_l,
            (_, 2) | (false, 3) => &short_l,
            (true, 3) if live => &valid_l,
            (false, 4) if live => &valid_l,
            _ => return,
        };
        let mut seen: HashSet<u128> = HashSet::new();
        let mut ends: HashSet<u128> = HashSet::new();
        for b in list {
            k.cases += 1;
            let mut x = w.clone();
            let mut bads = vec![];
            x.exec(Call::RecvB(b.clone()), &mut bads);
            let key = x.c.digest();
            if bads.is_empty() && seen.insert(key) {
                k.outs.insert(h128(&(b[0], x.last.last().map(|l| l.1.errs().len()), x.c.version())) as u64);
                // timers the application would now report
                let mut y = x.clone();
                for t in 0..3u8 {
                    if y.sh.armed[t as usize].is_some() {
                        y.exec(Call::Timer(t), &mut bads);
                    }
                }
                for z in [y, x.clone()] {
                    let mut z = z;
                    z.exec(Call::Closed, &mut bads);
                    if ends.insert(z.c.digest()) && bads.is_empty() {
                        reconnect(&z, &a, &mut bads);
                    }
                }
            }
            if let Some(mut e) = pick("C05", bads) {
                e.msg = format!("{}\nafter the peer's bytes {b:02x?}\n{}", e.msg, listing(&x.last));
                k.bad(e);
            }
        }
    })
}
/// Every CONNECT / CONNACK pair of the alphabet must be accepted after the transport was closed.
fn reconnect(z: &World, a: &Alpha, bads: &mut Vec<Bad>) {
    for c in &a.connects {
        if let Some(v) = z.c.version() {
            if v != c.ver {
                continue;
            }
        }
        let mut ways = vec![];
        if z.sh.role != RoleK::Server && z.c.version().is_some() {
            ways.push(Call::Send(c.clone()));
        }
        if z.sh.role != RoleK::Client {
            ways.push(Call::RecvP(c.clone()));
        }
        for call in ways {
            let mut y = z.clone();
            let client = matches!(call, Call::Send(_));
            let r = y.exec(call.clone(), bads);
            let ok = if client { r.sends().any(|s| s.p.ptype() == CONNECT) } else { r.recvs().any(|p| p.ptype() == CONNECT) };
            if !ok {
                bads.push(Bad::new("C05/wedged", format!("after the transport was reported closed, {call:?} is refused: {:?}", r.errs())));
                continue;
            }
            if let Some(k) = a.connacks.iter().find(|k| k.ver == c.ver && code_of(k) == 0) {
                let call = if client { Call::RecvP(k.clone()) } else { Call::Send(k.clone()) };
                let r = y.exec(call.clone(), bads);
                let ok = if client { r.recvs().any(|p| p.ptype() == CONNACK) } else { r.sends().any(|s| s.p.ptype() == CONNACK) };
                let fits = !client && y.sh.peer.mps.map(|m| (m as usize) < k.enc().len()).unwrap_or(false) || client && y.sh.my.mps.map(|m| (m as usize) < k.enc().len()).unwrap_or(false);
                if !ok && !fits {
                    bads.push(Bad::new("C05/wedged", format!("after the transport was reported closed and reopened, {call:?} is refused: {:?}", r.errs())));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C13
/// What the application is handed for its own store names the full topic and no alias.
fn c13_leaf(s: &World, _depth: usize, k: &mut Leaf) {
    if s.sh.fuzzy {
        return;
    }
    for topic in ["", "a", "zz"] {
        for al in 0..=s.sh.peer.tam.min(4) + 1 {
            if topic.is_empty() && al == 0 {
                continue; // not a packet
            }
            let mut props = vec![space_user()];
            if al > 0 {
                props.push(alias(al));
            }
            let p = publish(Ver::V5, 1, 1, topic, props);
            let p = Pkt { idw: s.sh.idw, ..p };
            let before = s.c.digest();
            let r = match guarded(|| s.c.regulate(&p)) {
                Ok(Some(r)) => r,
                Ok(None) => continue,
                Err(e) => {
                    k.bad(Bad::new("C13/regulate-panic", format!("panic in regulate_for_store({}): {e}", short(&p))));
                    continue;
                }
            };
            k.cases += 1;
            let want = match (topic, s.sh.tt.get(&al)) {
                ("", None) => None,
                ("", Some(t)) => Some(strip_alias(&with_topic(&p, t))),
                _ => Some(strip_alias(&p)),
            };
            if r.clone().ok() != want {
                k.bad(Bad::new("C13/regulate", format!("regulate_for_store({}) = {:?}, expected {:?}", short(&p), r.map(|x| short(&x)), want.map(|x| short(&x)))));
            }
            if s.c.digest() != before {
                k.bad(Bad::new("C13/regulate-effect", format!("regulate_for_store({}) changes the connection", short(&p))));
            }
        }
    }
}

// ------------------------------------------------------------------ C11
/// may a connection of this role ever send this packet kind (MQTT specifications)
pub fn may_send(role: RoleK, ver: Ver, t: u8) -> bool {
    let cl = match t {
        CONNECT | PUBLISH | PUBACK | PUBREC | PUBREL | PUBCOMP | SUBSCRIBE | UNSUBSCRIBE | PINGREQ | DISCONNECT => true,
        AUTH => ver == Ver::V5,
        _ => false,
    };
    let sv = match t {
        CONNACK | PUBLISH | PUBACK | PUBREC | PUBREL | PUBCOMP | SUBACK | UNSUBACK | PINGRESP => true,
        DISCONNECT | AUTH => ver == Ver::V5,
        _ => false,
    };
    match role {
        RoleK::Client => cl,
        RoleK::Server => sv,
        RoleK::Any => cl || sv,
    }
}

fn c11_leaf(c: &Cfg) -> LeafFn {
    let spec = c.spec;
    let alpha = Alpha { peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None), (PUBREL, None), (SUBACK, None)], timers: true, ..c.a.clone() };
    let mut cands: Vec<Pkt> = vec![];
    for v in [Ver::V3, Ver::V5] {
        for t in 1..=15u8 {
            if t == 15 && v == Ver::V3 {
                continue;
            }
            cands.extend(rich(v, t, spec.idw));
        }
        for q in [0u8, 1, 2] {
            cands.push(set_w(&publish(v, q, 1, "t", vec![]), spec.idw));
        }
        cands.push(set_w(&connack(v, false, 0, vec![]), spec.idw));
        cands.push(set_w(&publish(v, 1, 1, "long/topic/name", vec![]), spec.idw));
    }
    Arc::new(move |w, _depth, k| {
        for p in &cands {
            let t = p.ptype();
            let takes_id = matches!(t, PUBLISH | SUBSCRIBE | UNSUBSCRIBE) && p.id().is_some();
            // the identifier: acquired as the contract asks; an acquired-but-unused one if present
            let ids: Vec<Option<u32>> = if takes_id {
                let mut v: Vec<Option<u32>> = w.sh.used.iter().filter(|(_, o)| **o == Own::Held).map(|(i, _)| Some(*i)).collect();
                v.push(None);
                v
            } else if let Some(i) = p.id() {
                let mut v: Vec<Option<u32>> = w.sh.used.keys().copied().filter(|x| *x != i).map(Some).collect();
                v.push(Some(i));
                v
            } else {
                vec![None]
            };
            for id in ids {
                let mut base = w.clone();
                let mut pk = p.clone();
                if takes_id {
                    let i = match id {
                        Some(i) => i,
                        None => {
                            let mut b = vec![];
                            match base.exec(Call::Acquire, &mut b).id {
                                Some(Ok(i)) => i,
                                _ => continue,
                            }
                        }
                    };
                    pk = pk.with_id(i);
                } else if let Some(i) = id {
                    pk = pk.with_id(i);
                }
                k.cases += 1;
                one_send(&base, &pk, spec, &alpha, k);
            }
        }
    })
}

fn one_send(base: &World, p: &Pkt, spec: Spec, alpha: &Alpha, k: &mut Leaf) {
    let sh = &base.sh;
    let t = p.ptype();
    let name = format!("{:?}/{}", spec.role, kind_name(t).to_lowercase());
    macro_rules! bad {
        ($s:expr, $($a:tt)*) => { k.bad(Bad::new(format!("C11/{}/{}", $s, name), format!($($a)*))) };
    }
    let mut w = base.clone();
    w.last = Arc::new(vec![]);
    let mut bads = vec![];
    let r = w.exec(Call::Send(p.clone()), &mut bads);
    if let Some(b) = pick("C11", bads) {
        k.bad(b);
        return;
    }
    let role_ok = may_send(spec.role, p.ver, t);
    let ver_ok = sh.ver == Some(p.ver) && base.c.version() == Some(p.ver);
    // the connection state is only decided by the reference while no close is under way
    let judged = !sh.closing && !sh.peer_disc && !sh.refused;
    let keep = sh.persistent || sh.offline;
    let state_ok = match t {
        CONNECT => sh.st == St::Disc,
        CONNACK => sh.st == St::Connecting,
        AUTH => sh.st != St::Disc,
        PUBLISH if qos_of(p) > 0 => sh.st == St::Connected || keep,
        PUBREL => sh.st == St::Connected || keep,
        _ => sh.st == St::Connected,
    };
    let allowed = role_ok && ver_ok && (state_ok || !judged);
    let sent = r.sends().next().is_some();
    k.outs.insert(h128(&(t, r.errs(), sent)) as u64);
    if !allowed {
        let why = if !role_ok {
            "the role may not send it"
        } else if !ver_ok {
            "wrong protocol version"
        } else {
            "wrong connection state"
        };
        if sent {
            bad!("sent", "{} ({why}; state {:?}) was requested for sending:\n{}", short(p), sh.st, listing(&w.last));
        }
        if !r.has_err() {
            bad!("no-error", "{} ({why}; state {:?}) was not reported as an error:\n{}", short(p), sh.st, listing(&w.last));
        }
        for e in r.all() {
            match e {
                Ev::Err(_) => {}
                Ev::Send(_) => {}
                Ev::Released(i) if Some(*i) == p.id() && sh.used.get(i) == Some(&Own::Held) => {}
                e => bad!("side-effect", "{} ({why}; state {:?}) caused {e:?}:\n{}", short(p), sh.st, listing(&w.last)),
            }
        }
        // as if the call had not been made
        let mut b = base.clone();
        let mut ig = vec![];
        for i in r.released() {
            b.exec(Call::Release(i), &mut ig);
        }
        if let Some(m) = diverge(&w, &b, alpha, 2) {
            bad!("not-undone", "{} ({why}; state {:?}) was refused but changed the connection:\n{m}", short(p), sh.st);
        }
    } else if judged {
        // nothing outside a connection except what is kept for later
        if sent && sh.st != St::Connected && !matches!(t, CONNECT | CONNACK | AUTH) {
            bad!("sent", "{} was requested for sending while {:?}:\n{}", short(p), sh.st, listing(&w.last));
        }
        // accepted when nothing but the matrix decides
        let live = sh.st == St::Connected && sh.open && sh.peer.mps.is_none();
        let no_reason = match t {
            CONNECT => !sh.open && spec.role != RoleK::Server,
            CONNACK => sh.open && sh.st == St::Connecting && !sh.is_client,
            PUBLISH => live && sh.peer.rm.is_none() && alias_of(p).is_none() && (qos_of(p) == 0 || sh.used.get(&p.id().unwrap_or(0)) == Some(&Own::Held)),
            PUBACK | PUBREC | PUBCOMP => false,
            PUBREL => live && sh.used.get(&p.id().unwrap_or(0)) == Some(&Own::Rec),
            SUBSCRIBE | UNSUBSCRIBE => live && sh.used.get(&p.id().unwrap_or(0)) == Some(&Own::Held),
            _ => live,
        };
        if no_reason && !r.sends().any(|s| s.p.ptype() == t) {
            bad!("refused", "{} is allowed for this role, version and state ({:?}) but was not sent:\n{}", short(p), sh.st, listing(&w.last));
        }
    }
    // the compile-time matrix
    let mut z = base.clone();
    match guarded(|| z.c.checked(p)) {
        Err(e) => bad!("panic", "panic in checked_send {}: {e}", short(p)),
        Ok(None) if role_ok => bad!("checked-refuses", "checked_send does not accept the packet type {} for this role", p.name()),
        Ok(Some(_)) if !role_ok => bad!("checked-accepts", "checked_send accepts the packet type {} ({:?}) for this role", p.name(), p.ver),
        Ok(Some(q)) => {
            if q != r {
                bad!("checked-differs", "checked_send {} yields {:?}, send yields {:?}", short(p), q.lists, r.lists);
            } else {
                z.sh = w.sh.clone();
                if let Some(m) = diverge(&z, &w, alpha, 2) {
                    bad!("checked-differs", "checked_send {} leaves a different state than send:\n{m}", short(p));
                }
            }
        }
        Ok(None) => {}
    }
    let mut z = base.clone();
    match guarded(|| z.c.checked_generic(p)) {
        Err(e) => bad!("panic", "panic in checked_send of a generic packet {}: {e}", short(p)),
        Ok(q) => {
            if q != r {
                bad!("checked-differs", "checked_send of a generic {} yields {:?}, send yields {:?}", short(p), q.lists, r.lists);
            }
        }
    }
}

// ------------------------------------------------------------------ C17
/// may the remote side of this role ever send this packet kind
pub fn may_receive(role: RoleK, ver: Ver, t: u8) -> bool {
    match role {
        RoleK::Client => may_send(RoleK::Server, ver, t),
        RoleK::Server => may_send(RoleK::Client, ver, t),
        RoleK::Any => t != AUTH || ver == Ver::V5,
    }
}
fn c17_leaf(c: &Cfg) -> LeafFn {
    let spec = c.spec;
    let alpha = Alpha { peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None), (PUBREL, None), (SUBACK, None)], timers: true, ..c.a.clone() };
    let mut cands: Vec<Vec<u8>> = vec![];
    let mut info: Vec<(Ver, Pkt)> = vec![];
    for v in [Ver::V3, Ver::V5] {
        for t in 1..=15u8 {
            for p in rich(Ver::V5, t, spec.idw).into_iter().chain(rich(v, t, spec.idw)) {
                if p.ver == v || t == AUTH {
                    cands.push(p.enc());
                    info.push((v, p));
                }
            }
        }
        let p = set_w(&connack(v, false, 0, vec![]), spec.idw);
        cands.push(p.enc());
        info.push((v, p));
        for code in [0u8, 0x8b] {
            // a DISCONNECT with a reason code only
            let p = mk(v, spec.idw, Body::Disconnect { code: Some(code), props: None });
            if v == Ver::V5 {
                cands.push(p.enc());
                info.push((v, p));
            }
        }
    }
    Arc::new(move |w, _depth, k| {
        let sh = &w.sh;
        if !sh.pending.is_empty() {
            return;
        }
        let ver = w.c.version();
        if ver.is_none() && !sh.closing {
            levels(w, spec, &alpha, k);
        }
        for (n, b) in cands.iter().enumerate() {
            let (v, p) = &info[n];
            let t = p.ptype();
            let name = format!("{:?}/{}", spec.role, kind_name(t).to_lowercase());
            macro_rules! bad {
                ($s:expr, $($a:tt)*) => { k.bad(Bad::new(format!("C17/{}/{}", $s, name), format!($($a)*))) };
            }
            if ver.is_some() && ver != Some(*v) {
                continue;
            }
            k.cases += 1;
            let mut x = w.clone();
            x.last = Arc::new(vec![]);
            let mut bads = vec![];
            let r = x.exec(Call::RecvB(b.clone()), &mut bads);
            if let Some(b) = pick("C17", bads) {
                k.bad(b);
                continue;
            }
            k.outs.insert(h128(&(t, r.errs(), r.recvs().count())) as u64);
            let established = sh.st == St::Connected && sh.open && !sh.peer_disc;
            let never = ver.is_none() && t != CONNECT || ver.is_some() && !may_receive(spec.role, *v, t);
            let again = established && matches!(t, CONNECT | CONNACK);
            if never || again {
                let why = if ver.is_none() {
                    "first packet of a server that has not seen a CONNECT"
                } else if never {
                    "the remote side of this role never sends it"
                } else {
                    "the connection is established"
                };
                if r.recvs().next().is_some() {
                    bad!("delivered", "{} ({why}) was delivered:\n{}", short(p), listing(&x.last));
                }
                if !r.has_err() {
                    bad!("no-error", "{} ({why}) was not reported as an error:\n{}", short(p), listing(&x.last));
                }
                if !r.released().is_empty() {
                    bad!("acted-upon", "{} ({why}) released {:?}", short(p), r.released());
                }
                for s in r.sends() {
                    if s.p.ptype() != DISCONNECT && !(s.p.ptype() == CONNACK && code_of(&s.p) != 0) {
                        bad!("acted-upon", "{} ({why}) was answered with {}", short(p), short(&s.p));
                    }
                }
                if x.c.version() != ver {
                    bad!("acted-upon", "{} ({why}) changed the protocol version to {:?}", short(p), x.c.version());
                }
                // the session is what it was: after the close nothing tells the two apart
                let mut y = w.clone();
                let mut ig = vec![];
                x.exec(Call::Closed, &mut ig);
                y.exec(Call::Closed, &mut ig);
                x.sh = y.sh.clone();
                if let Some(m) = diverge(&x, &y, &alpha, 3) {
                    bad!("session-touched", "{} ({why}) changed what survives the connection:\n{m}", short(p));
                }
            } else if ver.is_some() && !sh.closing && !sh.peer_disc && !sh.refused && sh.my.mps.is_none() && sh.open {
                let plain = match t {
                    PUBLISH => qos_of(p) == 0 && alias_of(p).is_none(),
                    SUBSCRIBE | UNSUBSCRIBE | PINGREQ | PINGRESP | DISCONNECT => true,
                    AUTH => true,
                    _ => false,
                };
                if established && plain && !r.recvs().any(|q| q.ptype() == t) {
                    bad!("refused", "{} is legal here but was not delivered:\n{}", short(p), listing(&x.last));
                }
            }
        }
    })
}

/// CONNECT with every protocol level, to a server of undetermined version
fn levels(w: &World, spec: Spec, alpha: &Alpha, k: &mut Leaf) {
    for v in [Ver::V3, Ver::V5] {
        for p in rich(v, CONNECT, spec.idw) {
            let b0 = p.enc();
            let at = b0.iter().skip(2).position(|c| *c == b'T').unwrap() + 2 + 2;
            for level in 0..=255u8 {
                let mut b = b0.clone();
                b[at] = level;
                let own = level == b0[at];
                if !own && (level == 4 || level == 5) {
                    continue; // the body belongs to the other version
                }
                k.cases += 1;
                let mut x = w.clone();
                let mut bads = vec![];
                let r = x.exec(Call::RecvB(b.clone()), &mut bads);
                if let Some(b) = pick("C17", bads) {
                    k.bad(b);
                    continue;
                }
                k.outs.insert(h128(&(r.errs(), r.recvs().count())) as u64);
                if own {
                    if !r.recvs().any(|q| *q == p) || x.c.version() != Some(v) {
                        k.bad(Bad::new("C17/undetermined/not-adopted", format!("{} not accepted by a server of undetermined version (version now {:?}):\n{}", short(&p), x.c.version(), listing(&x.last))));
                    }
                    continue;
                }
                if r.recvs().next().is_some() || !r.has_err() || x.c.version().is_some() {
                    k.bad(Bad::new(
                        "C17/undetermined/level",
                        format!("CONNECT with protocol level {level} was not rejected (version now {:?}):\n{}", x.c.version(), listing(&x.last)),
                    ));
                }
                let mut y = w.clone();
                let mut ig = vec![];
                x.exec(Call::Closed, &mut ig);
                y.exec(Call::Closed, &mut ig);
                x.sh = y.sh.clone();
                if let Some(m) = diverge(&x, &y, alpha, 3) {
                    k.bad(Bad::new("C17/undetermined/level-touched", format!("a rejected CONNECT with protocol level {level} leaves a trace after the close:\n{m}")));
                }
            }
        }
    }
}
