//! Contract-respecting driver: turns an alphabet into the actions enabled in a state, and the
//! model used for all single-connection explorations.
use crate::explore::*;
use crate::refcodec::*;
use crate::sys::*;
use crate::world::*;
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Act {
    C(Call),
    /// acquire_packet_id, then send with that identifier
    AcqSend(Pkt),
    /// register_packet_id(id of the packet), then send
    RegSend(Pkt),
    /// acquire, send, and the transport write fails: release the identifier when told to
    SendErr(Pkt),
    /// the process dies; a new object gets the exported session state
    Restart,
}
impl std::fmt::Debug for Act {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Act::C(c) => write!(f, "{c:?}"),
            Act::AcqSend(p) => write!(f, "acquire + send {}", short(p)),
            Act::RegSend(p) => write!(f, "register + send {}", short(p)),
            Act::SendErr(p) => write!(f, "acquire + send {} + write error", short(p)),
            Act::Restart => write!(f, "process restart with the exported session state"),
        }
    }
}

#[derive(Clone)]
pub struct Alpha {
    pub setup: Vec<Call>,
    pub connects: Vec<Pkt>,
    pub connacks: Vec<Pkt>,
    /// local PUBLISH templates; QoS>0 get a fresh identifier
    pub pubs: Vec<Pkt>,
    pub reg_pubs: Vec<Pkt>,
    /// publish also while not connected
    pub pub_any_state: bool,
    pub max_used: usize,
    pub peer_pubs: Vec<Pkt>,
    /// acknowledgements the peer may send: (kind, code), for every id in ack_ids
    pub peer_acks: Vec<(u8, Option<u8>)>,
    pub ack_ids: Vec<u32>,
    /// restrict peer acks to matching ones
    pub acks_matching_only: bool,
    /// local manual responses: (kind, code)
    pub local_acks: Vec<(u8, Option<u8>)>,
    pub subs: Vec<Pkt>,
    pub misc_send: Vec<Pkt>,
    pub misc_recv: Vec<Pkt>,
    pub raw: Vec<Vec<u8>>,
    /// option setters available at any time
    pub cfg: Vec<Call>,
    pub timers: bool,
    pub erase: bool,
    pub release_held: bool,
    pub acquire_only: bool,
    pub register: Vec<u32>,
    pub release_ids: Vec<u32>,
    pub erase_ids: Vec<u32>,
    pub max_conns: u8,
    /// peer bytes in any state, also before CONNECT / after a close request
    pub peer_any_state: bool,
    /// local packets may be sent in any state
    pub send_any_state: bool,
    pub no_close: bool,
    pub probe: Vec<u32>,
    /// also explore transport write errors of packets that hold an identifier
    pub send_err: bool,
    pub restart: bool,
    /// v5 acknowledgements carry a reason code and properties
    pub rich: bool,
    /// one field of the acknowledgements replaced (see `vary`)
    pub ack_code: Option<(u8, u8)>,
    pub ack_props: Option<(u8, Vec<Prop>)>,
    pub sub_codes: Option<(Ver, u8, Vec<u8>)>,
}
impl Default for Alpha {
    fn default() -> Self {
        Alpha {
            setup: vec![],
            connects: vec![],
            connacks: vec![],
            pubs: vec![],
            reg_pubs: vec![],
            pub_any_state: false,
            max_used: 2,
            peer_pubs: vec![],
            peer_acks: vec![],
            ack_ids: vec![],
            acks_matching_only: false,
            local_acks: vec![],
            subs: vec![],
            misc_send: vec![],
            misc_recv: vec![],
            raw: vec![],
            cfg: vec![],
            timers: false,
            erase: false,
            release_held: false,
            acquire_only: false,
            register: vec![],
            release_ids: vec![],
            erase_ids: vec![],
            max_conns: 2,
            peer_any_state: false,
            send_any_state: false,
            no_close: false,
            probe: vec![],
            send_err: false,
            restart: false,
            rich: false,
            ack_code: None,
            ack_props: None,
            sub_codes: None,
        }
    }
}

pub fn ackp(sh: &Sh, kind: u8, id: u32, code: Option<u8>) -> Pkt {
    Pkt { ver: sh.ver.unwrap_or(Ver::V5), idw: sh.idw, b: Body::Ack { kind, id, code, props: None } }
}

impl Alpha {
    fn ackx(&self, sh: &Sh, kind: u8, id: u32, code: Option<u8>) -> Pkt {
        let mut p = ackp(sh, kind, id, code);
        if p.ver == Ver::V5 {
            if let Body::Ack { code, props, .. } = &mut p.b {
                if let Some((k, c)) = &self.ack_code {
                    if *k == kind {
                        *code = Some(*c);
                    }
                }
                if let Some((k, ps)) = &self.ack_props {
                    if *k == kind {
                        *code = code.or(Some(0));
                        *props = Some(ps.clone());
                    }
                }
            }
        }
        if self.rich && p.ver == Ver::V5 {
            if let Body::Ack { code, props, .. } = &mut p.b {
                *code = code.or(Some(match kind {
                    PUBACK => 0x97,
                    PUBREC => 0x10,
                    _ => 0x92,
                }));
                *props = Some(vec![Prop { id: 0x1f, v: PV::Str("r".into()) }, Prop { id: 0x26, v: PV::Pair("k".into(), "v".into()) }]);
            }
        }
        p
    }
    pub fn actions(&self, w: &World) -> Vec<Act> {
        let sh = &w.sh;
        let mut o: Vec<Act> = vec![];
        let v = sh.ver.unwrap_or(Ver::V5);
        let over = sh.closing || sh.refused || sh.peer_disc;
        let server_side = match sh.role {
            RoleK::Server => true,
            RoleK::Client => false,
            RoleK::Any => !sh.is_client,
        };
        // transport life cycle
        if !sh.open && sh.st == St::Disc && sh.conns < self.max_conns {
            for c in &self.connects {
                match sh.role {
                    RoleK::Client => o.push(Act::C(Call::Send(c.clone()))),
                    RoleK::Server => {
                        if sh.pending.is_empty() {
                            o.push(Act::C(Call::RecvP(c.clone())))
                        }
                    }
                    RoleK::Any => {
                        o.push(Act::C(Call::Send(c.clone())));
                        if sh.pending.is_empty() {
                            o.push(Act::C(Call::RecvP(c.clone())))
                        }
                    }
                }
            }
        }
        if sh.open && sh.st == St::Connecting && !over {
            for c in &self.connacks {
                if server_side {
                    o.push(Act::C(Call::Send(c.clone())));
                } else {
                    o.push(Act::C(Call::RecvP(c.clone())));
                }
            }
        }
        if (sh.open || sh.closing) && !self.no_close {
            o.push(Act::C(Call::Closed));
        }
        if self.restart && sh.persistent && sh.conns < self.max_conns && sh.conns > 0 {
            o.push(Act::Restart);
        }
        let live = sh.open && sh.st == St::Connected && !over;
        // local publishes
        if (live || self.pub_any_state && !over) && sh.used.len() < self.max_used {
            for p in &self.pubs {
                if p.id().is_some() {
                    o.push(Act::AcqSend(p.clone()));
                    if self.send_err && live {
                        o.push(Act::SendErr(p.clone()));
                    }
                }
            }
            for p in &self.reg_pubs {
                if !sh.used.contains_key(&p.id().unwrap()) {
                    o.push(Act::RegSend(p.clone()));
                }
            }
        }
        if live || self.pub_any_state && !over {
            for p in &self.pubs {
                if p.id().is_none() {
                    o.push(Act::C(Call::Send(p.clone())));
                }
            }
            for p in &self.subs {
                if sh.used.len() < self.max_used {
                    o.push(Act::AcqSend(p.clone()));
                    if self.send_err && live {
                        o.push(Act::SendErr(p.clone()));
                    }
                }
            }
        }
        if live || self.send_any_state {
            for p in &self.misc_send {
                o.push(Act::C(Call::Send(p.clone())));
            }
        }
        // AUTH is exchanged before the CONNACK too
        if sh.open && sh.st == St::Connecting && !over {
            if !self.send_any_state {
                for p in self.misc_send.iter().filter(|p| matches!(p.b, Body::Auth { .. })) {
                    o.push(Act::C(Call::Send(p.clone())));
                }
            }
            if !self.peer_any_state {
                for p in self.misc_recv.iter().filter(|p| matches!(p.b, Body::Auth { .. })) {
                    o.push(Act::C(Call::RecvP(p.clone())));
                }
            }
        }
        // manual responses
        if live {
            for (k, code) in &self.local_acks {
                let ids: Vec<u32> = match *k {
                    PUBACK => sh.in1.iter().copied().collect(),
                    PUBREC => sh.in2.iter().copied().collect(),
                    PUBCOMP => sh.inc.iter().copied().collect(),
                    _ => vec![],
                };
                for i in ids {
                    o.push(Act::C(Call::Send(self.ackx(sh, *k, i, *code))));
                }
            }
        }
        if !over && (live || self.pub_any_state && sh.persistent) && self.local_acks.iter().any(|a| a.0 == PUBREL) {
            for (i, ow) in &sh.used {
                if *ow == Own::Rec {
                    o.push(Act::C(Call::Send(self.ackx(sh, PUBREL, *i, None))));
                }
            }
        }
        // peer
        if live || self.peer_any_state {
            for p in &self.peer_pubs {
                o.push(Act::C(Call::RecvP(p.clone())));
            }
            for (k, code) in &self.peer_acks {
                for i in &self.ack_ids {
                    let own = sh.used.get(i).copied();
                    let m = match *k {
                        PUBACK => own == Some(Own::P1),
                        PUBREC => own == Some(Own::P2),
                        PUBCOMP => own == Some(Own::Rel),
                        SUBACK => own == Some(Own::Sub),
                        UNSUBACK => own == Some(Own::Unsub),
                        _ => true,
                    };
                    if self.acks_matching_only && !m {
                        continue;
                    }
                    let p = match *k {
                        _ if self.sub_codes.as_ref().is_some_and(|x| x.0 == v && x.1 == *k) || matches!(*k, SUBACK | UNSUBACK) && self.ack_props.as_ref().is_some_and(|x| x.0 == *k) => {
                            let codes = match &self.sub_codes {
                                Some((_, _, c)) => c.clone(),
                                None => vec![0],
                            };
                            let props = self.ack_props.as_ref().filter(|_| v == Ver::V5).map(|x| x.1.clone()).unwrap_or_default();
                            Pkt { ver: v, idw: sh.idw, b: if *k == SUBACK { Body::Suback { id: *i, props, codes } } else { Body::Unsuback { id: *i, props, codes: if v == Ver::V5 { codes } else { vec![] } } } }
                        }
                        SUBACK => Pkt { ver: v, idw: sh.idw, b: Body::Suback { id: *i, props: vec![], codes: if self.rich { vec![1, 0x80] } else { vec![0] } } },
                        UNSUBACK => Pkt { ver: v, idw: sh.idw, b: Body::Unsuback { id: *i, props: vec![], codes: if v == Ver::V5 && self.rich { vec![0x11, 0x80] } else if v == Ver::V5 { vec![0] } else { vec![] } } },
                        _ => self.ackx(sh, *k, *i, *code),
                    };
                    o.push(Act::C(Call::RecvP(p)));
                }
            }
            for p in &self.misc_recv {
                o.push(Act::C(Call::RecvP(p.clone())));
            }
            for b in &self.raw {
                o.push(Act::C(Call::RecvB(b.clone())));
            }
        }
        if self.timers {
            for k in 0..3u8 {
                if sh.armed[k as usize].is_some() {
                    o.push(Act::C(Call::Timer(k)));
                }
            }
        }
        for c in &self.cfg {
            // (switched on during a connection it would turn a session that is not persistent into
            // one, which the peer does not know)
            if *c == Call::Offline(true) && (sh.st != St::Disc || sh.open) {
                continue;
            }
            o.push(Act::C(c.clone()));
        }
        if self.erase {
            for i in sh.used.keys() {
                o.push(Act::C(Call::Erase(*i)));
            }
        }
        for i in &self.erase_ids {
            o.push(Act::C(Call::Erase(*i)));
        }
        if self.acquire_only && sh.used.len() < self.max_used {
            o.push(Act::C(Call::Acquire));
        }
        for i in &self.register {
            if sh.used.len() < self.max_used || sh.used.contains_key(i) {
                o.push(Act::C(Call::Register(*i)));
            }
        }
        if self.release_held {
            for (i, ow) in &sh.used {
                if *ow == Own::Held {
                    o.push(Act::C(Call::Release(*i)));
                }
            }
        }
        for i in &self.release_ids {
            if matches!(sh.used.get(i), None | Some(Own::Held)) {
                o.push(Act::C(Call::Release(*i)));
            }
        }
        o
    }
}

pub fn run_act(w: &mut World, a: &Act, bads: &mut Vec<Bad>) -> bool {
    match a {
        Act::C(c) => {
            w.exec(c.clone(), bads);
        }
        Act::AcqSend(p) => {
            let r = w.exec(Call::Acquire, bads);
            match r.id {
                Some(Ok(i)) => {
                    w.exec(Call::Send(p.with_id(i)), bads);
                }
                _ => return false,
            }
        }
        Act::SendErr(p) => {
            let r = w.exec(Call::Acquire, bads);
            match r.id {
                Some(Ok(i)) => {
                    let r = w.exec(Call::Send(p.with_id(i)), bads);
                    let rel: Vec<u32> = r.sends().filter_map(|s| s.rel).collect();
                    if rel.is_empty() {
                        return false;
                    }
                    for i in rel {
                        w.exec(Call::Release(i), bads);
                    }
                }
                _ => return false,
            }
        }
        Act::Restart => w.restart(),
        Act::RegSend(p) => {
            let r = w.exec(Call::Register(p.id().unwrap()), bads);
            match r.id {
                Some(Ok(_)) => {
                    w.exec(Call::Send(p.clone()), bads);
                }
                _ => return false,
            }
        }
    }
    true
}

/// keep only the complaints about `prop` (a panic concerns every property)
pub fn pick(prop: &str, bads: Vec<Bad>) -> Option<Bad> {
    let all = std::env::var_os("MC_ALL").is_some();
    for b in bads {
        if let Some(r) = b.sig.strip_prefix("*/") {
            return Some(Bad::new(format!("{prop}/{r}"), b.msg));
        }
        if all || b.sig.starts_with(prop) {
            return Some(b);
        }
    }
    None
}

pub type LeafFn = Arc<dyn Fn(&World, usize, &mut Leaf) + Send + Sync>;
pub struct ConnModel {
    pub prop: String,
    pub label: String,
    pub spec: Spec,
    pub a: Alpha,
    pub leaf: Option<LeafFn>,
}
impl Model for ConnModel {
    type S = World;
    type A = Act;
    fn name(&self) -> String {
        format!("{}:{}", self.prop, self.label)
    }
    fn init(&self) -> World {
        let mut w = World::new(self.spec);
        let mut b = vec![];
        for c in &self.a.setup {
            w.exec(c.clone(), &mut b);
        }
        w
    }
    fn actions(&self, s: &World) -> Vec<Act> {
        self.a.actions(s)
    }
    fn step(&self, s: &World, a: &Act) -> Out<World> {
        let mut w = s.clone();
        let mut bads = vec![];
        if !run_act(&mut w, a, &mut bads) && bads.is_empty() {
            return Out::Prune;
        }
        if !self.a.probe.is_empty() && bads.is_empty() {
            w.probe_ids(&self.a.probe, &mut bads);
        }
        match pick(&self.prop, bads) {
            Some(mut b) => {
                b.msg = format!("{}\n{}", b.msg, listing(&w.last));
                Out::Bad(b)
            }
            None => Out::Next(w),
        }
    }
    fn key(&self, s: &World) -> u128 {
        s.key()
    }
    fn outcome(&self, s: &World) -> u64 {
        // distinct event-list shapes seen
        let mut v: Vec<(u8, u64)> = vec![];
        for (_, r) in s.last.iter() {
            for e in r.all() {
                v.push(match e {
                    Ev::Recv(p) => (1, p.ptype() as u64),
                    Ev::Send(s) => (2, s.p.ptype() as u64 * 256 + code_of(&s.p) as u64),
                    Ev::Released(_) => (3, 0),
                    Ev::Set(k, ms) => (4, *k as u64 * 1_000_000 + ms),
                    Ev::Cancel(k) => (5, *k as u64),
                    Ev::Close => (6, 0),
                    Ev::Err(e) => (7, h128(e) as u64),
                });
            }
        }
        h128(&v) as u64
    }
    fn explain(&self, s: &World) -> String {
        listing(&s.last)
    }
    fn has_leaf(&self) -> bool {
        self.leaf.is_some()
    }
    fn leaf(&self, s: &World, depth: usize, k: &mut Leaf) {
        if let Some(f) = &self.leaf {
            f(s, depth, k)
        }
    }
}

// ---------------------------------------------------------------- packet shorthands
pub fn mk(v: Ver, w: u8, b: Body) -> Pkt {
    Pkt { ver: v, idw: w, b }
}
pub fn pu16(id: u8, x: u16) -> Prop {
    Prop { id, v: PV::U16(x) }
}
pub fn pu32(id: u8, x: u32) -> Prop {
    Prop { id, v: PV::U32(x) }
}
pub fn sei(x: u32) -> Prop {
    pu32(0x11, x)
}
pub fn rm(x: u16) -> Prop {
    pu16(0x21, x)
}
pub fn tam(x: u16) -> Prop {
    pu16(0x22, x)
}
pub fn alias(x: u16) -> Prop {
    pu16(0x23, x)
}
pub fn mps(x: u32) -> Prop {
    pu32(0x27, x)
}
pub fn ska(x: u16) -> Prop {
    pu16(0x13, x)
}
pub fn connect(v: Ver, clean: bool, ka: u16, props: Vec<Prop>) -> Pkt {
    mk(v, 2, Body::Connect { clean, keep_alive: ka, client_id: "c".into(), will: None, user: None, pass: None, props })
}
pub fn connack(v: Ver, sp: bool, code: u8, props: Vec<Prop>) -> Pkt {
    mk(v, 2, Body::Connack { sp, code, props })
}
pub fn publish(v: Ver, qos: u8, id: u32, topic: &str, props: Vec<Prop>) -> Pkt {
    mk(
        v,
        2,
        Body::Publish { dup: false, qos, retain: false, topic: topic.into(), id: if qos > 0 { Some(id) } else { None }, props, payload: b"p".to_vec() },
    )
}
pub fn publish_pl(v: Ver, qos: u8, id: u32, topic: &str, props: Vec<Prop>, n: usize) -> Pkt {
    mk(
        v,
        2,
        Body::Publish { dup: false, qos, retain: false, topic: topic.into(), id: if qos > 0 { Some(id) } else { None }, props, payload: vec![b'x'; n] },
    )
}
pub fn subscribe(v: Ver) -> Pkt {
    mk(v, 2, Body::Subscribe { id: 1, props: vec![], entries: vec![("t".into(), 1)] })
}
pub fn unsubscribe(v: Ver) -> Pkt {
    mk(v, 2, Body::Unsubscribe { id: 1, props: vec![], topics: vec!["t".into()] })
}
pub fn disconnect(v: Ver, code: Option<u8>) -> Pkt {
    mk(v, 2, Body::Disconnect { code, props: None })
}
pub fn ack(v: Ver, kind: u8, id: u32, code: Option<u8>) -> Pkt {
    mk(v, 2, Body::Ack { kind, id, code, props: None })
}
pub fn set_w(p: &Pkt, w: u8) -> Pkt {
    let mut q = p.clone();
    q.idw = w;
    q
}
impl Alpha {
    /// give every packet of the alphabet the identifier width `w`
    pub fn width(mut self, w: u8) -> Alpha {
        for l in [&mut self.connects, &mut self.connacks, &mut self.pubs, &mut self.reg_pubs, &mut self.peer_pubs, &mut self.subs, &mut self.misc_send, &mut self.misc_recv] {
            for p in l.iter_mut() {
                p.idw = w;
            }
        }
        self
    }
}
