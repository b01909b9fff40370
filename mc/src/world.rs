//! Reference protocol state ("shadow") driven by observed calls and events, and the per-property
//! monitors that judge every step of an exploration.
use crate::explore::{guarded, h128, Bad};
use crate::refcodec::*;
use crate::sys::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Disc,
    Connecting,
    Connected,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Own {
    Held,
    P1,
    P2,
    /// PUBREC received, PUBREL not sent yet
    Rec,
    /// PUBREL sent or queued, awaiting PUBCOMP
    Rel,
    Sub,
    Unsub,
}
impl Own {
    pub fn publish(self) -> bool {
        matches!(self, Own::P1 | Own::P2 | Own::Rec | Own::Rel)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Lim {
    pub rm: Option<u16>,
    pub mps: Option<u32>,
    pub tam: u16,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Sh {
    pub role: RoleK,
    pub ver: Option<Ver>,
    pub idw: u8,
    pub st: St,
    pub open: bool,
    pub closing: bool,
    pub peer_disc: bool,
    pub refused: bool,
    pub is_client: bool,
    pub conns: u8,
    pub armed: [Option<u64>; 3],
    pub persistent: bool,
    pub my: Lim,
    pub peer: Lim,
    pub ka: u16,
    pub ska: Option<u16>,
    pub ovr: Option<u64>,
    pub prt: u64,
    pub offline: bool,
    pub auto_pub: bool,
    pub auto_ping: bool,
    pub auto_map: bool,
    pub auto_rep: bool,
    pub used: BTreeMap<u32, Own>,
    pub asked: BTreeMap<u32, Pkt>,
    /// accepted, incomplete exchanges in the form they must be stored in, in store order
    pub inflight: Vec<Pkt>,
    pub h: BTreeSet<u32>,
    pub in1: BTreeSet<u32>,
    pub in2: BTreeSet<u32>,
    pub inc: BTreeSet<u32>,
    pub unacked: BTreeSet<u32>,
    pub rt: BTreeMap<u16, String>,
    pub tt: BTreeMap<u16, String>,
    /// bytes of the frame being received
    pub pending: Vec<u8>,
    /// the restored / foreign state makes some monitors inapplicable
    pub fuzzy: bool,
    /// the current session was restored from an export
    pub restarted: bool,
}

pub fn packet_too_small_for(l: &Lim, n: usize) -> bool {
    l.mps.map(|m| (m as usize) < n).unwrap_or(false)
}

pub fn alias_of(p: &Pkt) -> Option<u16> {
    p.prop_u16(0x23)
}
pub fn strip_alias(p: &Pkt) -> Pkt {
    let mut q = p.clone();
    if let Some(v) = q.props_mut() {
        v.retain(|x| x.id != 0x23);
    }
    q
}
pub fn with_topic(p: &Pkt, t: &str) -> Pkt {
    let mut q = p.clone();
    if let Body::Publish { topic, .. } = &mut q.b {
        *topic = t.to_string();
    }
    q
}
pub fn with_dup(p: &Pkt, d: bool) -> Pkt {
    let mut q = p.clone();
    if let Body::Publish { dup, .. } = &mut q.b {
        *dup = d;
    }
    q
}
pub fn topic_of(p: &Pkt) -> &str {
    if let Body::Publish { topic, .. } = &p.b {
        topic
    } else {
        ""
    }
}
pub fn qos_of(p: &Pkt) -> u8 {
    if let Body::Publish { qos, .. } = &p.b {
        *qos
    } else {
        0
    }
}
pub fn code_of(p: &Pkt) -> u8 {
    match &p.b {
        Body::Ack { code, .. } | Body::Disconnect { code, .. } | Body::Auth { code, .. } => code.unwrap_or(0),
        Body::Connack { code, .. } => *code,
        _ => 0,
    }
}
pub const CONNECT: u8 = 1;
pub const CONNACK: u8 = 2;
pub const PUBLISH: u8 = 3;
pub const PUBACK: u8 = 4;
pub const PUBREC: u8 = 5;
pub const PUBREL: u8 = 6;
pub const PUBCOMP: u8 = 7;
pub const SUBSCRIBE: u8 = 8;
pub const SUBACK: u8 = 9;
pub const UNSUBSCRIBE: u8 = 10;
pub const UNSUBACK: u8 = 11;
pub const PINGREQ: u8 = 12;
pub const PINGRESP: u8 = 13;
pub const DISCONNECT: u8 = 14;
pub const AUTH: u8 = 15;

impl Sh {
    pub fn new(s: Spec) -> Sh {
        Sh {
            role: s.role,
            ver: s.ver,
            idw: s.idw,
            st: St::Disc,
            open: false,
            closing: false,
            peer_disc: false,
            refused: false,
            is_client: s.role == RoleK::Client,
            conns: 0,
            armed: [None; 3],
            persistent: false,
            my: Lim::default(),
            peer: Lim::default(),
            ka: 0,
            ska: None,
            ovr: None,
            prt: 0,
            offline: false,
            auto_pub: false,
            auto_ping: false,
            auto_map: false,
            auto_rep: false,
            used: BTreeMap::new(),
            asked: BTreeMap::new(),
            inflight: vec![],
            h: BTreeSet::new(),
            in1: BTreeSet::new(),
            in2: BTreeSet::new(),
            inc: BTreeSet::new(),
            unacked: BTreeSet::new(),
            rt: BTreeMap::new(),
            tt: BTreeMap::new(),
            pending: vec![],
            fuzzy: false,
            restarted: false,
        }
    }
    pub fn interval(&self) -> u64 {
        if let Some(o) = self.ovr {
            o
        } else if let Some(s) = self.ska {
            s as u64 * 1000
        } else {
            self.ka as u64 * 1000
        }
    }
    pub fn recv_to(&self) -> u64 {
        self.ska.unwrap_or(self.ka) as u64 * 1500
    }
    pub fn n_incomplete(&self) -> usize {
        self.used.values().filter(|o| o.publish()).count()
    }
    pub fn max_id(&self) -> u32 {
        if self.idw == 2 {
            65535
        } else {
            u32::MAX
        }
    }
    fn new_session(&mut self) {
        self.restarted = false;
        self.used.clear();
        self.asked.clear();
        self.inflight.clear();
        self.h.clear();
        self.in1.clear();
        self.in2.clear();
        self.inc.clear();
    }
    fn lim(p: &Pkt) -> Lim {
        Lim { rm: p.prop_u16(0x21), mps: p.prop_u32(0x27), tam: p.prop_u16(0x22).unwrap_or(0) }
    }
    fn on_connect(&mut self, p: &Pkt, client: bool) {
        self.ver = Some(p.ver);
        self.st = St::Connecting;
        self.open = true;
        self.closing = false;
        self.peer_disc = false;
        self.refused = false;
        self.is_client = client;
        self.conns += 1;
        self.ska = None;
        self.my = Lim::default();
        self.peer = Lim::default();
        self.unacked.clear();
        self.rt.clear();
        self.tt.clear();
        self.in1.clear();
        self.in2.clear();
        self.inc.clear();
        if let Body::Connect { clean, keep_alive, .. } = &p.b {
            self.ka = *keep_alive;
            if *clean {
                self.new_session();
            }
            self.persistent = match p.ver {
                Ver::V3 => !*clean,
                Ver::V5 => p.prop_u32(0x11).unwrap_or(0) > 0,
            };
        }
        if p.ver == Ver::V5 {
            if client {
                self.my = Self::lim(p);
            } else {
                self.peer = Self::lim(p);
            }
        }
    }
    fn on_connack(&mut self, p: &Pkt) {
        let (sp, code) = if let Body::Connack { sp, code, .. } = &p.b { (*sp, *code) } else { return };
        if code != 0 {
            if self.is_client {
                self.refused = true;
            } else {
                self.st = St::Disc;
            }
            return;
        }
        self.st = St::Connected;
        if p.ver == Ver::V5 {
            if self.is_client {
                self.peer = Self::lim(p);
            } else {
                self.my = Self::lim(p);
            }
            if let Some(k) = p.prop_u16(0x13) {
                self.ska = Some(k);
            }
            if let Some(s) = p.prop_u32(0x11) {
                self.persistent = s > 0;
            }
        }
        if !sp {
            self.new_session();
        }
    }
    fn on_closed(&mut self) {
        self.st = St::Disc;
        self.open = false;
        self.closing = false;
        self.peer_disc = false;
        self.refused = false;
        self.my = Lim::default();
        self.peer = Lim::default();
        self.unacked.clear();
        self.rt.clear();
        self.tt.clear();
        self.in1.clear();
        self.in2.clear();
        self.inc.clear();
        self.pending.clear();
        self.fuzzy = false;
        if !self.persistent {
            self.h.clear();
        }
    }
    /// PUBREL takes the place of a PUBREL already queued, else it is queued last
    fn set_pubrel(&mut self, id: u32, p: &Pkt) {
        if let Some(q) = self.inflight.iter_mut().find(|q| q.id() == Some(id) && q.ptype() == PUBREL) {
            *q = p.clone();
        } else {
            self.drop_inflight(id);
            self.inflight.push(p.clone());
        }
    }
    fn drop_inflight(&mut self, id: u32) {
        self.inflight.retain(|p| p.id() != Some(id));
    }
}

pub enum Frame {
    Incomplete,
    /// total length of the frame
    Complete(usize),
    /// the Remaining Length does not end within four bytes; the frame is the header and those bytes
    BadLength(usize),
}
pub fn frame_end(b: &[u8]) -> Frame {
    let mut rl = 0usize;
    for i in 0..4 {
        match b.get(1 + i) {
            None => return Frame::Incomplete,
            Some(x) => {
                rl |= ((x & 0x7f) as usize) << (7 * i);
                if x & 0x80 == 0 {
                    let e = 2 + i + rl;
                    return if b.len() >= e { Frame::Complete(e) } else { Frame::Incomplete };
                }
            }
        }
    }
    Frame::BadLength(5)
}

pub struct World {
    pub c: Box<dyn Conn>,
    pub sh: Sh,
    pub last: Arc<Vec<(Call, Ret)>>,
}
impl Clone for World {
    fn clone(&self) -> Self {
        World { c: self.c.clone(), sh: self.sh.clone(), last: Arc::new(vec![]) }
    }
}

pub fn listing(v: &[(Call, Ret)]) -> String {
    let mut o = String::new();
    for (c, r) in v {
        o.push_str(&format!("{c:?}\n"));
        if let Some(i) = &r.id {
            o.push_str(&format!("   = {i:?}\n"));
        }
        for (n, l) in r.lists.iter().enumerate() {
            if r.lists.len() > 1 {
                o.push_str(&format!("   [call {} consumed {}]\n", n + 1, r.used.get(n).copied().unwrap_or(0)));
            }
            for e in l {
                o.push_str(&format!("   {e:?}\n"));
            }
        }
        if let Some(s) = &r.stall {
            o.push_str(&format!("   STALL {s}\n"));
        }
    }
    o
}

impl World {
    pub fn new(s: Spec) -> World {
        World { c: make(s), sh: Sh::new(s), last: Arc::new(vec![]) }
    }
    pub fn key(&self) -> u128 {
        h128(&(self.c.digest(), h128(&self.sh)))
    }
    /// The process dies: what survives is the exported session state and the options.
    pub fn restart(&mut self) {
        let s = &self.sh;
        let mut opts = vec![Call::Offline(s.offline), Call::AutoPub(s.auto_pub), Call::AutoPing(s.auto_ping), Call::AutoMap(s.auto_map), Call::AutoReplace(s.auto_rep)];
        if s.role != RoleK::Server {
            opts.push(Call::PingrespTo(s.prt));
            opts.push(Call::PingInterval(s.ovr));
        }
        self.c = self.c.respawn(&opts, 0);
        let sh = &mut self.sh;
        sh.on_closed();
        sh.restarted = true;
        sh.armed = [None; 3];
        sh.used.retain(|_, o| o.publish());
        for o in sh.used.values_mut() {
            if *o == Own::Rec {
                *o = Own::Rel;
            }
        }
    }
    /// Execute a call on the real object, update the shadow, and collect every monitor's complaint.
    pub fn exec(&mut self, call: Call, bads: &mut Vec<Bad>) -> Ret {
        let is_connack = matches!(&call, Call::Send(p) | Call::RecvP(p) if p.ptype() == CONNACK);
        let pre_store = if is_connack { Some(self.c.stored()) } else { None };
        let c = &mut self.c;
        let ret = match guarded(|| c.call(&call)) {
            Ok(r) => r,
            Err(e) => {
                bads.push(Bad::new("*/panic", format!("panic in {call:?}: {e}")));
                Ret::default()
            }
        };
        if let Some(v) = Arc::get_mut(&mut self.last) {
            v.push((call.clone(), ret.clone()));
        }
        self.observe(&call, &ret, pre_store, bads);
        ret
    }

    pub fn observe(&mut self, call: &Call, ret: &Ret, pre_store: Option<Vec<Pkt>>, bads: &mut Vec<Bad>) {
        let pre = self.sh.clone();
        let sh = &mut self.sh;
        macro_rules! bad {
            ($sig:expr, $($a:tt)*) => { bads.push(Bad::new($sig, format!($($a)*))) };
        }
        // ---------- totality
        if let Some(s) = &ret.stall {
            bad!("C05/stall", "{s} on {call:?}");
        }
        if ret.all().count() > 64 + pre.inflight.len() * 2 {
            bad!("C05/flood", "{} events from {call:?}", ret.all().count());
        }
        // bytes arrive only over a transport
        if matches!(call, Call::RecvP(_) | Call::RecvB(_)) {
            sh.open = true;
        }
        // ---------- local option calls
        match call {
            Call::PingInterval(x) => sh.ovr = *x,
            Call::PingrespTo(x) => sh.prt = *x,
            Call::Offline(x) => sh.offline = *x,
            Call::AutoPub(x) => sh.auto_pub = *x,
            Call::AutoPing(x) => sh.auto_ping = *x,
            Call::AutoMap(x) => sh.auto_map = *x,
            Call::AutoReplace(x) => sh.auto_rep = *x,
            Call::Timer(k) => sh.armed[*k as usize] = None,
            _ => {}
        }
        // ---------- negotiation first (events in one list are simultaneous)
        let mut resumed: Option<bool> = None;
        for e in ret.all() {
            match e {
                Ev::Send(s) if s.p.ptype() == CONNECT => sh.on_connect(&s.p, true),
                Ev::Recv(p) if p.ptype() == CONNECT => {
                    if pre.st != St::Disc {
                        bad!("C17/connect-established", "CONNECT delivered while {:?}", pre.st);
                    }
                    sh.on_connect(p, false);
                    // a second CONNECT over a transport that should have been closed
                    sh.fuzzy = pre.closing;
                }
                Ev::Recv(p) | Ev::Send(SendEv { p, .. }) if p.ptype() == CONNACK => {
                    if matches!(e, Ev::Recv(_)) && pre.st == St::Connected {
                        bad!("C17/connack-state", "CONNACK delivered while {:?}", pre.st);
                    } else {
                        sh.on_connack(p);
                        if let Body::Connack { sp, code: 0, .. } = &p.b {
                            resumed = Some(*sp);
                        }
                    }
                }
                _ => {}
            }
        }
        // ---------- id management calls
        if let Some(r) = &ret.id {
            let maxid = sh.max_id();
            match (call, r) {
                (Call::Acquire, Ok(i)) => {
                    if pre.used.contains_key(i) || *i == 0 || *i > maxid {
                        bad!("C08/acquire-used", "acquire_packet_id returned {i} while used={:?}", pre.used);
                    }
                    sh.used.insert(*i, Own::Held);
                }
                (Call::Acquire, Err(e)) => {
                    if (pre.used.len() as u64) < maxid as u64 {
                        bad!("C08/acquire-fail", "acquire_packet_id failed ({e}) with only {} ids in use", pre.used.len());
                    }
                }
                (Call::Register(i), Ok(_)) => {
                    if pre.used.contains_key(i) || *i == 0 {
                        bad!("C08/register-used", "register_packet_id({i}) succeeded while used={:?}", pre.used);
                    }
                    sh.used.insert(*i, Own::Held);
                }
                (Call::Register(i), Err(e)) => {
                    if !pre.used.contains_key(i) && *i != 0 {
                        bad!("C08/register-free", "register_packet_id({i}) failed ({e}) although the id is free (used={:?})", pre.used);
                    }
                }
                _ => {}
            }
        }
        // the wire packet handed in, when there is exactly one
        let mut framed: Option<Pkt> = None;
        if let Some(bytes) = match call {
            Call::RecvP(p) => Some(p.enc()),
            Call::RecvB(b) => Some(b.clone()),
            _ => None,
        } {
            let mut pos = 0usize;
            let mut frames = 0;
            for (n, l) in ret.lists.iter().enumerate() {
                let used = ret.used.get(n).copied().unwrap_or(0);
                let mut all = sh.pending.clone();
                all.extend_from_slice(&bytes[pos.min(bytes.len())..]);
                let fr = frame_end(&all);
                let want = match fr {
                    Frame::Incomplete => all.len(),
                    Frame::Complete(e) | Frame::BadLength(e) => e,
                } - sh.pending.len();
                if used != want && ret.stall.is_none() {
                    bad!("C09/consumed", "recv consumed {used} bytes, the current frame ends after {want} ({call:?})");
                }
                match fr {
                    Frame::Incomplete => {
                        if !l.is_empty() {
                            bad!("C09/partial-event", "events from an incomplete frame: {l:?} ({call:?})");
                        }
                        sh.pending = all;
                    }
                    Frame::BadLength(_) => {
                        frames += 1;
                        sh.pending.clear();
                        if !l.iter().any(|e| matches!(e, Ev::Err(_))) {
                            bad!("C09/bad-length", "Remaining Length of more than four bytes not reported: {l:?}");
                            bad!("C05/silent", "Remaining Length of more than four bytes not reported: {l:?}");
                        }
                        if l.iter().any(|e| matches!(e, Ev::Recv(_))) {
                            bad!("C09/bad-length", "packet delivered from a frame without a valid length: {l:?}");
                        }
                    }
                    Frame::Complete(e) => {
                        frames += 1;
                        sh.pending.clear();
                        let d = decode(&all[..e], pre.ver.unwrap_or(if all[0] >> 4 == 1 && e > 8 && all[8] == 5 { Ver::V5 } else { Ver::V3 }), pre.idw).ok();
                        if !l.iter().any(|e| matches!(e, Ev::Err(_) | Ev::Recv(_))) {
                            // (the parser tolerates a PUBLISH that ends before the property length)
                            let lenient = || {
                                let mut b = all[..e].to_vec();
                                b.push(0);
                                b[1] = b[1].wrapping_add(1);
                                decode(&b, Ver::V5, pre.idw).ok()
                            };
                            let dup = match &d.clone().or_else(lenient) {
                                Some(w) => {
                                    w.ptype() == PUBLISH
                                        && qos_of(w) == 2
                                        && pre.h.contains(&w.id().unwrap_or(0))
                                        && l.iter().any(|e| matches!(e, Ev::Send(s) if s.p.ptype() == PUBREC && s.p.id() == w.id()))
                                }
                                None => false,
                            };
                            if !dup {
                                bad!("C05/silent", "frame {:02x?} was neither delivered, answered as duplicate nor reported", &all[..e.min(64)]);
                            }
                        }
                        framed = if frames == 1 { d } else { None };
                    }
                }
                pos += used;
            }
        }
        let wire: Option<&Pkt> = match call {
            Call::RecvP(p) if pre.pending.is_empty() => Some(p),
            Call::RecvB(_) | Call::RecvP(_) => framed.as_ref(),
            _ => None,
        };
        let sent: Option<&Pkt> = if let Call::Send(p) = call { Some(p) } else { None };
        let has_err = ret.has_err();
        // what topic the application asked for in this call
        let mut asked_now: Option<Pkt> = None;
        if let Some(p) = sent {
            if p.ptype() == PUBLISH {
                let t = if topic_of(p).is_empty() {
                    alias_of(p).and_then(|a| pre.tt.get(&a).cloned()).unwrap_or_default()
                } else {
                    topic_of(p).to_string()
                };
                asked_now = Some(strip_alias(&with_topic(p, &t)));
            }
        }
        // ---------- walk the events
        let mut resent: Vec<Pkt> = vec![];
        for l in &ret.lists {
            let mut closed_at: Option<usize> = None;
            let mut needs_close: Option<String> = None;
            for (n, e) in l.iter().enumerate() {
                match e {
                    Ev::Close => {
                        sh.closing = true;
                        closed_at.get_or_insert(n);
                    }
                    Ev::Set(k, ms) => {
                        let want = match *k {
                            PINGREQ_SEND => {
                                if sh.is_client {
                                    sh.interval()
                                } else {
                                    0
                                }
                            }
                            PINGREQ_RECV => {
                                if sh.is_client {
                                    0
                                } else {
                                    sh.recv_to()
                                }
                            }
                            _ => sh.prt,
                        };
                        if *ms != want || *ms == 0 {
                            bad!("C15/interval", "{} armed with {ms} ms, expected {}", tname(*k), if want == 0 { "not to be armed".into() } else { format!("{want} ms") });
                        }
                        sh.armed[*k as usize] = Some(*ms);
                    }
                    Ev::Cancel(k) => {
                        if sh.armed[*k as usize].is_none() {
                            bad!("C15/cancel-unarmed", "{} cancelled but it is not armed ({call:?})", tname(*k));
                        }
                        sh.armed[*k as usize] = None;
                    }
                    Ev::Released(i) => {
                        if sh.used.remove(i).is_none() {
                            bad!("C08/release-free", "release of {i} announced but it is not in use ({call:?}; used before={:?})", pre.used);
                        }
                        sh.drop_inflight(*i);
                        sh.asked.remove(i);
                    }
                    Ev::Send(s) => {
                        if let Some(c) = closed_at {
                            bad!("C19/order", "RequestClose (event {c}) precedes RequestSendPacket {} (event {n})", s.p.name());
                        }
                        let p = &s.p;
                        if p.ptype() == DISCONNECT || p.ptype() == CONNACK && code_of(p) != 0 {
                            needs_close = Some(short(p));
                        }
                        if let Some(b) = &s.bad {
                            bad!("C03/sent", "packet requested for sending is not decodable: {b} {}", short(p));
                        }
                        if let Some(m) = sh.peer.mps {
                            if s.size > m as usize {
                                bad!("C14/send-oversize", "{} of {} bytes requested for sending, peer's Maximum Packet Size is {m}", short(p), s.size);
                            }
                        }
                        match p.ptype() {
                            DISCONNECT => sh.st = St::Disc,
                            PUBLISH => {
                                let t = topic_of(p).to_string();
                                let want: Option<&Pkt> = match (&asked_now, p.id()) {
                                    (Some(a), i) if i == a.id() => Some(a),
                                    (_, Some(i)) => pre.asked.get(&i),
                                    _ => None,
                                };
                                let resolved = match alias_of(p) {
                                    Some(a) => {
                                        if a == 0 || a > sh.peer.tam {
                                            bad!("C13/alias-range", "PUBLISH sent with topic alias {a}, peer allows 1..={}", sh.peer.tam);
                                        }
                                        if !t.is_empty() {
                                            sh.tt.insert(a, t.clone());
                                            Some(t.clone())
                                        } else {
                                            sh.tt.get(&a).cloned()
                                        }
                                    }
                                    None if t.is_empty() => None,
                                    None => Some(t.clone()),
                                };
                                match (&resolved, want) {
                                    (None, _) => {
                                        bad!("C13/unresolvable", "{} sent but the receiver has no topic for it (bindings {:?})", short(p), sh.tt)
                                    }
                                    (Some(r), Some(w)) if r != topic_of(w) => {
                                        bad!("C13/wrong-topic", "{} resolves to {r:?} at the receiver, application asked for {:?}", short(p), topic_of(w))
                                    }
                                    _ => {}
                                }
                                if let (Some(r), Some(w)) = (&resolved, want) {
                                    // content other than topic form must be what was asked for
                                    let a = strip_alias(&with_dup(&with_topic(p, r), false));
                                    let b = strip_alias(&with_dup(&with_topic(w, r), false));
                                    if a != b {
                                        bad!("C06/content", "sent {} but the application asked for {}", short(p), short(w));
                                    }
                                }
                                if resumed.is_some() {
                                    resent.push(p.clone());
                                    if alias_of(p).is_some() || t.is_empty() {
                                        bad!("C13/resend-alias", "retransmitted {} does not carry the full topic without alias", short(p));
                                    }
                                }
                            }
                            PUBREL => {
                                if resumed.is_some() {
                                    resent.push(p.clone());
                                    if let Some(o) = p.id().and_then(|i| sh.used.get_mut(&i)) {
                                        if *o == Own::Rec {
                                            *o = Own::Rel;
                                        }
                                    }
                                } else if let Some(i) = p.id() {
                                    if let Some(o) = sh.used.get_mut(&i) {
                                        if matches!(*o, Own::Rec | Own::P2) {
                                            *o = Own::Rel;
                                            sh.set_pubrel(i, p);
                                        }
                                    }
                                }
                            }
                            PUBACK => {
                                if let Some(i) = p.id() {
                                    sh.in1.remove(&i);
                                    sh.unacked.remove(&i);
                                }
                            }
                            PUBREC => {
                                if let Some(i) = p.id() {
                                    sh.in2.remove(&i);
                                    if code_of(p) >= 0x80 {
                                        sh.unacked.remove(&i);
                                        sh.h.remove(&i);
                                    }
                                }
                            }
                            PUBCOMP => {
                                if let Some(i) = p.id() {
                                    sh.inc.remove(&i);
                                    sh.unacked.remove(&i);
                                }
                            }
                            SUBSCRIBE => {
                                if let Some(i) = p.id() {
                                    sh.used.insert(i, Own::Sub);
                                }
                            }
                            UNSUBSCRIBE => {
                                if let Some(i) = p.id() {
                                    sh.used.insert(i, Own::Unsub);
                                }
                            }
                            _ => {}
                        }
                    }
                    Ev::Recv(p) => {
                        let id = p.id().unwrap_or(0);
                        let own = pre.used.get(&id).copied();
                        match p.ptype() {
                            PUBLISH => {
                                if qos_of(p) == 1 {
                                    sh.in1.insert(id);
                                    sh.unacked.insert(id);
                                    if l.iter().any(|e| matches!(e, Ev::Send(s) if s.p.ptype() == PUBACK && s.p.id() == Some(id))) {
                                        sh.in1.remove(&id);
                                        sh.unacked.remove(&id);
                                    }
                                }
                                if qos_of(p) == 2 {
                                    if pre.h.contains(&id) {
                                        bad!("C07/dup-notified", "QoS2 PUBLISH id {id} notified again although already notified and not released (handled={:?})", pre.h);
                                        if pre.restarted {
                                            bad!("C16/dup-notified", "QoS2 PUBLISH id {id} notified before the crash (handled={:?}) is notified again", pre.h);
                                        }
                                    }
                                    sh.h.insert(id);
                                    sh.unacked.insert(id);
                                    sh.in2.insert(id);
                                    for e in l {
                                        if let Ev::Send(s) = e {
                                            if s.p.ptype() == PUBREC && s.p.id() == Some(id) {
                                                sh.in2.remove(&id);
                                                if code_of(&s.p) >= 0x80 {
                                                    sh.h.remove(&id);
                                                    sh.unacked.remove(&id);
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                            PUBACK => {
                                if own != Some(Own::P1) {
                                    bad!("C06/unmatched-ack", "PUBACK id {id} accepted although no QoS1 PUBLISH with that id is in flight ({own:?})");
                                } else if !ret.released().contains(&id) {
                                    bad!("C08/no-release", "PUBACK completed exchange {id} without announcing the release");
                                    sh.used.remove(&id);
                                }
                                sh.drop_inflight(id);
                                sh.asked.remove(&id);
                            }
                            PUBREC => {
                                if own != Some(Own::P2) {
                                    bad!("C06/unmatched-ack", "PUBREC id {id} accepted although no QoS2 PUBLISH with that id awaits it ({own:?})");
                                } else if code_of(p) >= 0x80 {
                                    if !ret.released().contains(&id) {
                                        bad!("C08/no-release", "failing PUBREC completed exchange {id} without announcing the release");
                                        sh.used.remove(&id);
                                    }
                                    sh.drop_inflight(id);
                                    sh.asked.remove(&id);
                                } else {
                                    if sh.used.get(&id) != Some(&Own::Rel) {
                                        if sh.used.contains_key(&id) {
                                            sh.used.insert(id, Own::Rec);
                                            sh.drop_inflight(id);
                                            sh.inflight.push(Pkt { ver: p.ver, idw: p.idw, b: Body::Ack { kind: PUBREL, id, code: None, props: None } });
                                        } else {
                                            bad!("C06/freed-early", "PUBREC (success) for {id} freed the identifier before PUBCOMP");
                                            sh.drop_inflight(id);
                                        }
                                    }
                                    if pre.auto_pub && pre.st == St::Connected && sh.used.get(&id) == Some(&Own::Rec) && !has_err {
                                        bad!("C06/no-pubrel", "PUBREC for {id} not answered with PUBREL although automatic responses are on");
                                    }
                                }
                            }
                            PUBCOMP => {
                                if own != Some(Own::Rel) {
                                    bad!("C06/unmatched-ack", "PUBCOMP id {id} accepted although no PUBREL with that id is in flight ({own:?})");
                                } else if !ret.released().contains(&id) {
                                    bad!("C08/no-release", "PUBCOMP completed exchange {id} without announcing the release");
                                    sh.used.remove(&id);
                                }
                                sh.drop_inflight(id);
                                sh.asked.remove(&id);
                            }
                            PUBREL => {
                                sh.h.remove(&id);
                                if !l.iter().any(|e| matches!(e, Ev::Send(s) if s.p.ptype() == PUBCOMP && s.p.id() == Some(id))) {
                                    sh.inc.insert(id);
                                } else {
                                    sh.inc.remove(&id);
                                }
                            }
                            SUBACK => {
                                if own != Some(Own::Sub) {
                                    bad!("C08/unmatched-suback", "SUBACK id {id} accepted although no SUBSCRIBE is pending ({own:?})");
                                } else if !ret.released().contains(&id) {
                                    bad!("C08/no-release", "SUBACK completed {id} without announcing the release");
                                    sh.used.remove(&id);
                                }
                            }
                            UNSUBACK => {
                                if own != Some(Own::Unsub) {
                                    bad!("C08/unmatched-unsuback", "UNSUBACK id {id} accepted although no UNSUBSCRIBE is pending ({own:?})");
                                } else if !ret.released().contains(&id) {
                                    bad!("C08/no-release", "UNSUBACK completed {id} without announcing the release");
                                    sh.used.remove(&id);
                                }
                            }
                            DISCONNECT => sh.peer_disc = true,
                            _ => {}
                        }
                    }
                    Ev::Err(_) => {}
                }
            }
            if let (Some(w), None) = (&needs_close, closed_at) {
                bad!("C19/missing-close", "{w} requested for sending without a close request in the same list");
            }
        }
        // ---------- QoS2 duplicate bookkeeping
        if let Some(w) = wire {
            if w.ptype() == PUBLISH && qos_of(w) == 2 && !has_err {
                let id = w.id().unwrap_or(0);
                let recv = ret.recvs().any(|p| p.ptype() == PUBLISH);
                let rec = ret.sends().any(|s| s.p.ptype() == PUBREC && s.p.id() == Some(id));
                if !recv {
                    if !pre.h.contains(&id) {
                        bad!("C07/swallowed", "valid QoS2 PUBLISH id {id} was neither notified nor refused (handled={:?})", pre.h);
                        bad!("C05/swallowed", "valid QoS2 PUBLISH id {id} was neither notified nor refused");
                    } else if pre.st == St::Connected {
                        if !rec {
                            bad!("C07/dup-unanswered", "retransmitted QoS2 PUBLISH id {id} was not answered with PUBREC");
                        }
                        sh.unacked.insert(id);
                    }
                } else if ret.recvs().filter(|p| p.ptype() == PUBLISH).count() > 1 {
                    bad!("C07/dup-notified", "QoS2 PUBLISH id {id} notified twice from one packet");
                }
                if pre.st == St::Connected && pre.auto_pub && !rec && !packet_too_small_for(&pre.peer, 2 + pre.idw as usize) {
                    bad!("C07/unanswered", "QoS2 PUBLISH id {id} not answered with PUBREC although automatic responses are on");
                }
            }
            if w.ptype() == PUBLISH && qos_of(w) == 1 && !has_err && pre.st == St::Connected && pre.auto_pub && !packet_too_small_for(&pre.peer, 2 + pre.idw as usize) {
                let id = w.id().unwrap_or(0);
                if !ret.sends().any(|s| s.p.ptype() == PUBACK && s.p.id() == Some(id)) {
                    bad!("C01/q1-unanswered", "QoS1 PUBLISH id {id} not answered with PUBACK although automatic responses are on");
                }
            }
            // every complete packet is delivered, answered as duplicate, or reported
            if !has_err && ret.recvs().next().is_none() {
                let dup = w.ptype() == PUBLISH
                    && qos_of(w) == 2
                    && pre.h.contains(&w.id().unwrap_or(0))
                    && ret.sends().any(|s| s.p.ptype() == PUBREC);
                if !dup {
                    bad!("C05/silent", "received {} was neither delivered, answered as duplicate nor reported", short(w));
                }
            }
            // unmatched acknowledgements
            let id = w.id().unwrap_or(0);
            let own = pre.used.get(&id).copied();
            let expect = match w.ptype() {
                PUBACK => Some(own == Some(Own::P1)),
                PUBREC => Some(own == Some(Own::P2)),
                PUBCOMP => Some(own == Some(Own::Rel)),
                SUBACK => Some(own == Some(Own::Sub)),
                UNSUBACK => Some(own == Some(Own::Unsub)),
                _ => None,
            };
            if let Some(m) = expect {
                let sig = if w.ptype() <= PUBCOMP { "C06" } else { "C08" };
                // an acknowledgement above the local packet size limit has to be refused
                let has_err = has_err && !(m && packet_too_small_for(&pre.my, w.enc().len()));
                if m && has_err && pre.st == St::Connected && !pre.closing && pre.restarted {
                    bad!("C16/ack-refused", "{} answers an exchange of the restored session but was reported as an error: {:?}", short(w), ret.errs());
                }
                if m && !has_err && pre.restarted && pre.st == St::Connected && !pre.closing {
                    let ends = match w.ptype() {
                        PUBACK | PUBCOMP => true,
                        PUBREC => code_of(w) >= 0x80,
                        _ => false,
                    };
                    if ends && !ret.released().contains(&id) {
                        bad!("C16/ack-no-release", "{} completes an exchange of the restored session but its identifier is not released", short(w));
                    }
                }
                if m && has_err && pre.st == St::Connected && !pre.closing {
                    bad!(format!("{sig}/matched-refused"), "{} answers an exchange in flight but was reported as an error: {:?}", short(w), ret.errs());
                }
                if !m {
                    if !has_err {
                        bad!(format!("{sig}/unmatched-silent"), "unmatched {} not reported as an error", short(w));
                    }
                    if !ret.released().is_empty() {
                        bad!(format!("{sig}/unmatched-release"), "unmatched {} released {:?}", short(w), ret.released());
                        bad!("C08/unmatched-release", "unmatched {} released {:?}", short(w), ret.released());
                    }
                }
            }
        }
        // ---------- local sends
        if let Some(p) = sent {
            let id = p.id().unwrap_or(0);
            let own = pre.used.get(&id).copied();
            match p.ptype() {
                PUBLISH if qos_of(p) > 0 => {
                    if !has_err {
                        let q = qos_of(p);
                        sh.used.insert(id, if q == 1 { Own::P1 } else { Own::P2 });
                        if let Some(a) = &asked_now {
                            sh.asked.insert(id, a.clone());
                            sh.drop_inflight(id);
                            sh.inflight.push(with_dup(a, true));
                        }
                        let was_sent = ret.sends().any(|s| s.p.ptype() == PUBLISH && s.p.id() == Some(id));
                        if !was_sent {
                            let st = self.c.stored();
                            if !st.iter().any(|s| s.ptype() == PUBLISH && s.id() == Some(id)) {
                                bad!("C06/dropped", "{} accepted without error but neither sent nor stored", short(p));
                            }
                        }
                        if own.is_none() {
                            bad!("C08/send-unowned", "{} accepted although its identifier is not in use", short(p));
                        }
                    } else if own == Some(Own::Held) && !ret.released().contains(&id) {
                        bad!("C08/refused-no-release", "{} refused ({:?}) without releasing its identifier", short(p), ret.errs());
                    }
                }
                SUBSCRIBE | UNSUBSCRIBE => {
                    if has_err && own == Some(Own::Held) && !ret.released().contains(&id) {
                        bad!("C08/refused-no-release", "{} refused ({:?}) without releasing its identifier", short(p), ret.errs());
                    }
                }
                PUBREL => {
                    if !has_err && sh.used.get(&id) == Some(&Own::Rec) {
                        sh.used.insert(id, Own::Rel);
                        sh.set_pubrel(id, p);
                        if !ret.sends().any(|s| s.p.ptype() == PUBREL && s.p.id() == Some(id)) {
                            let st = self.c.stored();
                            if !st.iter().any(|s| s.ptype() == PUBREL && s.id() == Some(id)) {
                                bad!("C06/pubrel-dropped", "PUBREL {id} accepted without error but neither sent nor stored");
                            }
                        }
                    }
                }
                _ => {}
            }
            if has_err && ret.sends().next().is_some() && p.ptype() != CONNACK {
                bad!("C11/err-and-send", "{} refused but something was requested for sending", short(p));
            }
        }
        if let Call::Erase(id) = call {
            if !ret.released().is_empty() {
                // a PUBREL is not a PUBLISH, a SUBSCRIBE is not stored: their exchanges
                // are not for this call to end
                match pre.used.get(id) {
                    Some(Own::Rel | Own::Rec) => bad!("C06/erase-released-rel", "erase_stored_publish({id}) freed the identifier of an exchange past its PUBREC, which still waits for PUBCOMP"),
                    Some(Own::Sub | Own::Unsub) => bad!("C08/erase-released-sub", "erase_stored_publish({id}) freed the identifier of an unanswered SUBSCRIBE/UNSUBSCRIBE"),
                    _ => {}
                }
                sh.drop_inflight(*id);
            } else if pre.used.get(id).map(|o| matches!(o, Own::P1 | Own::P2)).unwrap_or(false)
                && pre.inflight.iter().any(|p| p.id() == Some(*id) && p.ptype() == PUBLISH)
                && pre.persistent
            {
                bad!("C08/erase-no-release", "erase_stored_publish({id}) of an in-flight stored PUBLISH did not release its identifier");
            }
        }
        if let Call::Release(id) = call {
            let was = pre.used.contains_key(id);
            let rel = ret.released();
            if was && rel != vec![*id] {
                bad!("C08/release-call", "release_packet_id({id}) of an id in use announced {rel:?}");
                sh.used.remove(id);
            }
            if !was && !rel.is_empty() {
                bad!("C08/release-call", "release_packet_id({id}) of a free id announced {rel:?}");
            }
        }
        // ---------- session resume
        if let (Some(sp), Some(ps)) = (resumed, &pre_store) {
            if sp {
                let mut want: Vec<Pkt> = vec![];
                let mut drop: Vec<u32> = vec![];
                for s in ps {
                    let n = s.enc().len();
                    if sh.peer.mps.map(|m| n > m as usize).unwrap_or(false) {
                        drop.extend(s.id());
                    } else {
                        want.push(s.clone());
                    }
                }
                if pre.restarted {
                    let must: Vec<Pkt> = pre.inflight.iter().filter(|s| !sh.peer.mps.map(|m| s.enc().len() > m as usize).unwrap_or(false)).cloned().collect();
                    if resent != must {
                        bad!(
                            "C16/resume",
                            "restored session resumed: accepted and incomplete [{}], retransmitted [{}]",
                            must.iter().map(short).collect::<Vec<_>>().join("; "),
                            resent.iter().map(short).collect::<Vec<_>>().join("; ")
                        );
                    }
                }
                if resent != want {
                    bad!(
                        "C06/resume",
                        "session resumed: expected retransmission of [{}], got [{}]",
                        want.iter().map(short).collect::<Vec<_>>().join("; "),
                        resent.iter().map(short).collect::<Vec<_>>().join("; ")
                    );
                }
                for w in &want {
                    if w.ptype() == PUBLISH && !matches!(&w.b, Body::Publish { dup: true, .. }) {
                        bad!("C06/resume-dup", "stored {} lacks DUP", short(w));
                    }
                }
                for d in &drop {
                    if !ret.released().contains(d) {
                        bad!("C14/drop-no-release", "oversize stored packet {d} dropped on resume without releasing its identifier");
                        sh.used.remove(d);
                    }
                    sh.drop_inflight(*d);
                    if self.c.stored().iter().any(|p| p.id() == Some(*d)) {
                        bad!("C14/drop-kept", "oversize stored packet {d} still stored after resume");
                    }
                }
                if !sh.is_client {
                    // CONNACK first
                    if ret.sends().next().map(|s| s.p.ptype()) != Some(CONNACK) {
                        bad!("C06/resume-order", "retransmission precedes the CONNACK");
                    }
                }
            } else {
                let st = self.c.stored();
                if !st.is_empty() {
                    bad!("C06/new-session-store", "session not present but {} packets still stored", st.len());
                }
                if !resent.is_empty() {
                    bad!("C06/new-session-resend", "session not present but [{}] retransmitted", resent.iter().map(short).collect::<Vec<_>>().join("; "));
                }
            }
        }
        // ---------- transport closed
        if let Call::Closed = call {
            let mut want: BTreeSet<u32> = BTreeSet::new();
            for (i, o) in &pre.used {
                if matches!(o, Own::Sub | Own::Unsub) || (!pre.persistent && o.publish()) {
                    want.insert(*i);
                }
            }
            let got: Vec<u32> = ret.released();
            let gset: BTreeSet<u32> = got.iter().copied().collect();
            if gset != want || got.len() != gset.len() {
                bad!("C08/close-release", "transport closed (persistent={}): released {got:?}, expected exactly {want:?} (in use {:?})", pre.persistent, pre.used);
                for w in &want {
                    sh.used.remove(w);
                    sh.drop_inflight(*w);
                }
            }
            sh.on_closed();
            for k in 0..3 {
                if sh.armed[k].is_some() {
                    bad!("C15/armed-after-close", "{} still armed after the transport was reported closed", tname(k as u8));
                    sh.armed[k] = None;
                }
            }
        }
        // ---------- C15
        let disc_sent = ret.sends().any(|s| s.p.ptype() == DISCONNECT);
        if disc_sent {
            for k in 0..3 {
                if sh.armed[k].is_some() {
                    bad!("C15/armed-after-disconnect", "{} still armed after DISCONNECT was sent", tname(k as u8));
                }
            }
        }
        if pre.st == St::Disc && sh.st == St::Disc {
            for e in ret.all() {
                if let Ev::Set(k, _) = e {
                    bad!("C15/armed-while-disconnected", "{} armed by {call:?} while disconnected", tname(*k));
                }
            }
        }
        if sh.st == St::Connected && !sh.fuzzy {
            let sends_any = ret.sends().any(|s| s.p.ptype() != DISCONNECT);
            if sh.is_client && sends_any {
                let i = sh.interval();
                let set = ret.all().any(|e| matches!(e, Ev::Set(PINGREQ_SEND, _)));
                if i > 0 && !set {
                    bad!("C15/no-rearm", "client sent a packet without re-arming the PINGREQ timer ({i} ms): {call:?}");
                }
            }
        }
        if !sh.is_client && !sh.fuzzy && sh.st != St::Disc {
            if let Some(w) = wire {
                let accepted = !has_err && w.ptype() != DISCONNECT;
                if accepted && sh.recv_to() > 0 && (pre.st == St::Connected || w.ptype() == CONNECT) && !ret.all().any(|e| matches!(e, Ev::Set(PINGREQ_RECV, _))) {
                    bad!("C15/no-recv-rearm", "server accepted {} without re-arming the keep-alive timer ({} ms)", short(w), sh.recv_to());
                }
            }
        }
        for s in ret.sends() {
            // what the application is told to release should the transport fail
            if let Some(i) = s.rel {
                if !matches!(s.p.ptype(), PUBLISH | PUBREL | SUBSCRIBE | UNSUBSCRIBE) || s.p.id() != Some(i) || !sh.fuzzy && !sh.used.contains_key(&i) {
                    bad!("C08/send-error-id", "{} is to release identifier {i} if the send fails, which it does not hold (in use: {:?})", short(&s.p), sh.used);
                }
                if sh.persistent && !sh.fuzzy && sh.inflight.iter().any(|p| p.id() == Some(i)) {
                    bad!("C06/send-error-stored", "{} is stored, yet its identifier {i} is to be released if the send fails", short(&s.p));
                }
            }
            if s.p.ptype() == PINGREQ && sh.prt > 0 && !ret.all().any(|e| matches!(e, Ev::Set(PINGRESP_RECV, _))) {
                bad!("C15/no-pingresp-timer", "PINGREQ sent without arming the response timer ({} ms)", sh.prt);
            }
        }
        if ret.all().any(|e| matches!(e, Ev::Set(PINGRESP_RECV, _))) && !ret.sends().any(|s| s.p.ptype() == PINGREQ) {
            bad!("C15/pingresp-timer-spurious", "response timer armed without a PINGREQ being sent: {call:?}");
        }
        if ret.recvs().any(|p| p.ptype() == PINGRESP) && sh.armed[2].is_some() {
            bad!("C15/pingresp-not-cancelled", "PINGRESP received but the response timer is still armed");
        }
        if resumed.is_some() && sh.is_client && sh.ovr.is_none() && sh.ska == Some(0) && sh.armed[0].is_some() {
            bad!("C15/ska0", "Server Keep Alive 0 leaves the PINGREQ timer armed");
        }
        if resumed.is_some() && !sh.is_client && sh.recv_to() == 0 && sh.armed[1].is_some() {
            bad!("C15/ska0", "Server Keep Alive 0 leaves the receive timer armed");
        }
        if let Call::PingInterval(Some(0)) = call {
            if sh.armed[0].is_some() {
                bad!("C15/override0", "set_pingreq_send_interval(0) leaves the timer armed");
            }
        }
        if let Call::Timer(k) = call {
            if pre.st == St::Connected && !pre.closing && !pre.peer_disc {
                match *k {
                    PINGREQ_SEND => {
                        if !ret.sends().any(|s| s.p.ptype() == PINGREQ) && !packet_too_small_for(&pre.peer, 2) {
                            bad!("C15/no-pingreq", "PINGREQ timer expired but no PINGREQ was requested");
                        }
                    }
                    _ => {
                        if !ret.has_close() {
                            bad!("C19/expiry-no-close", "{} expired on an established connection without a close request", tname(*k));
                            bad!("C15/expiry", "{} expired without the close request", tname(*k));
                        }
                        let d = ret.sends().any(|s| s.p.ptype() == DISCONNECT && code_of(&s.p) == 0x8d);
                        if pre.ver == Some(Ver::V5) && !d && !packet_too_small_for(&pre.peer, 3) {
                            bad!("C15/expiry", "{} expired without DISCONNECT Keep Alive timeout", tname(*k));
                        }
                        if pre.ver == Some(Ver::V3) && ret.sends().next().is_some() {
                            bad!("C15/expiry", "{} expired under v3.1.1 and something was sent", tname(*k));
                        }
                    }
                }
            }
        }
        // ---------- C12
        if let (Some(w), Some(r)) = (wire, pre.my.rm) {
            if w.ptype() == PUBLISH && qos_of(w) > 0 && pre.st == St::Connected && !pre.closing {
                let id = w.id().unwrap_or(0);
                let full = pre.unacked.len() >= r as usize && !pre.unacked.contains(&id);
                let d = ret.sends().any(|s| s.p.ptype() == DISCONNECT && code_of(&s.p) == 0x93) || ret.errs().iter().any(|e| *e == "ReceiveMaximumExceeded");
                let too_big = pre.my.mps.map(|m| w.enc().len() > m as usize).unwrap_or(false);
                // (a PUBLISH with another fault may be refused for that one)
                let other = ret.errs().iter().any(|e| *e == "TopicAliasInvalid") && ret.recvs().next().is_none();
                if full && !too_big && !other {
                    if !ret.sends().any(|s| s.p.ptype() == DISCONNECT && code_of(&s.p) == 0x93) && !packet_too_small_for(&pre.peer, 3) {
                        bad!("C12/inbound-not-enforced", "{} exceeds the local Receive Maximum {r} (outstanding {:?}) but no DISCONNECT 0x93", short(w), pre.unacked);
                    }
                    if ret.recvs().next().is_some() {
                        bad!("C12/inbound-delivered", "{} exceeds the local Receive Maximum {r} (outstanding {:?}) but was delivered", short(w), pre.unacked);
                    }
                } else if d {
                    bad!("C12/inbound-spurious", "{} is within the local Receive Maximum {r} (outstanding {:?}) but was answered with 0x93", short(w), pre.unacked);
                }
            }
        }
        if pre.my.rm.is_none() && ret.sends().any(|s| s.p.ptype() == DISCONNECT && code_of(&s.p) == 0x93) && sent.is_none() {
            bad!("C12/inbound-spurious", "DISCONNECT 0x93 although no Receive Maximum was announced");
        }
        if sh.st == St::Connected && sh.ver == Some(Ver::V5) {
            if let Some(m) = sh.peer.rm {
                let n = sh.n_incomplete() as u16;
                let v = self.c.vacancy();
                let want = m.saturating_sub(n);
                if v != Some(want) {
                    bad!("C12/vacancy", "vacancy {v:?}, expected {want} (peer Receive Maximum {m}, {n} exchanges incomplete: {:?})", sh.used);
                }
                if let Some(p) = sent {
                    if p.ptype() == PUBLISH && qos_of(p) > 0 && pre.st == St::Connected {
                        let pn = pre.n_incomplete() as u16;
                        if !has_err && pn >= m {
                            bad!("C12/over-send", "{} accepted with {pn} exchanges incomplete, peer Receive Maximum {m}", short(p));
                        }
                        if ret.errs().iter().any(|e| *e == "ReceiveMaximumExceeded") && pn < m {
                            bad!("C12/under-send", "{} refused for flow control with {pn} of {m} exchanges incomplete", short(p));
                        }
                    }
                }
            }
        }
        // ---------- C13 receiving side
        if let Some(w) = wire {
            if w.ptype() == PUBLISH && w.ver == Ver::V5 && pre.st == St::Connected && !pre.closing {
                let a = alias_of(w);
                let t = topic_of(w);
                let range_ok = a.map(|a| a >= 1 && a <= pre.my.tam).unwrap_or(true);
                let expect: Option<String> = if !range_ok {
                    None
                } else if t.is_empty() {
                    a.and_then(|a| pre.rt.get(&a).cloned())
                } else {
                    Some(t.to_string())
                };
                match &expect {
                    None => {
                        if ret.recvs().next().is_some() || !has_err {
                            bad!("C13/recv-invalid", "{} has no valid topic (bindings {:?}, maximum {}) but was not rejected", short(w), pre.rt, pre.my.tam);
                        }
                    }
                    Some(t) => {
                        for r in ret.recvs() {
                            if topic_of(r) != t {
                                bad!("C13/recv-topic", "{} delivered with topic {:?}, bound topic is {t:?}", short(w), topic_of(r));
                            }
                        }
                        if ret.errs().iter().any(|e| *e == "TopicAliasInvalid") {
                            bad!("C13/recv-refused", "{} is resolvable to {t:?} (bindings {:?}) but was rejected", short(w), pre.rt);
                        }
                        if let (Some(a), false, false) = (a, topic_of(w).is_empty(), has_err) {
                            sh.rt.insert(a, t.clone());
                        }
                    }
                }
            }
        }
        // ---------- C14 receiving side
        if let Some(w) = wire {
            let n = w.enc().len();
            if let Some(m) = pre.my.mps {
                if n > m as usize && pre.st != St::Disc {
                    if ret.recvs().next().is_some() {
                        bad!("C14/recv-delivered", "{} of {n} bytes delivered, local Maximum Packet Size is {m}", short(w));
                    }
                    if pre.st == St::Connected
                        && !ret.sends().any(|s| s.p.ptype() == DISCONNECT && code_of(&s.p) == 0x95)
                        && !packet_too_small_for(&pre.peer, 3)
                    {
                        bad!("C14/recv-no-disconnect", "{} of {n} bytes exceeds the local Maximum Packet Size {m} but no DISCONNECT 0x95", short(w));
                    }
                }
            }
            let within = pre.my.mps.map(|m| n <= m as usize).unwrap_or(true);
            if within && ret.sends().any(|s| s.p.ptype() == DISCONNECT && code_of(&s.p) == 0x95) {
                bad!("C14/recv-spurious", "{} of {n} bytes is within the local limit {:?} but was answered with 0x95", short(w), pre.my.mps);
            }
        }
        if let Some(p) = sent {
            let n = p.enc().len();
            let within = pre.peer.mps.map(|m| n <= m as usize).unwrap_or(true);
            if within && !pre.fuzzy && ret.errs().iter().any(|e| *e == "PacketTooLarge") {
                bad!("C14/send-spurious", "{} of {n} bytes refused as too large, peer's limit is {:?}", short(p), pre.peer.mps);
            }
        }
        // ---------- connection can be re-established
        if let Some(p) = sent {
            if p.ptype() == CONNECT && pre.st == St::Disc && !pre.open && pre.role != RoleK::Server && pre.ver == Some(p.ver) && !ret.sends().any(|s| s.p.ptype() == CONNECT) {
                bad!("C05/wedged", "CONNECT refused on a closed connection: {:?}", ret.errs());
            }
        }
        if let Some(w) = wire {
            if w.ptype() == CONNECT
                && pre.st == St::Disc
                && !pre.open
                && pre.pending.is_empty()
                && pre.role != RoleK::Client
                && (pre.ver.is_none() || pre.ver == Some(w.ver))
                && !ret.recvs().any(|s| s.ptype() == CONNECT)
            {
                bad!("C05/wedged", "valid CONNECT not accepted on a closed connection: {:?}", ret.errs());
            }
        }
        // ---------- store equals the reference while the session is persistent
        if sh.persistent && !sh.fuzzy {
            let st = self.c.stored();
            if st != sh.inflight {
                bads.push(Bad::new(
                    "C06/store",
                    format!(
                        "session is persistent: expected store [{}], exported store [{}] after {call:?}",
                        sh.inflight.iter().map(short).collect::<Vec<_>>().join("; "),
                        st.iter().map(short).collect::<Vec<_>>().join("; ")
                    ),
                ));
            }
        }
    }

    /// Compare the identifier allocator with the reference through `register` probes on a clone.
    pub fn probe_ids(&self, ids: &[u32], bads: &mut Vec<Bad>) {
        let mut c = self.c.clone();
        for i in ids {
            let r = match guarded(|| c.call(&Call::Register(*i))) {
                Ok(r) => r,
                Err(e) => {
                    bads.push(Bad::new("*/panic", format!("panic in register_packet_id({i}): {e}")));
                    return;
                }
            };
            let free = matches!(r.id, Some(Ok(_)));
            let want = *i != 0 && !self.sh.used.contains_key(i);
            if free && !want {
                bads.push(Bad::new("C08/probe-free", format!("identifier {i} can be registered although it is {} (in use {:?})", if *i == 0 { "0" } else { "in use" }, self.sh.used)));
                if self.sh.restarted && self.sh.used.get(i).map(|o| o.publish()).unwrap_or(false) {
                    bads.push(Bad::new("C16/id-free", format!("identifier {i} of a restored incomplete exchange can be acquired again (in use {:?})", self.sh.used)));
                }
                if self.sh.used.get(i).map(|o| o.publish()).unwrap_or(false) {
                    bads.push(Bad::new("C06/id-not-held", format!("identifier {i} of an incomplete exchange is free (in use {:?})", self.sh.used)));
                }
            }
            if !free && want {
                bads.push(Bad::new("C08/probe-leak", format!("identifier {i} cannot be registered although nothing uses it (in use {:?})", self.sh.used)));
            }
        }
    }
}
