//! Two real objects driven side by side: a reused object against a fresh one (C10), the object
//! that lived on against the one restored from its export (C16), a server of undetermined version
//! against one created with the version (C17).  Every call made on the first object is repeated on
//! the second and everything observable must be equal.  When the two reach equal full private
//! states no continuation can tell them apart, so that branch ends as decided.
use crate::conn::*;
use crate::explore::*;
use crate::refcodec::*;
use crate::sys::*;
use crate::world::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// the transport closes; the second object is fresh
    Fresh,
    /// the process dies; the second object is fresh and gets the export
    Restore,
    /// the second object lived through the same session over a connection without limits,
    /// keep-alive, aliases, subscriptions, pings and partial frames
    Neutral,
    /// the second object is created with the version the first CONNECT carries
    Fixed,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum PAct {
    A(Act),
    Fork(u8),
}
impl std::fmt::Debug for PAct {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            PAct::A(a) => write!(f, "{a:?}"),
            PAct::Fork(k) => write!(
                f,
                "=== notify_closed; a second object is created{}{}; both get the same calls from here on",
                if k & 1 != 0 { ", given the handled identifiers before the packets" } else { "" },
                if k & 2 != 0 { ", its options set last" } else { "" }
            ),
        }
    }
}
#[derive(Clone)]
pub struct PS {
    pub w: World,
    pub t: Option<Box<dyn Conn>>,
    /// the second object before the fork (Kind::Neutral)
    pub nt: Option<Box<dyn Conn>>,
    /// the sessions of both objects are supposed to be the same
    pub synced: bool,
    /// forks so far
    pub forks: u8,
    /// actions without a second object
    pub steps: u8,
}
pub struct Product {
    pub prop: String,
    pub label: String,
    pub spec: Spec,
    pub a: Alpha,
    /// alphabet once the second object exists (None: the same)
    pub after: Option<Alpha>,
    pub kind: Kind,
    /// actions before the fork
    pub pre: usize,
    pub converged: Arc<AtomicU64>,
    pub apart: Arc<AtomicU64>,
}

pub fn options(s: &Sh) -> Vec<Call> {
    let mut o = vec![Call::Offline(s.offline), Call::AutoPub(s.auto_pub), Call::AutoPing(s.auto_ping), Call::AutoMap(s.auto_map), Call::AutoReplace(s.auto_rep)];
    if s.role != RoleK::Server {
        o.push(Call::PingrespTo(s.prt));
        o.push(Call::PingInterval(s.ovr));
    }
    o
}
fn fresh(spec: Spec, sh: &Sh, ver: Option<Ver>) -> Box<dyn Conn> {
    let mut c = make(Spec { ver, ..spec });
    for x in options(sh) {
        c.call(&x);
    }
    c
}
fn plain(p: &Pkt) -> Pkt {
    let mut q = p.clone();
    if let Some(v) = q.props_mut() {
        v.retain(|x| ![0x21u8, 0x22, 0x27, 0x13].contains(&x.id));
    }
    if let Body::Connect { keep_alive, .. } = &mut q.b {
        *keep_alive = 0;
    }
    q
}
/// The calls that take a second object through the same session step without the
/// connection-scoped parts.
fn neutral(w: &World, pre: &Sh, act: &Act) -> Vec<Call> {
    let mut o = vec![];
    let mut id = None;
    for (c, r) in w.last.iter() {
        match c {
            Call::Closed | Call::Offline(_) | Call::AutoPub(_) | Call::AutoPing(_) | Call::AutoMap(_) | Call::AutoReplace(_) | Call::PingInterval(_) | Call::PingrespTo(_) | Call::Erase(_) => o.push(c.clone()),
            Call::Acquire => id = r.id.clone().and_then(|x| x.ok()),
            Call::Register(i) => id = Some(*i),
            _ if r.has_err() => {}
            Call::Send(p) => match p.ptype() {
                CONNECT | CONNACK => o.push(Call::Send(plain(p))),
                PUBLISH if qos_of(p) > 0 => {
                    if let Some(i) = id {
                        o.push(Call::Register(i));
                    }
                    let t = if topic_of(p).is_empty() { alias_of(p).and_then(|a| pre.tt.get(&a).cloned()).unwrap_or_default() } else { topic_of(p).to_string() };
                    o.push(Call::Send(strip_alias(&with_topic(p, &t))));
                }
                PUBACK | PUBREC | PUBREL | PUBCOMP => o.push(c.clone()),
                _ => {}
            },
            Call::RecvP(p) => match p.ptype() {
                CONNECT | CONNACK => o.push(Call::RecvP(plain(p))),
                PUBLISH if qos_of(p) > 0 => {
                    let t = if topic_of(p).is_empty() { alias_of(p).and_then(|a| pre.rt.get(&a).cloned()).unwrap_or_default() } else { topic_of(p).to_string() };
                    o.push(Call::RecvP(strip_alias(&with_topic(p, &t))));
                }
                PUBACK | PUBREC | PUBREL | PUBCOMP => o.push(c.clone()),
                _ => {}
            },
            _ => {}
        }
    }
    if matches!(act, Act::SendErr(_)) {
        return vec![];
    }
    o
}
fn obs(c: &dyn Conn) -> (Vec<Pkt>, Vec<u32>, Option<u16>, Option<Ver>) {
    (c.stored(), c.handled(), c.vacancy(), c.version())
}

impl Product {
    fn alpha(&self, s: &PS) -> &Alpha {
        match (&s.t, &self.after) {
            (Some(_), Some(a)) => a,
            _ => &self.a,
        }
    }
    fn names(&self) -> (&'static str, &'static str) {
        match self.kind {
            Kind::Fresh => ("reused object", "fresh object"),
            Kind::Neutral => ("object after a connection with limits, aliases, ...", "object after a plain connection"),
            Kind::Restore => ("restored object", "original object"),
            Kind::Fixed => ("server created undetermined", "server created with the version"),
        }
    }
    /// repeat on the second object what was just done on the first
    fn repeat(&self, s: &mut PS) -> Option<Bad> {
        let (n1, n2) = self.names();
        let t = s.t.as_mut()?;
        for (c, r1) in s.w.last.iter() {
            let r2 = match guarded(|| t.call(c)) {
                Ok(r) => r,
                Err(e) => return Some(Bad::new(format!("{}/panic", self.prop), format!("panic in {c:?} on the second object: {e}"))),
            };
            if *r1 != r2 {
                // Kind::Restore: the first object is the original
                let (a, b) = if self.kind == Kind::Restore { (&r2, r1) } else { (r1, &r2) };
                return Some(Bad::new(
                    format!("{}/{}", self.prop, self.sig()),
                    format!("{c:?}\n   {n1}:\n{}   {n2}:\n{}", listing(&[(c.clone(), a.clone())]), listing(&[(c.clone(), b.clone())])),
                ));
            }
        }
        None
    }
    fn sig(&self) -> &'static str {
        match self.kind {
            Kind::Fresh => "reused-differs",
            Kind::Neutral => "connection-state-leaks",
            Kind::Restore => "restored-differs",
            Kind::Fixed => "undetermined/differs",
        }
    }
}

impl Model for Product {
    type S = PS;
    type A = PAct;
    fn name(&self) -> String {
        format!("{}:{}", self.prop, self.label)
    }
    fn init(&self) -> PS {
        let mut w = World::new(self.spec);
        let mut b = vec![];
        for c in &self.a.setup {
            w.exec(c.clone(), &mut b);
        }
        let nt = if self.kind == Kind::Neutral { Some(w.c.clone()) } else { None };
        PS { w, nt, t: None, synced: false, forks: 0, steps: 0 }
    }
    fn actions(&self, s: &PS) -> Vec<PAct> {
        let a = self.alpha(s);
        let sh = &s.w.sh;
        let mut o: Vec<PAct> = vec![];
        if s.t.is_some() && !s.synced {
            // until the sessions agree only connection establishment is offered
            let r = Alpha {
                pubs: vec![],
                reg_pubs: vec![],
                subs: vec![],
                peer_pubs: vec![],
                peer_acks: vec![],
                local_acks: vec![],
                misc_send: vec![],
                misc_recv: vec![],
                erase: false,
                release_held: false,
                acquire_only: self.kind == Kind::Restore,
                register: if self.kind == Kind::Restore { vec![1, 2, 3] } else { vec![] },
                release_ids: vec![],
                erase_ids: vec![],
                restart: false,
                send_any_state: false,
                ..a.clone()
            };
            let other = |x: &Act| match (x, sh.ver, self.kind) {
                (Act::C(Call::RecvP(p) | Call::Send(p)), Some(v), Kind::Restore) => p.ver != v,
                _ => false,
            };
            o.extend(r.actions(&s.w).into_iter().filter(|x| !other(x)).map(PAct::A));
        } else if s.t.is_some() || (s.steps as usize) < self.pre {
            o.extend(a.actions(&s.w).into_iter().map(PAct::A));
        }
        if s.t.is_none() && s.forks < 2 {
            match self.kind {
                Kind::Fresh => {
                    if sh.conns > 0 && (sh.open || sh.closing) {
                        o.push(PAct::Fork(0));
                    }
                }
                Kind::Neutral => {
                    let n = s.nt.as_ref().unwrap();
                    if sh.conns > 0 && sh.persistent && s.w.c.stored() == n.stored() && s.w.c.handled() == n.handled() {
                        o.push(PAct::Fork(0));
                    }
                }
                Kind::Restore => {
                    if sh.conns > 0 && sh.persistent {
                        o.push(PAct::Fork(0));
                        // (the other orders of restoring matter only if they lead elsewhere)
                        let (c, opts) = (s.w.c.as_ref(), options(sh));
                        let d = c.respawn(&opts, 0).digest();
                        for k in 1..4 {
                            if c.respawn(&opts, k).digest() != d {
                                o.push(PAct::Fork(k));
                            }
                        }
                    }
                }
                Kind::Fixed => {}
            }
        }
        o
    }
    fn step(&self, s: &PS, a: &PAct) -> Out<PS> {
        let mut n = s.clone();
        let mut bads = vec![];
        if n.t.is_none() {
            n.steps += 1;
        }
        let act = match a {
            PAct::Fork(order) => {
                n.forks += 1;
                let pre = n.w.sh.clone();
                let restored = if self.kind == Kind::Restore { Some(n.w.c.respawn(&options(&pre), *order)) } else { None };
                n.w.exec(Call::Closed, &mut bads);
                n.w.sh.conns = 0;
                n.synced = self.kind == Kind::Neutral;
                n.t = Some(match restored {
                    Some(t) => t,
                    None if self.kind == Kind::Neutral => {
                        let mut t = n.nt.take().unwrap();
                        if let Err(e) = guarded(|| t.call(&Call::Closed)) {
                            return Out::Bad(Bad::new(format!("{}/panic", self.prop), format!("panic in notify_closed: {e}")));
                        }
                        t
                    }
                    None => fresh(self.spec, &n.w.sh, n.w.c.version()),
                });
                if let Some(b) = pick(&self.prop, bads) {
                    return Out::Bad(b);
                }
                if self.kind == Kind::Restore {
                    let t = n.t.as_ref().unwrap();
                    let (x, y) = (n.w.c.as_ref(), t.as_ref());
                    if x.stored() != y.stored() || x.handled() != y.handled() {
                        return Out::Bad(Bad::new(
                            format!("{}/{}", self.prop, self.sig()),
                            format!(
                                "after the export was restored: store [{}] handled {:?}; the original after its transport closed: store [{}] handled {:?}",
                                y.stored().iter().map(short).collect::<Vec<_>>().join("; "),
                                y.handled(),
                                x.stored().iter().map(short).collect::<Vec<_>>().join("; "),
                                x.handled()
                            ),
                        ));
                    }
                }
                return Out::Next(n);
            }
            PAct::A(a) => a,
        };
        // the second object of Kind::Fixed comes to life with the first CONNECT
        if self.kind == Kind::Fixed && n.t.is_none() {
            if let Act::C(Call::RecvP(p)) = act {
                if p.ptype() == CONNECT {
                    n.t = Some(fresh(self.spec, &n.w.sh, Some(p.ver)));
                    n.synced = true;
                }
            }
        }
        if !run_act(&mut n.w, act, &mut bads) && bads.is_empty() {
            return Out::Prune;
        }
        if let Some(b) = pick(&self.prop, bads) {
            return Out::Bad(b);
        }
        if n.t.is_none() {
            if let Some(t) = n.nt.as_mut() {
                for c in neutral(&n.w, &s.w.sh, act) {
                    if guarded(|| t.call(&c)).is_err() {
                        return Out::Prune;
                    }
                }
            }
            return Out::Next(n);
        }
        let closed = matches!(act, Act::C(Call::Closed));
        if self.kind == Kind::Fresh && !n.synced && closed {
            // no new session was started: what the first object does now is its old session's affair
            n.t = None;
            return Out::Next(n);
        }
        let mut resumed = false;
        let mut started = false;
        for (_, r) in n.w.last.iter() {
            for e in r.all() {
                if let Ev::Send(SendEv { p, .. }) | Ev::Recv(p) = e {
                    match &p.b {
                        Body::Connect { clean: true, .. } => started = true,
                        Body::Connack { sp, code: 0, .. } => {
                            if *sp {
                                resumed = true
                            } else {
                                started = true
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        match self.kind {
            Kind::Fresh if !n.synced && resumed => {
                // an old session was resumed: not the subject
                return Out::Prune;
            }
            Kind::Fresh => n.synced |= started,
            Kind::Restore => n.synced |= started || resumed,
            Kind::Fixed | Kind::Neutral => {}
        }
        if let Some(b) = self.repeat(&mut n) {
            return Out::Bad(b);
        }
        let t = n.t.as_ref().unwrap();
        if n.synced {
            let (x, y) = (obs(n.w.c.as_ref()), obs(t.as_ref()));
            if x != y {
                let (n1, n2) = self.names();
                let (x, y) = if self.kind == Kind::Restore { (y, x) } else { (x, y) };
                return Out::Bad(Bad::new(
                    format!("{}/{}", self.prop, self.sig()),
                    format!("(store, handled ids, vacancy, version) after {act:?}\n   {n1}: {x:?}\n   {n2}: {y:?}"),
                ));
            }
        }
        if cfg!(feature = "hook") && n.synced && n.w.c.digest() == t.digest() {
            self.converged.fetch_add(1, Ordering::Relaxed);
            return Out::Prune;
        }
        if n.synced {
            self.apart.fetch_add(1, Ordering::Relaxed);
            if std::env::var_os("MC_APART").is_some() {
                eprintln!("APART {act:?}\nA {}\nB {}", n.w.c.dump(), t.dump());
            }
        }
        Out::Next(n)
    }
    fn key(&self, s: &PS) -> u128 {
        h128(&(s.w.key(), s.t.as_ref().map(|t| t.digest()), s.nt.as_ref().map(|t| t.digest()), s.synced, s.forks))
    }
    fn outcome(&self, s: &PS) -> u64 {
        let mut v: Vec<(u8, u64)> = vec![];
        for (_, r) in s.w.last.iter() {
            for e in r.all() {
                v.push(match e {
                    Ev::Recv(p) => (1, p.ptype() as u64),
                    Ev::Send(s) => (2, s.p.ptype() as u64 * 256 + code_of(&s.p) as u64),
                    Ev::Released(_) => (3, 0),
                    Ev::Set(k, ms) => (4, *k as u64 * 1_000_000 + ms),
                    Ev::Cancel(k) => (5, *k as u64),
                    Ev::Close => (6, 0),
                    Ev::Err(e) => (7, h128(e) as u64),
                });
            }
        }
        h128(&(v, s.t.is_some(), s.synced)) as u64
    }
    fn explain(&self, s: &PS) -> String {
        listing(&s.w.last)
    }
}

// ------------------------------------------------------------------ configurations
fn session_alpha(role: RoleK, vs: &[Ver], w: u8, variant: usize) -> Alpha {
    let mut a = Alpha { max_used: 2, max_conns: 1, timers: true, erase: true, ..Alpha::default() };
    let on = variant % 2 == 1;
    a.setup = vec![Call::AutoPub(on), Call::AutoPing(on), Call::AutoMap(on), Call::AutoReplace(on), Call::Offline(on)];
    let server = role == RoleK::Server;
    if !server {
        a.setup.push(Call::PingrespTo(if on { 700 } else { 0 }));
        a.cfg = vec![Call::PingInterval(Some(3000)), Call::PingInterval(None)];
    }
    for v in vs {
        let v = *v;
        let v5 = v == Ver::V5;
        let lim: Vec<Prop> = if v5 { vec![rm(1), tam(1), mps(40)] } else { vec![] };
        let ck = |clean: bool, ka: u16, l: &Vec<Prop>| {
            let mut p = l.clone();
            if v5 && !clean {
                p.insert(0, sei(100));
            }
            connect(v, clean, ka, p)
        };
        a.connects.push(ck(true, 0, &vec![]));
        a.connects.push(ck(false, 10, &lim));
        a.connects.push(ck(true, 10, &lim));
        a.connects.push(ck(false, 0, &vec![]));
        let mut kl = lim.clone();
        if v5 {
            kl.push(ska(7));
        }
        a.connacks.push(connack(v, false, 0, kl.clone()));
        a.connacks.push(connack(v, false, 0, vec![]));
        a.connacks.push(connack(v, true, 0, kl));
        a.connacks.push(connack(v, false, if v5 { 0x87 } else { 5 }, vec![]));
        a.connacks.push(connack(v, true, if v5 { 0x87 } else { 5 }, vec![]));
        a.pubs.push(publish(v, 1, 1, "t", vec![]));
        a.pubs.push(publish(v, 2, 1, "t", vec![]));
        a.pubs.push(publish(v, 0, 0, "t", vec![]));
        if v5 {
            a.pubs.push(publish(v, 0, 0, "u", vec![alias(1)]));
            a.pubs.push(publish(v, 0, 0, "", vec![alias(1)]));
            a.peer_pubs.push(publish(v, 0, 0, "u", vec![alias(1)]));
            a.peer_pubs.push(publish(v, 1, 1, "", vec![alias(1)]));
        }
        if !server {
            a.subs.push(subscribe(v));
            a.subs.push(unsubscribe(v));
            a.misc_send.push(mk(v, 2, Body::Pingreq));
            a.misc_recv.push(mk(v, 2, Body::Pingresp));
        }
        a.peer_pubs.push(publish(v, 1, 1, "t", vec![]));
        a.peer_pubs.push(publish(v, 2, 1, "t", vec![]));
        a.peer_pubs.push(publish(v, 2, 2, "t", vec![]));
        a.misc_recv.push(disconnect(v, None));
        if !server || v5 {
            a.misc_send.push(disconnect(v, None));
        }
        a.raw.push(publish_pl(v, 2, 1, "t", vec![], 40).enc());
    }
    a.peer_acks = vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None), (PUBREL, None), (SUBACK, None)];
    a.ack_ids = vec![1];
    a.local_acks = vec![(PUBREC, None), (PUBCOMP, None), (PUBACK, None), (PUBREL, None)];
    a.raw.extend([vec![0x30], vec![0x32, 0x80], vec![0x62, 0x02, 0x00], vec![0xf0, 0x80, 0x80, 0x80, 0x80]]);
    a.width(w)
}

pub struct PCfg {
    pub label: String,
    pub spec: Spec,
    pub a: Alpha,
    pub kind: Kind,
    pub pre: (usize, usize),
    pub d: (usize, usize),
}
fn vn(v: Option<Ver>) -> &'static str {
    match v {
        None => "undetermined",
        Some(Ver::V3) => "v3.1.1",
        Some(Ver::V5) => "v5.0",
    }
}
pub fn cfgs(prop: &str) -> Vec<PCfg> {
    let mut o = vec![];
    let both = [Ver::V3, Ver::V5];
    for role in [RoleK::Client, RoleK::Server, RoleK::Any] {
        for ver in [Some(Ver::V3), Some(Ver::V5), None] {
            if ver.is_none() && role == RoleK::Client {
                continue;
            }
            let vs: Vec<Ver> = ver.map(|v| vec![v]).unwrap_or(both.to_vec());
            for variant in 0..2 {
                let wide = (role == RoleK::Any) as usize + ver.is_none() as usize;
                let spec = Spec { role, ver, idw: 2 };
                let a = session_alpha(role, &vs, 2, variant);
                let label = format!("{role:?} {} variant {variant}", vn(ver));
                match prop {
                    "C10" => {
                        o.push(PCfg { label: format!("{label} vs fresh"), spec, a: a.clone(), kind: Kind::Fresh, pre: (6 - wide.min(1), 8 - wide.min(1)), d: (12, 15) });
                        o.push(PCfg { label: format!("{label} vs plain connection"), spec, a, kind: Kind::Neutral, pre: (6 - wide.min(1), 7), d: (11, 13) });
                    }
                    "C16" if ver.is_some() || role == RoleK::Server => {
                        o.push(PCfg { label, spec, a, kind: Kind::Restore, pre: (6 - wide.min(1), 8 - wide.min(1)), d: (11, 14) });
                    }
                    "C17" if ver.is_none() && role == RoleK::Server => {
                        o.push(PCfg { label, spec, a: Alpha { max_conns: 2, peer_any_state: true, ..a }, kind: Kind::Fixed, pre: (4, 5), d: (6, 8) });
                    }
                    _ => {}
                }
            }
        }
    }
    // the session as every combination of Clean Start and Session Expiry Intervals settles it
    for role in [RoleK::Client, RoleK::Server] {
        let v = Ver::V5;
        let (c, k) = crate::props_conn::session_lives();
        let a = Alpha {
            setup: vec![Call::AutoPub(true)],
            connects: c,
            connacks: k,
            pubs: vec![publish(v, 1, 1, "t", vec![]), publish(v, 2, 1, "t", vec![])],
            peer_pubs: vec![publish(v, 2, 1, "t", vec![])],
            peer_acks: vec![(PUBACK, None), (PUBREC, None), (PUBCOMP, None), (PUBREL, None)],
            ack_ids: vec![1],
            max_used: 2,
            max_conns: 2,
            ..Alpha::default()
        }
        .width(2);
        let kind = match prop {
            "C10" => Kind::Fresh,
            "C16" => Kind::Restore,
            _ => continue,
        };
        o.push(PCfg { label: format!("{role:?} v5.0 session lives"), spec: Spec { role, ver: Some(v), idw: 2 }, a, kind, pre: (5, 7), d: (10, 13) });
    }
    o
}
/// Lean alphabets, each with one field of one packet kind varied.
fn varied(ctx: &mut crate::report::Ctx, prop: &str) {
    let quick = ctx.quick();
    let mut units = vec![];
    for c in cfgs(prop) {
        if c.label.contains("session lives") || c.label.contains("plain connection") || matches!(c.kind, Kind::Fixed) || c.label.contains("variant 0") {
            continue;
        }
        let mut base = c.a.clone();
        base.raw.clear();
        base.cfg.clear();
        base.erase = false;
        base.connects.retain(|p| matches!(&p.b, Body::Connect { keep_alive: 10, .. }));
        base.connacks.retain(|p| matches!(&p.b, Body::Connack { code: 0, props, sp } if *sp || props.is_empty() ));
        base.pubs.retain(|p| p.id().is_some());
        base.peer_pubs.retain(|p| matches!(&p.b, Body::Publish { qos: 2, .. }));
        base.peer_pubs.truncate(if base.connects.len() > 2 { 3 } else { 1 });
        for (what, mut a) in crate::props_conn::vary(&base) {
            // packets that end the connection or do nothing else only where they are what varies
            for (l, ks) in [(&mut a.misc_send, &base.misc_send), (&mut a.misc_recv, &base.misc_recv), (&mut a.subs, &base.subs)] {
                let same = *l == *ks;
                if same {
                    l.clear();
                }
            }
            if a.sub_codes.is_some() || a.ack_props.as_ref().is_some_and(|x| matches!(x.0, SUBACK | UNSUBACK)) {
                a.subs = base.subs.clone();
            } else if a.subs.is_empty() {
                a.peer_acks.retain(|k| !matches!(k.0, SUBACK | UNSUBACK));
            }
            units.push((c.label.clone(), c.spec, c.kind, what, a));
        }
    }
    if units.is_empty() {
        return;
    }
    let (pre, cap, min) = if quick { (5, 3_000, 7) } else { (6, 50_000, 9) };
    let label = format!("{prop}: one field varied ({} alphabets, {cap} states or depth {min} each)", units.len());
    let conv = Arc::new(AtomicU64::new(0));
    let apart = Arc::new(AtomicU64::new(0));
    enumerate_multi(ctx, &label, units.len(), |i, s| {
        let (label, spec, kind, what, a) = &units[i];
        let m = Product { prop: prop.into(), label: format!("{label}; {what}"), spec: *spec, a: a.clone(), after: None, kind: *kind, pre, converged: conv.clone(), apart: apart.clone() };
        small(&m, cap, min, s);
    });
}

pub fn run(ctx: &mut crate::report::Ctx, prop: &str) {
    let quick = ctx.quick();
    let list = cfgs(prop);
    let only = std::env::var("MC_ONLY").ok();
    if only.as_ref().is_none_or(|o| "one field varied".contains(o.as_str())) {
        varied(ctx, prop);
    }
    let n = list.len().max(1);
    for (i, c) in list.into_iter().enumerate() {
        if only.as_ref().map(|o| !c.label.contains(o.as_str())).unwrap_or(false) {
            continue;
        }
        let left = (ctx.budget_s - ctx.elapsed()).max(1.0);
        let secs = left / (n - i) as f64 * 1.5;
        let conv = Arc::new(AtomicU64::new(0));
        let apart = Arc::new(AtomicU64::new(0));
        let m = Product { prop: prop.into(), label: c.label.clone(), spec: c.spec, a: c.a, after: None, kind: c.kind, pre: if quick { c.pre.0 } else { c.pre.1 }, converged: conv.clone(), apart: apart.clone() };
        let depth = std::env::var("MC_DEPTH").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { c.d.0 } else { c.d.1 });
        if ctx.violations.len() >= 3 && std::env::var_os("MC_KEEP").is_none() {
            break;
        }
        bfs(ctx, &m, &Limits { depth, states: 3_000_000, min_depth: 0, secs });
        let k = conv.load(Ordering::Relaxed);
        if cfg!(feature = "hook") {
            ctx.note(format!("{}: {k} branches ended because both objects reached the same full private state (no continuation can differ); {} steps left them in different states, whose continuations were compared up to the depth", c.label, apart.load(Ordering::Relaxed)));
        }
    }
}
