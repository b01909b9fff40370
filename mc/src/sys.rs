//! The system under test: the crate's `GenericConnection` behind a uniform, cloneable interface.
use crate::bridge::*;
use crate::explore::h128;
use crate::refcodec::*;
use mqtt_protocol_core::mqtt;
use mqtt::common::{Cursor, HashSet as LibSet};
use mqtt::connection::role::{Any, Client, RoleType, Server};
use mqtt::connection::{GenericConnection, GenericEvent, Sendable, TimerKind, Version};
use mqtt::packet::{GenericPacket, GenericPacketTrait, GenericStorePacket, IntoPacketId};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum RoleK {
    Client,
    Server,
    Any,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Spec {
    pub role: RoleK,
    /// None = Undetermined
    pub ver: Option<Ver>,
    pub idw: u8,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Call {
    Send(Pkt),
    /// one whole packet (encoded by the reference codec)
    RecvP(Pkt),
    /// arbitrary bytes, fed until consumed
    RecvB(Vec<u8>),
    Timer(u8),
    Closed,
    PingInterval(Option<u64>),
    PingrespTo(u64),
    Offline(bool),
    AutoPub(bool),
    AutoPing(bool),
    AutoMap(bool),
    AutoReplace(bool),
    Acquire,
    Register(u32),
    Release(u32),
    Erase(u32),
    /// restore_packets with these PUBLISH/PUBREL packets
    Restore(Vec<Pkt>),
    RestoreHandled(Vec<u32>),
}

pub fn short(p: &Pkt) -> String {
    let mut s = format!("{}[{}]", p.name(), if p.ver == Ver::V3 { "3.1.1" } else { "5.0" });
    let f = match &p.b {
        Body::Connect { clean, keep_alive, client_id, will, user, pass, props } => {
            format!("clean={clean} ka={keep_alive} cid={client_id:?} will={} user={user:?} pass={} {props:?}", will.is_some(), pass.is_some())
        }
        Body::Connack { sp, code, props } => format!("sp={sp} code={code:#x} {props:?}"),
        Body::Publish { dup, qos, retain, topic, id, props, payload } => {
            format!("q{qos} id={id:?} topic={topic:?} dup={dup} retain={retain} payload={} {props:?}", payload.len())
        }
        Body::Ack { id, code, props, .. } => format!("id={id} code={code:x?} {}", props.as_ref().map(|p| format!("{p:?}")).unwrap_or_default()),
        Body::Subscribe { id, props, entries } => format!("id={id} {entries:?} {props:?}"),
        Body::Suback { id, props, codes } | Body::Unsuback { id, props, codes } => format!("id={id} {codes:x?} {props:?}"),
        Body::Unsubscribe { id, props, topics } => format!("id={id} {topics:?} {props:?}"),
        Body::Disconnect { code, props } | Body::Auth { code, props } => format!("code={code:x?} {props:?}"),
        Body::Pingreq | Body::Pingresp => String::new(),
    };
    s.push(' ');
    s.push_str(&f);
    s.trim_end().to_string()
}

impl std::fmt::Debug for Call {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Call::Send(p) => write!(f, "send {}", short(p)),
            Call::RecvP(p) => {
                let b = p.enc();
                write!(f, "recv {}", short(p))?;
                if b.len() <= 80 {
                    write!(f, "  bytes={b:02x?}")?;
                }
                Ok(())
            }
            Call::RecvB(b) if b.len() <= 200 => write!(f, "recv bytes {b:02x?}"),
            Call::RecvB(b) => write!(f, "recv {} bytes", b.len()),
            Call::Timer(k) => write!(f, "notify_timer_fired({})", tname(*k)),
            Call::Closed => write!(f, "notify_closed"),
            Call::PingInterval(x) => write!(f, "set_pingreq_send_interval({x:?})"),
            Call::PingrespTo(x) => write!(f, "set_pingresp_recv_timeout({x})"),
            Call::Offline(x) => write!(f, "set_offline_publish({x})"),
            Call::AutoPub(x) => write!(f, "set_auto_pub_response({x})"),
            Call::AutoPing(x) => write!(f, "set_auto_ping_response({x})"),
            Call::AutoMap(x) => write!(f, "set_auto_map_topic_alias_send({x})"),
            Call::AutoReplace(x) => write!(f, "set_auto_replace_topic_alias_send({x})"),
            Call::Acquire => write!(f, "acquire_packet_id"),
            Call::Register(x) => write!(f, "register_packet_id({x})"),
            Call::Release(x) => write!(f, "release_packet_id({x})"),
            Call::Erase(x) => write!(f, "erase_stored_publish({x})"),
            Call::Restore(x) => write!(f, "restore_packets({:?})", x.iter().map(short).collect::<Vec<_>>()),
            Call::RestoreHandled(x) => write!(f, "restore_qos2_publish_handled({x:?})"),
        }
    }
}

pub const PINGREQ_SEND: u8 = 0;
pub const PINGREQ_RECV: u8 = 1;
pub const PINGRESP_RECV: u8 = 2;
pub fn tname(k: u8) -> &'static str {
    ["PingreqSend", "PingreqRecv", "PingrespRecv"][k as usize]
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SendEv {
    /// what a spec-conformant peer would decode from the bytes (or the accessors' view if `bad`)
    pub p: Pkt,
    pub size: usize,
    /// the bytes the application would write to the transport
    pub raw: Vec<u8>,
    pub rel: Option<u32>,
    pub bad: Option<String>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Ev {
    Recv(Pkt),
    Send(SendEv),
    Released(u32),
    Set(u8, u64),
    Cancel(u8),
    Close,
    Err(String),
}
impl std::fmt::Debug for Ev {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Ev::Recv(p) => write!(f, "NotifyPacketReceived {}", short(p)),
            Ev::Send(s) => write!(f, "RequestSendPacket {} size={} rel={:?}{}", short(&s.p), s.size, s.rel, s.bad.as_ref().map(|b| format!(" BAD({b})")).unwrap_or_default()),
            Ev::Released(i) => write!(f, "NotifyPacketIdReleased({i})"),
            Ev::Set(k, ms) => write!(f, "RequestTimerReset({}, {ms})", tname(*k)),
            Ev::Cancel(k) => write!(f, "RequestTimerCancel({})", tname(*k)),
            Ev::Close => write!(f, "RequestClose"),
            Ev::Err(e) => write!(f, "NotifyError({e})"),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Ret {
    /// one event list per API call (several for RecvB)
    pub lists: Vec<Vec<Ev>>,
    /// bytes consumed per recv call
    pub used: Vec<usize>,
    pub id: Option<Result<u32, String>>,
    pub stall: Option<String>,
}
impl Ret {
    pub fn all(&self) -> impl Iterator<Item = &Ev> {
        self.lists.iter().flatten()
    }
    pub fn has_err(&self) -> bool {
        self.all().any(|e| matches!(e, Ev::Err(_)))
    }
    pub fn errs(&self) -> Vec<&str> {
        self.all().filter_map(|e| if let Ev::Err(s) = e { Some(s.as_str()) } else { None }).collect()
    }
    pub fn sends(&self) -> impl Iterator<Item = &SendEv> {
        self.all().filter_map(|e| if let Ev::Send(s) = e { Some(s) } else { None })
    }
    pub fn recvs(&self) -> impl Iterator<Item = &Pkt> {
        self.all().filter_map(|e| if let Ev::Recv(s) = e { Some(s) } else { None })
    }
    pub fn released(&self) -> Vec<u32> {
        self.all().filter_map(|e| if let Ev::Released(s) = e { Some(*s) } else { None }).collect()
    }
    pub fn has_close(&self) -> bool {
        self.all().any(|e| matches!(e, Ev::Close))
    }
}

pub trait Conn: Send + Sync {
    fn clone_box(&self) -> Box<dyn Conn>;
    fn call(&mut self, c: &Call) -> Ret;
    fn stored(&self) -> Vec<Pkt>;
    fn handled(&self) -> Vec<u32>;
    fn vacancy(&self) -> Option<u16>;
    fn version(&self) -> Option<Ver>;
    /// regulate_for_store on a v5.0 PUBLISH
    fn regulate(&self, p: &Pkt) -> Option<Result<Pkt, String>>;
    fn digest(&self) -> u128;
    fn dump(&self) -> String;
    /// A new object given exactly this object's export (stored packets, then handled ids),
    /// after applying the option calls `opts`.  `order` & 1: handled ids first; & 2: options last.
    fn respawn(&self, opts: &[Call], order: u8) -> Box<dyn Conn>;
    fn spec(&self) -> Spec;
    /// one `recv` call on a cursor over `b` positioned at `at`; the new position is returned
    fn recv_at(&mut self, b: &[u8], at: usize) -> (Vec<Ev>, usize);
    /// `checked_send` with the concrete packet type; None: the type is not accepted for the role.
    fn checked(&mut self, p: &Pkt) -> Option<Ret>;
    /// `checked_send` with the packet wrapped in the generic enum
    fn checked_generic(&mut self, p: &Pkt) -> Ret;
}
impl Clone for Box<dyn Conn> {
    fn clone(&self) -> Self {
        self.clone_box()
    }
}

#[cfg(feature = "hook")]
pub struct W<R: RoleType, P: Pid + IntoPacketId<P>> {
    c: GenericConnection<R, P>,
    spec: Spec,
}
#[cfg(not(feature = "hook"))]
pub struct W<R: RoleType, P: Pid + IntoPacketId<P>> {
    c: GenericConnection<R, P>,
    spec: Spec,
    hist: Option<std::sync::Arc<Hist>>,
}
// SAFETY: P is u16 or u32, whose `Buffer` is a plain byte array; everything else in the connection
// is owned data or atomically reference-counted.
unsafe impl<R: RoleType, P: Pid + IntoPacketId<P>> Send for W<R, P> {}
unsafe impl<R: RoleType, P: Pid + IntoPacketId<P>> Sync for W<R, P> {}
#[cfg(not(feature = "hook"))]
pub struct Hist {
    prev: Option<std::sync::Arc<Hist>>,
    call: Call,
    /// made through `checked_send`: 1 with the packet's own type, 2 with `GenericPacket`
    checked: u8,
}
// (a recursive drop of a history of a hundred thousand calls would exhaust the stack)
#[cfg(not(feature = "hook"))]
impl Drop for Hist {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(a) = p {
            p = match std::sync::Arc::try_unwrap(a) {
                Ok(mut h) => h.prev.take(),
                Err(_) => None,
            };
        }
    }
}

fn lver(v: Option<Ver>) -> Version {
    match v {
        None => Version::Undetermined,
        Some(Ver::V3) => Version::V3_1_1,
        Some(Ver::V5) => Version::V5_0,
    }
}

pub fn make(s: Spec) -> Box<dyn Conn> {
    match (s.role, s.idw) {
        (RoleK::Client, 2) => Box::new(W::<Client, u16>::new(s)),
        (RoleK::Server, 2) => Box::new(W::<Server, u16>::new(s)),
        (RoleK::Any, 2) => Box::new(W::<Any, u16>::new(s)),
        (RoleK::Client, _) => Box::new(W::<Client, u32>::new(s)),
        (RoleK::Server, _) => Box::new(W::<Server, u32>::new(s)),
        (RoleK::Any, _) => Box::new(W::<Any, u32>::new(s)),
    }
}

fn tk(k: TimerKind) -> u8 {
    match k {
        TimerKind::PingreqSend => PINGREQ_SEND,
        TimerKind::PingreqRecv => PINGREQ_RECV,
        TimerKind::PingrespRecv => PINGRESP_RECV,
    }
}
fn ktl(k: u8) -> TimerKind {
    match k {
        PINGREQ_SEND => TimerKind::PingreqSend,
        PINGREQ_RECV => TimerKind::PingreqRecv,
        _ => TimerKind::PingrespRecv,
    }
}

pub fn ver_of<P: Pid>(g: &GenericPacket<P>) -> Ver {
    match g.protocol_version() {
        Version::V3_1_1 => Ver::V3,
        _ => Ver::V5,
    }
}

pub fn conv_send<P: Pid + IntoPacketId<P>>(g: &GenericPacket<P>, rel: Option<u32>) -> SendEv {
    let bytes = g.to_continuous_buffer();
    let v = ver_of(g);
    let size = g.size();
    let mut bad = None;
    if size != bytes.len() {
        bad = Some(format!("size() {} != encoded length {}", size, bytes.len()));
    }
    match decode(&bytes, v, P::W) {
        Ok(p) => SendEv { p, size: bytes.len(), raw: bytes, rel, bad },
        Err(e) => SendEv { p: from_lib(g), size: bytes.len(), raw: bytes, rel, bad: Some(e.to_string()) },
    }
}

pub fn conv<P: Pid + IntoPacketId<P>>(e: &GenericEvent<P>) -> Ev {
    match e {
        GenericEvent::NotifyPacketReceived(p) => Ev::Recv(from_lib(p)),
        GenericEvent::RequestSendPacket { packet, release_packet_id_if_send_error } => {
            Ev::Send(conv_send(packet, release_packet_id_if_send_error.map(|x| x.to_u32x())))
        }
        GenericEvent::NotifyPacketIdReleased(i) => Ev::Released(i.to_u32x()),
        GenericEvent::RequestTimerReset { kind, duration_ms } => Ev::Set(tk(*kind), *duration_ms),
        GenericEvent::RequestTimerCancel(k) => Ev::Cancel(tk(*k)),
        GenericEvent::NotifyError(e) => Ev::Err(format!("{e:?}")),
        GenericEvent::RequestClose => Ev::Close,
    }
}

/// The event list; identifiers released next to each other are listed in ascending order, because
/// the library releases sets of identifiers and no property fixes the order inside such a set.
fn convs<P: Pid + IntoPacketId<P>>(v: &[GenericEvent<P>]) -> Vec<Ev> {
    let mut o: Vec<Ev> = v.iter().map(conv).collect();
    let mut i = 0;
    while i < o.len() {
        let n = o[i..].iter().take_while(|e| matches!(e, Ev::Released(_))).count();
        o[i..i + n].sort_by_key(|e| if let Ev::Released(x) = e { *x } else { 0 });
        i += n.max(1);
    }
    o
}

pub fn build<P: Pid + IntoPacketId<P>>(p: &Pkt) -> GenericPacket<P> {
    match to_lib::<P>(p) {
        Ok(g) => g,
        Err(e) => {
            eprintln!("harness: the crate's builder refused {} : {e:?}", short(p));
            std::process::exit(4)
        }
    }
}
fn to_store<P: Pid + IntoPacketId<P>>(p: &Pkt) -> GenericStorePacket<P> {
    match build::<P>(p) {
        GenericPacket::V3_1_1Publish(x) => GenericStorePacket::V3_1_1Publish(x),
        GenericPacket::V5_0Publish(x) => GenericStorePacket::V5_0Publish(x),
        GenericPacket::V3_1_1Pubrel(x) => GenericStorePacket::V3_1_1Pubrel(x),
        GenericPacket::V5_0Pubrel(x) => GenericStorePacket::V5_0Pubrel(x),
        _ => panic!("harness: not storable"),
    }
}
fn from_store<P: Pid + IntoPacketId<P>>(s: &GenericStorePacket<P>) -> Pkt {
    let g: GenericPacket<P> = s.clone().into();
    from_lib(&g)
}

impl<R: RoleType + MaybeClone, P: Pid + IntoPacketId<P>> W<R, P> {
    pub fn new(spec: Spec) -> Self {
        W {
            c: GenericConnection::new(lver(spec.ver)),
            spec,
            #[cfg(not(feature = "hook"))]
            hist: None,
        }
    }
    #[cfg(not(feature = "hook"))]
    fn note(&mut self, c: &Call, checked: u8) {
        self.hist = Some(std::sync::Arc::new(Hist { prev: self.hist.take(), call: c.clone(), checked }));
    }
    fn evs(v: Vec<GenericEvent<P>>) -> Ret {
        Ret { lists: vec![convs(&v)], ..Ret::default() }
    }
    fn do_call(&mut self, c: &Call) -> Ret {
        match c {
            Call::Send(p) => Self::evs(self.c.send(build::<P>(p))),
            Call::RecvP(p) => self.feed(&p.enc()),
            Call::RecvB(b) => self.feed(b),
            Call::Timer(k) => Self::evs(self.c.notify_timer_fired(ktl(*k))),
            Call::Closed => Self::evs(self.c.notify_closed()),
            Call::PingInterval(x) => Self::evs(self.c.set_pingreq_send_interval(*x)),
            Call::PingrespTo(x) => {
                self.c.set_pingresp_recv_timeout(*x);
                Ret::default()
            }
            Call::Offline(x) => {
                self.c.set_offline_publish(*x);
                Ret::default()
            }
            Call::AutoPub(x) => {
                self.c.set_auto_pub_response(*x);
                Ret::default()
            }
            Call::AutoPing(x) => {
                self.c.set_auto_ping_response(*x);
                Ret::default()
            }
            Call::AutoMap(x) => {
                self.c.set_auto_map_topic_alias_send(*x);
                Ret::default()
            }
            Call::AutoReplace(x) => {
                self.c.set_auto_replace_topic_alias_send(*x);
                Ret::default()
            }
            Call::Acquire => Ret { id: Some(self.c.acquire_packet_id().map(|x| x.to_u32x()).map_err(|e| format!("{e:?}"))), ..Ret::default() },
            Call::Register(x) => {
                Ret { id: Some(self.c.register_packet_id(P::from_u32x(*x)).map(|_| *x).map_err(|e| format!("{e:?}"))), ..Ret::default() }
            }
            Call::Release(x) => Self::evs(self.c.release_packet_id(P::from_u32x(*x))),
            Call::Erase(x) => Self::evs(self.c.erase_stored_publish(P::from_u32x(*x))),
            Call::Restore(ps) => {
                self.c.restore_packets(ps.iter().map(to_store::<P>).collect());
                Ret::default()
            }
            Call::RestoreHandled(ids) => {
                let mut s = LibSet::default();
                for i in ids {
                    s.insert(P::from_u32x(*i));
                }
                self.c.restore_qos2_publish_handled(s);
                Ret::default()
            }
        }
    }
    fn feed(&mut self, b: &[u8]) -> Ret {
        let mut cur = Cursor::new(b);
        let mut r = Ret::default();
        let n = b.len() as u64;
        let mut iters = 0usize;
        loop {
            let p0 = cur.position();
            let ev = self.c.recv(&mut cur);
            let p1 = cur.position();
            let empty = ev.is_empty();
            r.lists.push(convs(&ev));
            r.used.push((p1.saturating_sub(p0)) as usize);
            if p1 < p0 || p1 > n {
                r.stall = Some(format!("cursor moved from {p0} to {p1} of {n}"));
                break;
            }
            if p1 == n {
                break;
            }
            if p1 == p0 && empty {
                r.stall = Some(format!("recv consumed nothing at offset {p0} of {n} and reported nothing"));
                break;
            }
            iters += 1;
            if iters > b.len() + 4 {
                r.stall = Some("recv does not make progress".into());
                break;
            }
        }
        r
    }
}

/// Clone bound that is only needed with the hook.
#[cfg(feature = "hook")]
pub trait MaybeClone: Clone + std::fmt::Debug {}
#[cfg(feature = "hook")]
impl<T: Clone + std::fmt::Debug> MaybeClone for T {}
#[cfg(not(feature = "hook"))]
pub trait MaybeClone {}
#[cfg(not(feature = "hook"))]
impl<T> MaybeClone for T {}

/// Compile-time question "does `T: Sendable<Role, Id>` hold", answered by autoref specialization.
struct Tag<R, P, T>(std::marker::PhantomData<(R, P, T)>);
trait Allowed<R: RoleType, P: Pid + IntoPacketId<P>, T> {
    fn try_send(&self, c: &mut GenericConnection<R, P>, t: T) -> Option<Vec<GenericEvent<P>>>;
}
impl<R: RoleType, P: Pid + IntoPacketId<P>, T: Sendable<R, P>> Allowed<R, P, T> for Tag<R, P, T> {
    fn try_send(&self, c: &mut GenericConnection<R, P>, t: T) -> Option<Vec<GenericEvent<P>>> {
        Some(c.checked_send(t))
    }
}
trait NotAllowed<R: RoleType, P: Pid + IntoPacketId<P>, T> {
    fn try_send(&self, _c: &mut GenericConnection<R, P>, _t: T) -> Option<Vec<GenericEvent<P>>> {
        None
    }
}
impl<R: RoleType, P: Pid + IntoPacketId<P>, T> NotAllowed<R, P, T> for &Tag<R, P, T> {}

pub trait CheckedSend<P: Pid + IntoPacketId<P>> {
    fn checked_concrete(&mut self, g: GenericPacket<P>) -> Option<Vec<GenericEvent<P>>>;
    fn checked_generic(&mut self, g: GenericPacket<P>) -> Vec<GenericEvent<P>>;
}
macro_rules! checked_impl {
    ($($r:ty, $p:ty);*) => { $(
        impl CheckedSend<$p> for GenericConnection<$r, $p> {
            fn checked_concrete(&mut self, g: GenericPacket<$p>) -> Option<Vec<GenericEvent<$p>>> {
                checked_impl!(@m self, g, $r, $p,
                    V3_1_1Connect V3_1_1Connack V3_1_1Publish V3_1_1Puback V3_1_1Pubrec V3_1_1Pubrel V3_1_1Pubcomp V3_1_1Subscribe
                    V3_1_1Suback V3_1_1Unsubscribe V3_1_1Unsuback V3_1_1Pingreq V3_1_1Pingresp V3_1_1Disconnect
                    V5_0Connect V5_0Connack V5_0Publish V5_0Puback V5_0Pubrec V5_0Pubrel V5_0Pubcomp V5_0Subscribe
                    V5_0Suback V5_0Unsubscribe V5_0Unsuback V5_0Pingreq V5_0Pingresp V5_0Disconnect V5_0Auth)
            }
            fn checked_generic(&mut self, g: GenericPacket<$p>) -> Vec<GenericEvent<$p>> {
                self.checked_send(g)
            }
        }
    )* };
    (@m $s:ident, $g:ident, $r:ty, $p:ty, $($v:ident)*) => {
        match $g {
            $(GenericPacket::$v(x) => {
                macro_rules! tag { ($y:expr) => { tag_of::<$r, $p, _>(&$y) } }
                let t = tag!(x);
                // the concrete type of `x` is known here, so method lookup decides at compile time
                (&t).try_send($s, x)
            })*
        }
    };
}
fn tag_of<R, P, T>(_: &T) -> Tag<R, P, T> {
    Tag(std::marker::PhantomData)
}
checked_impl!(Client, u16; Client, u32; Server, u16; Server, u32; Any, u16; Any, u32);

impl<R: RoleType + MaybeClone, P: Pid + IntoPacketId<P>> Conn for W<R, P>
where
    GenericConnection<R, P>: CheckedSend<P>,
{
    fn checked(&mut self, p: &Pkt) -> Option<Ret> {
        #[cfg(not(feature = "hook"))]
        self.note(&Call::Send(p.clone()), 1);
        self.c.checked_concrete(build::<P>(p)).map(Self::evs)
    }
    fn recv_at(&mut self, b: &[u8], at: usize) -> (Vec<Ev>, usize) {
        let mut cur = Cursor::new(b);
        cur.set_position(at as u64);
        let ev = self.c.recv(&mut cur);
        // (clones replay whole calls: what this one consumed)
        #[cfg(not(feature = "hook"))]
        self.note(&Call::RecvB(b[at.min(b.len())..(cur.position() as usize).clamp(at.min(b.len()), b.len())].to_vec()), 0);
        (convs(&ev), cur.position() as usize)
    }
    fn checked_generic(&mut self, p: &Pkt) -> Ret {
        #[cfg(not(feature = "hook"))]
        self.note(&Call::Send(p.clone()), 2);
        Self::evs(self.c.checked_generic(build::<P>(p)))
    }
    #[cfg(feature = "hook")]
    fn clone_box(&self) -> Box<dyn Conn> {
        Box::new(W::<R, P> { c: self.c.clone(), spec: self.spec })
    }
    #[cfg(not(feature = "hook"))]
    fn clone_box(&self) -> Box<dyn Conn> {
        let mut calls = vec![];
        let mut h = self.hist.as_deref();
        while let Some(n) = h {
            calls.push(n);
            h = n.prev.as_deref();
        }
        let mut w = W::<R, P>::new(self.spec);
        for h in calls.into_iter().rev() {
            match (h.checked, &h.call) {
                (1, Call::Send(p)) => {
                    w.c.checked_concrete(build::<P>(p));
                }
                (2, Call::Send(p)) => {
                    w.c.checked_generic(build::<P>(p));
                }
                (_, c) => {
                    w.do_call(c);
                }
            }
        }
        w.hist = self.hist.clone();
        Box::new(w)
    }
    fn call(&mut self, c: &Call) -> Ret {
        #[cfg(not(feature = "hook"))]
        self.note(c, 0);
        self.do_call(c)
    }
    fn stored(&self) -> Vec<Pkt> {
        self.c.get_stored_packets().iter().map(from_store::<P>).collect()
    }
    fn handled(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.c.get_qos2_publish_handled().into_iter().map(|x| x.to_u32x()).collect();
        v.sort();
        v
    }
    fn vacancy(&self) -> Option<u16> {
        self.c.get_receive_maximum_vacancy_for_send()
    }
    fn version(&self) -> Option<Ver> {
        match self.c.get_protocol_version() {
            Version::V3_1_1 => Some(Ver::V3),
            Version::V5_0 => Some(Ver::V5),
            Version::Undetermined => None,
        }
    }
    fn regulate(&self, p: &Pkt) -> Option<Result<Pkt, String>> {
        match build::<P>(p) {
            GenericPacket::V5_0Publish(x) => {
                Some(self.c.regulate_for_store(x).map(|y| from_lib(&GenericPacket::V5_0Publish(y))).map_err(|e| format!("{e:?}")))
            }
            _ => None,
        }
    }
    #[cfg(feature = "hook")]
    fn digest(&self) -> u128 {
        let s = format!("{:?}", self.c);
        let c = canon(s.as_bytes());
        h128(&(c, self.stored()))
    }
    #[cfg(not(feature = "hook"))]
    fn digest(&self) -> u128 {
        h128(&(self.stored(), self.handled(), self.vacancy(), self.version()))
    }
    #[cfg(feature = "hook")]
    fn dump(&self) -> String {
        String::from_utf8_lossy(&canon(format!("{:?}", self.c).as_bytes())).into_owned()
    }
    #[cfg(not(feature = "hook"))]
    fn dump(&self) -> String {
        format!("{:?} {:?} {:?} {:?}", self.stored(), self.handled(), self.vacancy(), self.version())
    }
    fn respawn(&self, opts: &[Call], order: u8) -> Box<dyn Conn> {
        let mut w = W::<R, P>::new(self.spec);
        if order & 2 == 0 {
            for c in opts {
                w.call(c);
            }
        }
        for step in [order & 1, 1 - (order & 1)] {
            #[cfg(feature = "hook")]
            if step == 0 {
                w.c.restore_packets(self.c.get_stored_packets());
            } else {
                w.c.restore_qos2_publish_handled(self.c.get_qos2_publish_handled());
            }
            #[cfg(not(feature = "hook"))]
            w.call(&if step == 0 { Call::Restore(self.stored()) } else { Call::RestoreHandled(self.handled()) });
        }
        if order & 2 != 0 {
            for c in opts {
                w.call(c);
            }
        }
        Box::new(w)
    }
    fn spec(&self) -> Spec {
        self.spec
    }
}

/// Canonical form of a `{:?}` rendering: elements of sets and maps are sorted (hash iteration
/// order is not state), except for the insertion-ordered maps.
#[cfg_attr(not(feature = "hook"), allow(dead_code))]
pub fn canon(s: &[u8]) -> Vec<u8> {
    struct Fr {
        sort: bool,
        done: Vec<Vec<u8>>,
        cur: Vec<u8>,
        close: u8,
    }
    let mut st: Vec<Fr> = vec![Fr { sort: false, done: vec![], cur: Vec::with_capacity(s.len()), close: 0 }];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        match c {
            b'"' => {
                let f = st.last_mut().unwrap();
                f.cur.push(c);
                i += 1;
                while i < s.len() {
                    f.cur.push(s[i]);
                    if s[i] == b'\\' && i + 1 < s.len() {
                        i += 1;
                        f.cur.push(s[i]);
                    } else if s[i] == b'"' {
                        break;
                    }
                    i += 1;
                }
            }
            b'{' | b'[' | b'(' => {
                let sort = if c == b'{' {
                    let t = &st.last().unwrap().cur;
                    let mut k = t.len();
                    while k > 0 && t[k - 1] == b' ' {
                        k -= 1;
                    }
                    let is_struct = k > 0 && k < t.len() && (t[k - 1].is_ascii_alphanumeric() || t[k - 1] == b'_' || t[k - 1] == b'>');
                    !is_struct && !t.ends_with(b" map: ") && !t.ends_with(b"alias_to_topic: ")
                } else {
                    false
                };
                st.push(Fr { sort, done: vec![], cur: vec![], close: if c == b'{' { b'}' } else if c == b'[' { b']' } else { b')' } });
                st.last_mut().unwrap().cur.reserve(32);
                let _ = c;
            }
            b'}' | b']' | b')' if st.len() > 1 => {
                let mut f = st.pop().unwrap();
                f.done.push(std::mem::take(&mut f.cur));
                if f.sort {
                    for d in f.done.iter_mut() {
                        while d.first() == Some(&b' ') {
                            d.remove(0);
                        }
                    }
                    f.done.sort();
                }
                let o = &mut st.last_mut().unwrap().cur;
                o.push(match f.close {
                    b'}' => b'{',
                    b']' => b'[',
                    _ => b'(',
                });
                for (n, d) in f.done.iter().enumerate() {
                    if n > 0 {
                        o.push(b',');
                    }
                    o.extend_from_slice(d);
                }
                o.push(c);
            }
            b',' if st.last().unwrap().sort => {
                let f = st.last_mut().unwrap();
                let x = std::mem::take(&mut f.cur);
                f.done.push(x);
            }
            _ => st.last_mut().unwrap().cur.push(c),
        }
        i += 1;
    }
    let mut o = vec![];
    for f in st {
        o.extend_from_slice(&f.cur);
    }
    o
}

