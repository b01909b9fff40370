//! C01: two real endpoints joined by two in-order byte channels.  Every interleaving of local
//! operations, deliveries (whole packets and every proper prefix), losses noticed by the two sides
//! at different times, reconnects and delayed manual responses is explored within the budgets of a
//! configuration; from every reached state the exchange is then run to quiescence and judged.
use crate::conn::*;
use crate::explore::*;
use crate::refcodec::*;
use crate::sys::*;
use crate::world::*;
use std::collections::VecDeque;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    /// publish with this QoS
    P(u8),
    Sub,
    Unsub,
}
#[derive(Clone)]
pub struct Cfg01 {
    pub label: String,
    pub ver: Ver,
    pub idw: u8,
    pub roles: [RoleK; 2],
    /// the server is created without a version
    pub undet: bool,
    pub auto: [bool; 2],
    pub ping_auto: bool,
    pub map: [bool; 2],
    /// limits announced by client and server
    pub lim: [Vec<Prop>; 2],
    pub script: [Vec<Op>; 2],
    pub clean: bool,
    pub losses: u8,
    pub splits: u8,
    pub pings: u8,
    pub discs: u8,
    /// publish also while the transport is down
    pub offline: bool,
    pub topics: Vec<&'static str>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Msg {
    from: usize,
    qos: u8,
    topic: String,
    payload: Vec<u8>,
    seen: u8,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum A1 {
    Connect,
    Deliver(usize),
    /// deliver only this many bytes of the packet at the head
    Split(usize, usize),
    Next(usize),
    Respond(usize, Call),
    /// the side notices that the transport is gone
    Close(usize),
    Ping,
    Disconnect,
}
const SIDE: [&str; 2] = ["client", "server"];
impl std::fmt::Debug for A1 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            A1::Connect => write!(f, "client opens a transport and sends CONNECT"),
            A1::Deliver(i) => write!(f, "{} receives the next packet", SIDE[1 - i]),
            A1::Split(i, k) => write!(f, "{} receives {k} bytes of the next packet", SIDE[1 - i]),
            A1::Next(i) => write!(f, "{} application performs its next operation", SIDE[*i]),
            A1::Respond(i, c) => write!(f, "{} application responds: {c:?}", SIDE[*i]),
            A1::Close(i) => write!(f, "{} is told that the transport is closed", SIDE[*i]),
            A1::Ping => write!(f, "the client's PINGREQ timer fires"),
            A1::Disconnect => write!(f, "client application sends DISCONNECT"),
        }
    }
}
#[derive(Clone)]
pub struct S1 {
    e: [World; 2],
    /// ch[i]: packets from side i on their way to the other side
    ch: [VecDeque<Vec<u8>>; 2],
    up: [bool; 2],
    pos: [usize; 2],
    msgs: Vec<Msg>,
    losses: u8,
    splits: u8,
    pings: u8,
    discs: u8,
    /// an exchange was cut by a loss at some point
    lost: bool,
    /// both sides have completed a handshake
    established: bool,
    /// head of ch[i] is the rest of a packet
    partial: [bool; 2],
    /// deliberately shut down (DISCONNECT) transport
    shut: bool,
    /// what each application owes for the packets it was notified of, if it responds itself
    todo: [std::collections::BTreeSet<(u8, u32)>; 2],
}
pub struct M1 {
    pub c: Cfg01,
}

impl M1 {
    fn bad(sig: &str, m: String) -> Bad {
        Bad::new(format!("C01/{sig}"), m)
    }
    fn connect(&self) -> Pkt {
        let v = self.c.ver;
        let mut p = self.c.lim[0].clone();
        if v == Ver::V5 && !self.c.clean {
            p.insert(0, sei(100));
        }
        set_w(&connect(v, self.c.clean, 10, p), self.c.idw)
    }
    /// run one call on a side and do what its application has to do at once
    fn exec(&self, s: &mut S1, i: usize, call: Call) -> Result<Ret, Bad> {
        let mut q: VecDeque<Call> = VecDeque::from([call]);
        let mut first: Option<Ret> = None;
        while let Some(c) = q.pop_front() {
            let mut bads = vec![];
            match &c {
                Call::Closed => s.todo[i].clear(),
                Call::Send(p) => {
                    s.todo[i].remove(&(p.ptype(), p.id().unwrap_or(0)));
                }
                _ => {}
            }
            let r = s.e[i].exec(c.clone(), &mut bads);
            if let Some(b) = pick("C01", bads) {
                return Err(b);
            }
            for ev in r.all() {
                match ev {
                    Ev::Send(x) => {
                        if let Some(b) = &x.bad {
                            return Err(Self::bad("undecodable", format!("{} requests bytes that are no MQTT packet: {b}", SIDE[i])));
                        }
                        if s.up[i] && s.up[1 - i] {
                            s.ch[i].push_back(x.raw.clone());
                        }
                        if x.p.ptype() == DISCONNECT {
                            s.shut = true;
                        }
                    }
                    Ev::Recv(p) if !self.c.auto[i] && matches!(p.ptype(), PUBREC | PUBREL) => {
                        if code_of(p) < 0x80 {
                            s.todo[i].insert((if p.ptype() == PUBREC { PUBREL } else { PUBCOMP }, p.id().unwrap_or(0)));
                        }
                    }
                    Ev::Recv(p) => match p.ptype() {
                        CONNECT => {
                            let sp = s.e[i].sh.conns > 1 && !self.c.clean;
                            let k = connack(self.c.ver, sp, 0, self.c.lim[1].clone());
                            q.push_back(Call::Send(set_w(&k, self.c.idw)));
                        }
                        CONNACK => {
                            s.established = true;
                        }
                        PUBLISH => {
                            let Body::Publish { topic, payload, qos, .. } = &p.b else { unreachable!() };
                            let lost = s.lost;
                            match s.msgs.iter_mut().find(|m| m.from != i && m.payload == *payload) {
                                None => return Err(Self::bad("unknown-message", format!("{} is notified of {} that nobody published", SIDE[i], short(p)))),
                                Some(m) => {
                                    m.seen = m.seen.saturating_add(1);
                                    if m.topic != *topic || m.qos != *qos {
                                        return Err(Self::bad("altered", format!("{} is notified of {}, published was q{} topic={:?}", SIDE[i], short(p), m.qos, m.topic)));
                                    }
                                    if m.seen > 1 && (m.qos != 1 || !lost) {
                                        return Err(Self::bad("duplicate", format!("{} is notified {} times of the QoS {} message {:?}", SIDE[i], m.seen, m.qos, String::from_utf8_lossy(&m.payload))));
                                    }
                                    m.seen = m.seen.min(2);
                                }
                            }
                            if !self.c.auto[i] && *qos > 0 {
                                s.todo[i].insert((if *qos == 1 { PUBACK } else { PUBREC }, p.id().unwrap_or(0)));
                            }
                        }
                        SUBSCRIBE => {
                            let b = Body::Suback { id: p.id().unwrap_or(0), props: vec![], codes: vec![1] };
                            q.push_back(Call::Send(Pkt { ver: p.ver, idw: p.idw, b }));
                        }
                        UNSUBSCRIBE => {
                            let b = Body::Unsuback { id: p.id().unwrap_or(0), props: vec![], codes: if p.ver == Ver::V5 { vec![0] } else { vec![] } };
                            q.push_back(Call::Send(Pkt { ver: p.ver, idw: p.idw, b }));
                        }
                        PINGREQ if !self.c.ping_auto => q.push_back(Call::Send(Pkt { ver: p.ver, idw: p.idw, b: Body::Pingresp })),
                        _ => {}
                    },
                    Ev::Err(e) => {
                        // a local operation may be refused; what the peer sent may not be faulted
                        if matches!(c, Call::RecvB(_) | Call::Timer(_) | Call::Closed) {
                            return Err(Self::bad("protocol-error", format!("{} reports {e} on {c:?}", SIDE[i])));
                        }
                    }
                    Ev::Close => {
                        if !s.shut {
                            return Err(Self::bad("closes", format!("{} requests to close the transport on {c:?}", SIDE[i])));
                        }
                    }
                    _ => {}
                }
            }
            first.get_or_insert(r);
        }
        Ok(first.unwrap_or_default())
    }
    fn live(&self, s: &S1, i: usize) -> bool {
        let h = &s.e[i].sh;
        s.up[i] && h.st == St::Connected && !h.closing && !h.peer_disc
    }
    fn rm_of_peer(&self, i: usize) -> usize {
        self.c.lim[1 - i].iter().find_map(|p| if let (0x21, PV::U16(x)) = (p.id, &p.v) { Some(*x as usize) } else { None }).unwrap_or(65535)
    }
    fn can_next(&self, s: &S1, i: usize) -> bool {
        let Some(op) = self.c.script[i].get(s.pos[i]) else { return false };
        let live = self.live(s, i);
        match op {
            Op::P(0) | Op::Sub | Op::Unsub => live,
            Op::P(_) => {
                let down = self.c.offline && s.established && !self.c.clean && !s.e[i].sh.closing && !s.e[i].sh.peer_disc;
                (live || down) && s.e[i].sh.n_incomplete() < self.rm_of_peer(i)
            }
        }
    }
    fn next(&self, s: &mut S1, i: usize) -> Result<bool, Bad> {
        let op = self.c.script[i][s.pos[i]];
        s.pos[i] += 1;
        self.perform(s, i, op)
    }
    fn perform(&self, s: &mut S1, i: usize, op: Op) -> Result<bool, Bad> {
        let v = self.c.ver;
        let n = s.msgs.len();
        let mut id = None;
        if op != Op::P(0) {
            match self.exec(s, i, Call::Acquire)?.id {
                Some(Ok(x)) => id = Some(x),
                e => return Err(Self::bad("no-id", format!("{} cannot acquire a packet identifier: {e:?}", SIDE[i]))),
            }
        }
        let p = match op {
            Op::Sub => set_w(&subscribe(v), self.c.idw).with_id(id.unwrap()),
            Op::Unsub => set_w(&unsubscribe(v), self.c.idw).with_id(id.unwrap()),
            Op::P(q) => {
                let topic = self.c.topics[n % self.c.topics.len()].to_string();
                let payload = format!("{}{n}", &SIDE[i][..1]).into_bytes();
                s.msgs.push(Msg { from: i, qos: q, topic: topic.clone(), payload: payload.clone(), seen: 0 });
                let mut p = set_w(&publish(v, q, id.unwrap_or(0), &topic, vec![]), self.c.idw);
                if let Body::Publish { payload: pl, .. } = &mut p.b {
                    *pl = payload;
                }
                p
            }
        };
        let r = self.exec(s, i, Call::Send(p))?;
        if r.has_err() {
            // not accepted
            if matches!(op, Op::P(_)) {
                s.msgs.pop();
            }
            return Ok(false);
        }
        Ok(true)
    }
    /// manual responses the side owes
    fn owed(&self, s: &S1, i: usize) -> Vec<Call> {
        let h = &s.e[i].sh;
        let mut o = vec![];
        if !self.live(s, i) || self.c.auto[i] {
            return o;
        }
        for (k, x) in &s.todo[i] {
            o.push(Call::Send(ackp(h, *k, *x, None)));
        }
        o
    }
    fn close(&self, s: &mut S1, i: usize) -> Result<(), Bad> {
        self.exec(s, i, Call::Closed)?;
        s.lost = true;
        s.up[i] = false;
        // nothing reaches this side any more, and nothing it has half received survives
        s.ch[1 - i].clear();
        s.partial[1 - i] = false;
        if !s.up[1 - i] {
            s.ch[i].clear();
            s.partial[i] = false;
            s.shut = false;
        }
        Ok(())
    }
    fn open(&self, s: &mut S1) -> Result<(), Bad> {
        s.up = [true; 2];
        s.shut = false;
        let r = self.exec(s, 0, Call::Send(self.connect()))?;
        if r.has_err() {
            return Err(Self::bad("no-connect", format!("CONNECT refused: {:?}", r.errs())));
        }
        Ok(())
    }
    fn deliver(&self, s: &mut S1, i: usize) -> Result<(), Bad> {
        let b = s.ch[i].pop_front().unwrap();
        s.partial[i] = false;
        self.exec(s, 1 - i, Call::RecvB(b)).map(|_| ())
    }
    /// Deliver everything and give every owed response until nothing is left to do.
    fn drain(&self, s: &mut S1) -> Result<(), Bad> {
        let mut n = 0;
        loop {
            let mut busy = false;
            for i in 0..2 {
                if !s.ch[i].is_empty() && s.up[1 - i] {
                    self.deliver(s, i)?;
                    busy = true;
                }
                if let Some(c) = self.owed(s, i).into_iter().next() {
                    let r = self.exec(s, i, c.clone())?;
                    if r.has_err() {
                        return Err(Self::bad("response-refused", format!("{} cannot respond {c:?}: {:?}", SIDE[i], r.errs())));
                    }
                    busy = true;
                }
            }
            if !busy {
                return Ok(());
            }
            n += 1;
            if n > 400 {
                return Err(Self::bad("endless", "the two endpoints exchange packets without end".into()));
            }
        }
    }
    /// Bring the exchange to quiescence and judge it.
    fn finish(&self, s0: &S1) -> Result<u64, Bad> {
        let mut s = s0.clone();
        let broken = s.up[0] != s.up[1] || s.e.iter().any(|w| w.sh.closing || w.sh.peer_disc);
        if broken {
            self.drain_open(&mut s)?;
            for i in 0..2 {
                if s.up[i] {
                    self.close(&mut s, i)?;
                }
            }
        }
        if !s.up[0] {
            self.open(&mut s)?;
        }
        self.drain(&mut s)?;
        let o = h128(&(&s.msgs, s.lost)) as u64;
        self.quiet(&s)?;
        // the session is as good as new: one more exchange of each kind in each direction
        for (i, q) in [(0usize, 2u8), (1, 2), (0, 1), (1, 1), (0, 0), (1, 0)] {
            if !self.perform(&mut s, i, Op::P(q))? {
                return Err(Self::bad("refused-after", format!("at quiescence {} cannot publish with QoS {q}", SIDE[i])));
            }
            self.drain(&mut s)?;
            let m = s.msgs.last().unwrap();
            if m.seen != 1 {
                return Err(Self::bad("swallowed-after", format!("a QoS {q} message published by {} at quiescence was notified {} times", SIDE[i], m.seen)));
            }
        }
        self.quiet(&s)?;
        Ok(o)
    }
    /// half-open transports: whatever still arrives, arrives
    fn drain_open(&self, s: &mut S1) -> Result<(), Bad> {
        for i in 0..2 {
            let mut n = 0;
            while s.up[1 - i] && !s.ch[i].is_empty() && !s.e[1 - i].sh.closing && n < 100 {
                self.deliver(s, i)?;
                n += 1;
            }
        }
        Ok(())
    }
    fn quiet(&self, s: &S1) -> Result<(), Bad> {
        for i in 0..2 {
            let w = &s.e[i];
            if w.sh.st != St::Connected || !s.up[i] {
                return Err(Self::bad("not-connected", format!("{} is not connected after everything was delivered", SIDE[i])));
            }
            let st = w.c.stored();
            if !st.is_empty() {
                return Err(Self::bad("store-left", format!("at quiescence {} still stores [{}]", SIDE[i], st.iter().map(short).collect::<Vec<_>>().join("; "))));
            }
            let mut c = w.c.clone();
            for id in 1..=(self.c.script[i].len() as u32 + 3) {
                let r = guarded(|| c.call(&Call::Register(id))).map_err(|e| Self::bad("panic", e))?;
                if !matches!(r.id, Some(Ok(_))) {
                    return Err(Self::bad("id-left", format!("at quiescence {} still holds packet identifier {id}", SIDE[i])));
                }
            }
            if self.c.ver == Ver::V5 {
                let rm = self.rm_of_peer(i);
                let want = if rm == 65535 { None } else { Some(rm as u16) };
                let got = w.c.vacancy();
                if got != want && !(want.is_none() && got == Some(65535)) {
                    return Err(Self::bad("vacancy-left", format!("at quiescence {} has vacancy {got:?} of {want:?}", SIDE[i])));
                }
            }
        }
        for m in &s.msgs {
            let ok = match m.qos {
                0 => m.seen <= 1 && (s.lost || m.seen == 1),
                1 => m.seen >= 1 && (s.lost || m.seen == 1),
                _ => m.seen == 1,
            };
            if !ok {
                return Err(Self::bad(
                    if m.seen == 0 { "undelivered" } else { "duplicate" },
                    format!("at quiescence the QoS {} message {:?} of the {} was notified {} times (transport lost: {})", m.qos, String::from_utf8_lossy(&m.payload), SIDE[m.from], m.seen, s.lost),
                ));
            }
        }
        Ok(())
    }
    fn apply(&self, s: &mut S1, a: &A1) -> Result<bool, Bad> {
        match a {
            A1::Connect => self.open(s)?,
            A1::Deliver(i) => self.deliver(s, *i)?,
            A1::Split(i, k) => {
                let mut b = s.ch[*i].pop_front().unwrap();
                let rest = b.split_off(*k);
                s.ch[*i].push_front(rest);
                s.partial[*i] = true;
                s.splits += 1;
                self.exec(s, 1 - *i, Call::RecvB(b))?;
            }
            A1::Next(i) => return self.next(s, *i),
            A1::Respond(i, c) => {
                let r = self.exec(s, *i, c.clone())?;
                if r.has_err() {
                    return Err(Self::bad("response-refused", format!("{} cannot respond {c:?}: {:?}", SIDE[*i], r.errs())));
                }
            }
            A1::Close(i) => {
                if !s.shut && s.up == [true, true] {
                    s.losses += 1;
                }
                self.close(s, *i)?;
            }
            A1::Ping => {
                s.pings += 1;
                self.exec(s, 0, Call::Timer(PINGREQ_SEND))?;
            }
            A1::Disconnect => {
                s.discs += 1;
                s.shut = true;
                self.exec(s, 0, Call::Send(set_w(&disconnect(self.c.ver, None), self.c.idw)))?;
            }
        }
        Ok(true)
    }
}

impl Model for M1 {
    type S = S1;
    type A = A1;
    fn name(&self) -> String {
        format!("C01:{}", self.c.label)
    }
    fn init(&self) -> S1 {
        let c = &self.c;
        let mk = |i: usize| {
            let ver = if i == 1 && c.undet { None } else { Some(c.ver) };
            let mut w = World::new(Spec { role: c.roles[i], ver, idw: c.idw });
            let mut b = vec![];
            let mut o = vec![Call::AutoPub(c.auto[i]), Call::AutoPing(c.ping_auto), Call::AutoMap(c.map[i]), Call::Offline(c.offline)];
            if i == 0 {
                o.push(Call::PingrespTo(700));
            }
            for x in o {
                w.exec(x, &mut b);
            }
            w
        };
        S1 {
            e: [mk(0), mk(1)],
            ch: [VecDeque::new(), VecDeque::new()],
            up: [false; 2],
            pos: [0; 2],
            msgs: vec![],
            losses: 0,
            splits: 0,
            pings: 0,
            discs: 0,
            lost: false,
            established: false,
            partial: [false; 2],
            shut: false,
            todo: Default::default(),
        }
    }
    fn actions(&self, s: &S1) -> Vec<A1> {
        let mut o = vec![];
        if s.up == [false, false] {
            o.push(A1::Connect);
        }
        for i in 0..2 {
            if let (Some(h), true) = (s.ch[i].front(), s.up[1 - i]) {
                let w = &s.e[1 - i].sh;
                if !w.closing && !w.peer_disc {
                    o.push(A1::Deliver(i));
                    if s.splits < self.c.splits {
                        for k in 1..h.len() {
                            o.push(A1::Split(i, k));
                        }
                    }
                }
            }
            if self.can_next(s, i) {
                o.push(A1::Next(i));
            }
            for c in self.owed(s, i) {
                o.push(A1::Respond(i, c));
            }
            if s.up[i] && (s.losses < self.c.losses || !s.up[1 - i] || s.shut) {
                o.push(A1::Close(i));
            }
        }
        if self.live(s, 0) {
            if s.pings < self.c.pings && s.e[0].sh.armed[0].is_some() {
                o.push(A1::Ping);
            }
            if s.discs < self.c.discs {
                o.push(A1::Disconnect);
            }
        }
        o
    }
    fn step(&self, s: &S1, a: &A1) -> Out<S1> {
        let mut n = s.clone();
        match self.apply(&mut n, a) {
            Ok(true) => Out::Next(n),
            Ok(false) => Out::Prune,
            Err(mut b) => {
                b.msg = format!("{}\n{}{}", b.msg, listing(&n.e[0].last), listing(&n.e[1].last));
                Out::Bad(b)
            }
        }
    }
    fn key(&self, s: &S1) -> u128 {
        h128(&(
            (s.e[0].key(), s.e[1].key(), &s.ch, s.up, s.pos, &s.msgs),
            (s.losses, s.splits, s.pings, s.discs, s.lost, s.established, s.partial, s.shut, &s.todo),
        ))
    }
    fn outcome(&self, s: &S1) -> u64 {
        h128(&(&s.msgs, s.up, s.lost)) as u64
    }
    fn explain(&self, s: &S1) -> String {
        let mut o = String::new();
        for i in 0..2 {
            for l in listing(&s.e[i].last).lines() {
                o.push_str(&format!("{}: {l}\n", SIDE[i]));
            }
        }
        o
    }
    fn has_leaf(&self) -> bool {
        true
    }
    fn leaf(&self, s: &S1, _d: usize, k: &mut Leaf) {
        k.cases += 1;
        match self.finish(s) {
            Ok(o) => {
                k.outs.insert(o);
            }
            Err(mut b) => {
                b.msg = format!("when the exchange is run to quiescence from here: {}", b.msg);
                k.bad(b);
            }
        }
    }
}

fn base(ver: Ver) -> Cfg01 {
    Cfg01 {
        label: String::new(),
        ver,
        idw: 2,
        roles: [RoleK::Client, RoleK::Server],
        undet: false,
        auto: [true, true],
        ping_auto: true,
        map: [false, false],
        lim: [vec![], vec![]],
        script: [vec![], vec![]],
        clean: false,
        losses: 1,
        splits: 0,
        pings: 0,
        discs: 0,
        offline: false,
        topics: vec!["t", "u", "t"],
    }
}
fn sname(s: &[Vec<Op>; 2]) -> String {
    let f = |v: &Vec<Op>| {
        v.iter()
            .map(|o| match o {
                Op::P(q) => format!("{q}"),
                Op::Sub => "S".into(),
                Op::Unsub => "U".into(),
            })
            .collect::<String>()
    };
    format!("{}/{}", f(&s[0]), f(&s[1]))
}
fn cfgs(quick: bool) -> Vec<Cfg01> {
    let mut o: Vec<Cfg01> = vec![];
    let mut add = |c: Cfg01, n: &str| {
        let mut c = c;
        c.label = format!(
            "{} {n} ops={} auto={}{} losses={} splits={}",
            if c.ver == Ver::V3 { "v3.1.1" } else { "v5.0" },
            sname(&c.script),
            c.auto[0] as u8,
            c.auto[1] as u8,
            c.losses,
            c.splits
        );
        o.push(c);
    };
    let p = |q: &[u8]| q.iter().map(|x| Op::P(*x)).collect::<Vec<_>>();
    for v in [Ver::V3, Ver::V5] {
        let b = base(v);
        let autos = [[true, true], [false, false], [true, false], [false, true]];
        // every pair of one message each way / two messages one way
        for auto in autos {
            let mut scripts: Vec<[Vec<Op>; 2]> = vec![];
            for x in 0..3u8 {
                for y in 0..3u8 {
                    scripts.push([p(&[x]), p(&[y])]);
                    scripts.push([p(&[x, y]), vec![]]);
                    scripts.push([vec![], p(&[x, y])]);
                }
            }
            for s in scripts {
                add(Cfg01 { script: s, auto, losses: 2, ..b.clone() }, "pairs");
            }
        }
        // more messages
        for auto in [[true, true], [false, false]] {
            for s in [[p(&[2, 2]), p(&[2])], [p(&[1, 2]), p(&[2, 1])], [p(&[2, 1, 0]), p(&[0, 1])], [p(&[2]), p(&[1, 2, 0])], [p(&[2, 2]), p(&[2, 2])]] {
                let big = s[0].len() + s[1].len() > 3;
                add(Cfg01 { script: s, auto, losses: 1, ..b.clone() }, if big { "many" } else { "more" });
            }
        }
        // every byte boundary
        for auto in [[true, true], [false, false]] {
            for s in [[p(&[2]), vec![]], [vec![], p(&[2])], [p(&[1]), p(&[0])], [p(&[2]), p(&[1])]] {
                add(Cfg01 { script: s, auto, losses: 1, splits: if quick { 1 } else { 2 }, ..b.clone() }, "bytes");
            }
        }
        // clean sessions, no loss; subscriptions; pings; disconnects
        for auto in [[true, true], [false, false]] {
            add(Cfg01 { script: [vec![Op::Sub, Op::P(2), Op::Unsub], p(&[2, 1])], auto, clean: true, losses: 0, pings: 1, splits: 0, ..b.clone() }, "clean");
            add(Cfg01 { script: [vec![Op::Sub, Op::P(1)], p(&[2])], auto, losses: 1, pings: 1, ping_auto: false, ..b.clone() }, "subscribe+ping");
            add(Cfg01 { script: [vec![Op::P(2), Op::Unsub], p(&[1])], auto, losses: 1, discs: 1, ..b.clone() }, "disconnect");
            add(Cfg01 { script: [p(&[2, 1]), p(&[2])], auto, losses: 2, offline: true, ..b.clone() }, "offline");
            add(Cfg01 { script: [p(&[1]), p(&[1, 2])], auto, losses: 2, offline: true, ..b.clone() }, "offline");
            add(Cfg01 { script: [p(&[2]), p(&[2])], auto, losses: 2, idw: 4, ..b.clone() }, "id32");
            add(Cfg01 { script: [p(&[2]), p(&[1])], auto, losses: 2, undet: true, ..b.clone() }, "undetermined server");
            add(Cfg01 { script: [p(&[2]), p(&[2])], auto, losses: 2, roles: [RoleK::Any, RoleK::Any], ..b.clone() }, "role any");
            if v == Ver::V5 {
                for m in 1..=2u16 {
                    add(Cfg01 { script: [p(&[2, 1]), p(&[2, 1])], auto, losses: 1, lim: [vec![rm(m)], vec![rm(m)]], ..b.clone() }, "receive maximum");
                    add(Cfg01 { script: [p(&[1, 2]), p(&[2])], auto, losses: 2, offline: true, lim: [vec![rm(m)], vec![rm(m)]], ..b.clone() }, "receive maximum offline");
                    add(Cfg01 { script: [p(&[0, 2, 0]), p(&[0, 1, 0])], auto, losses: 1, map: [true, true], lim: [vec![tam(m)], vec![tam(m)]], ..b.clone() }, "topic aliases");
                    add(Cfg01 { script: [p(&[1, 0, 2, 0]), vec![]], auto, losses: 1, map: [true, true], lim: [vec![tam(m)], vec![tam(m), rm(2)]], topics: vec!["aa", "bb", "aa"], ..b.clone() }, "topic aliases");
                }
                add(Cfg01 { script: [p(&[2]), p(&[2])], auto, losses: 2, lim: [vec![mps(40), rm(1), tam(1)], vec![mps(40), rm(1), tam(1)]], map: [true, true], ..b.clone() }, "all limits");
            }
        }
    }
    o
}

pub fn run(ctx: &mut crate::report::Ctx) {
    let quick = ctx.quick();
    let only = std::env::var("MC_ONLY").ok();
    let mut list = cfgs(quick);
    if let Some(o) = &only {
        list.retain(|c| c.label.contains(o.as_str()));
    }
    let n = list.len();
    for (i, c) in list.into_iter().enumerate() {
        let left = (ctx.budget_s - ctx.elapsed()).max(1.0);
        if ctx.violations.len() >= 3 && std::env::var_os("MC_KEEP").is_none() {
            break;
        }
        let states = if quick { 10_000 } else { 400_000 };
        bfs(ctx, &M1 { c }, &Limits { depth: 200, states, min_depth: 6, secs: left / (n - i) as f64 * 2.0 });
    }
}
