//! Value sweeps at connection level: fixed scripts run once for every value of a field (every
//! identifier, every Receive Maximum, every Topic Alias Maximum, every keep-alive, every Maximum
//! Packet Size) or for every size of a collection, with all monitors of `world` attached.  The
//! explorations of `props_conn` enumerate orders over few values; these enumerate values over few
//! orders.
use crate::conn::*;
use crate::explore::*;
use crate::leafs;
use crate::refcodec::*;
use crate::report::Ctx;
use crate::sys::*;
use crate::world::*;
use std::sync::Arc;

const RV: [(RoleK, Ver); 4] = [(RoleK::Client, Ver::V3), (RoleK::Client, Ver::V5), (RoleK::Server, Ver::V3), (RoleK::Server, Ver::V5)];

struct Run<'a> {
    w: World,
    prop: &'a str,
    /// the property the claims of the script belong to
    owner: &'a str,
    idw: u8,
    cl: bool,
    v: Ver,
    log: Vec<Call>,
    bad: Option<Bad>,
    out: u64,
}
impl<'a> Run<'a> {
    fn new(prop: &'a str, owner: &'a str, r: RoleK, v: Ver, idw: u8) -> Run<'a> {
        Run { w: World::new(Spec { role: r, ver: Some(v), idw }), prop, owner, idw, cl: r == RoleK::Client, v, log: vec![], bad: None, out: 0 }
    }
    fn go(&mut self, c: Call) -> Ret {
        if self.bad.is_some() {
            return Ret::default();
        }
        let mut bads = vec![];
        self.log.push(c.clone());
        self.w.last = Arc::new(vec![]);
        let r = self.w.exec(c, &mut bads);
        self.out = self.out.wrapping_mul(31).wrapping_add(r.all().count() as u64 + 7 * r.has_err() as u64);
        if let Some(mut b) = pick(self.prop, bads) {
            let t: Vec<String> = self.log.iter().rev().take(30).rev().map(|c| format!("{c:?}")).collect();
            b.msg = format!("{}\n{}\nlast call yields\n{}", b.msg, t.join("\n"), listing(&self.w.last));
            self.bad = Some(b);
        }
        r
    }
    fn send(&mut self, p: Pkt) -> Ret {
        let p = set_w(&p, self.idw);
        self.go(Call::Send(p))
    }
    fn recv(&mut self, p: Pkt) -> Ret {
        let p = set_w(&p, self.idw);
        self.go(Call::RecvP(p))
    }
    /// establish: `ours` are the properties this endpoint announces, `theirs` the peer's
    fn up(&mut self, clean: bool, sp: bool, ka: u16, mut ours: Vec<Prop>, mut theirs: Vec<Prop>) {
        if self.v == Ver::V3 {
            ours.clear();
            theirs.clear();
        }
        let (mut cp, ap) = if self.cl { (ours, theirs) } else { (theirs, ours) };
        if !clean && self.v == Ver::V5 {
            cp.push(sei(100));
        }
        let (c, a) = (connect(self.v, clean, ka, cp), connack(self.v, sp, 0, ap));
        if self.cl {
            self.send(c);
            self.recv(a);
        } else {
            self.recv(c);
            self.send(a);
        }
    }
    fn reg(&mut self, id: u32) {
        self.go(Call::Register(id));
    }
    /// register and publish
    fn publ(&mut self, q: u8, id: u32, topic: &str, props: Vec<Prop>, n: usize) -> Ret {
        if q > 0 {
            self.reg(id);
        }
        let p = publish_pl(self.v, q, id, topic, props, n);
        self.send(p)
    }
    fn ackr(&mut self, kind: u8, id: u32) -> Ret {
        let v = self.v;
        self.recv(ack(v, kind, id, None))
    }
    fn acks(&mut self, kind: u8, id: u32) -> Ret {
        let v = self.v;
        self.send(ack(v, kind, id, None))
    }
    /// the peer completes the outbound exchange `id` (PUBREL sent by us when not automatic)
    fn finish_out(&mut self, q: u8, id: u32) {
        if q == 1 {
            self.ackr(PUBACK, id);
        } else {
            self.ackr(PUBREC, id);
            if self.w.sh.used.get(&id) == Some(&Own::Rec) {
                self.acks(PUBREL, id);
            }
            self.ackr(PUBCOMP, id);
        }
    }
    fn close(&mut self) {
        self.go(Call::Closed);
    }
    fn timer(&mut self, k: u8) -> Ret {
        if self.w.sh.armed[k as usize].is_some() {
            self.go(Call::Timer(k))
        } else {
            Ret::default()
        }
    }
    fn claim(&mut self, ok: bool, sig: &str, m: String) {
        if !ok && self.bad.is_none() && self.prop == self.owner {
            let t: Vec<String> = self.log.iter().rev().take(30).rev().map(|c| format!("{c:?}")).collect();
            self.bad = Some(Bad::new(format!("{}/{sig}", self.prop), format!("{m}\n{}", t.join("\n"))));
        }
    }
    fn done(self) -> Result<u64, Bad> {
        match self.bad {
            Some(b) => Err(b),
            None => Ok(self.out),
        }
    }
}
fn rvs(i: usize) -> (RoleK, Ver) {
    RV[i % 4]
}
fn v5(i: usize) -> RoleK {
    [RoleK::Client, RoleK::Server][i % 2]
}
fn u16s() -> Vec<u32> {
    (0..=65535).collect()
}

pub fn run(ctx: &mut Ctx, prop: &str) {
    match prop {
        "C06" => c06(ctx),
        "C07" => c07(ctx),
        "C08" => c08(ctx),
        "C12" => c12(ctx),
        "C13" => c13(ctx),
        "C14" => c14(ctx),
        "C15" => c15(ctx),
        "C16" => c16(ctx),
        // every list of events in every one of these histories
        "C05" | "C19" => {
            c06(ctx);
            c07(ctx);
            c08(ctx);
            c12(ctx);
            c13(ctx);
            c14(ctx);
            c15(ctx);
            c16(ctx)
        }
        _ => {}
    }
}

fn c15(ctx: &mut Ctx) {
    let prop = ctx.prop.clone();
    let vals = u16s();
    let n = vals.len();
    enumerate(ctx, "sweep C15: keep-alive, Server Keep Alive and override values", n * 9, |i| {
        let (x, k) = (vals[i / 9] as u16, i % 9);
        let (r, v) = match k {
            0 => (RoleK::Client, Ver::V3),
            1..=4 => (RoleK::Client, Ver::V5),
            5 => (RoleK::Server, Ver::V3),
            6 | 7 => (RoleK::Server, Ver::V5),
            _ => (RoleK::Any, Ver::V5),
        };
        let mut z = Run::new(&prop, "C15", r, v, 2);
        if k == 8 {
            z.cl = x % 2 == 0;
        }
        if z.cl && k != 8 {
            z.go(Call::PingrespTo(if k == 4 { x as u64 } else { 3 }));
        }
        match k {
            2 => z.up(true, false, 10, vec![], vec![ska(x)]),
            3 => {
                z.go(Call::PingInterval(Some(x as u64 * 65_537)));
                z.up(true, false, 10, vec![], vec![ska(20)]);
                z.go(Call::PingInterval(Some(x as u64)));
            }
            7 => z.up(true, false, 10, vec![ska(x)], vec![]),
            _ => z.up(true, false, x, vec![], vec![]),
        }
        if z.cl {
            z.send(mk(v, 2, Body::Pingreq));
            z.recv(mk(v, 2, Body::Pingresp));
            z.publ(0, 0, "t", vec![], 1);
            z.timer(PINGREQ_SEND);
            z.recv(mk(v, 2, Body::Pingresp));
            z.timer(PINGREQ_SEND);
            z.timer(PINGRESP_RECV);
        } else {
            z.recv(mk(v, 2, Body::Pingreq));
            z.send(mk(v, 2, Body::Pingresp));
            z.recv(publish(v, 0, 0, "t", vec![]));
            z.timer(PINGREQ_RECV);
        }
        z.close();
        z.up(true, false, 0, vec![], vec![]);
        if z.cl {
            z.send(mk(v, 2, Body::Pingreq));
        } else {
            z.recv(mk(v, 2, Body::Pingreq));
        }
        z.close();
        z.done()
    });
    ctx.bounds.push("value sweep: keep-alive, Server Keep Alive, PINGREQ interval override and PINGRESP timeout over 0..=65535, client, server and role Any".into());
}

fn c12(ctx: &mut Ctx) {
    let prop = ctx.prop.clone();
    let vals = u16s();
    enumerate(ctx, "sweep C12: every Receive Maximum, one exchange of each kind", vals.len() * 2, |i| {
        let m = vals[i / 2].max(1) as u16;
        let mut z = Run::new(&prop, "C12", v5(i), Ver::V5, 2);
        z.up(true, false, 0, vec![rm(m)], vec![rm(m)]);
        let vac = z.w.c.vacancy();
        z.claim(vac == Some(m), "sweep-vacancy", format!("vacancy {vac:?} after connecting with Receive Maximum {m}"));
        z.publ(1, 1, "t", vec![], 1);
        let vac = z.w.c.vacancy();
        z.claim(vac == Some(m - 1), "sweep-vacancy", format!("vacancy {vac:?} with one exchange of {m} in use"));
        if m > 1 {
            z.publ(2, 65535, "t", vec![], 1);
        }
        z.finish_out(1, 1);
        if m > 1 {
            z.finish_out(2, 65535);
        }
        let vac = z.w.c.vacancy();
        z.claim(vac == Some(m), "sweep-vacancy", format!("vacancy {vac:?} after all exchanges with Receive Maximum {m}"));
        // inbound: one PUBLISH never exceeds the maximum
        let r = z.recv(publish(Ver::V5, 2, 7, "t", vec![]));
        let delivered = r.recvs().count() == 1 && !r.has_err();
        z.claim(delivered, "sweep-first", format!("the first QoS 2 PUBLISH was not delivered although Receive Maximum is {m}"));
        z.done()
    });
    let mut ms: Vec<usize> = (1..=if ctx.quick() { 40 } else { 150 }).collect();
    ms.extend([127, 128, 129, 255, 256, 257]);
    if !ctx.quick() {
        ms.extend([511, 512, 1000]);
    }
    enumerate(ctx, "sweep C12: the whole window filled and drained, stored packets above the window", ms.len() * 2 * 6, |i| {
        let (m, k) = (ms[i / 12], i / 2 % 6);
        let mut z = Run::new(&prop, "C12", v5(i), Ver::V5, 2);
        z.go(Call::AutoPub(k % 2 == 0));
        let q = |id: u32| if k < 4 { 1 + (id % 2) as u8 } else { 1 + (k - 4) as u8 };
        let persistent = k >= 2;
        z.up(!persistent, false, 0, vec![rm(m as u16)], vec![rm(m as u16)]);
        for id in 1..=m as u32 {
            let r = z.publ(q(id), id, "t", vec![], 1);
            let sent = r.sends().count() == 1;
            z.claim(sent, "sweep-fill", format!("PUBLISH {id} of {m} was not sent"));
        }
        let over = m as u32 + 1;
        let r = z.publ(1, over, "t", vec![], 1);
        let none = r.sends().count() == 0;
        z.claim(none, "sweep-over", format!("a PUBLISH beyond the Receive Maximum {m} was sent"));
        // the peer fills ours
        for id in 1..=m as u32 {
            let r = z.recv(publish(Ver::V5, 2, id, "t", vec![]));
            let ok = r.recvs().count() == 1;
            z.claim(ok, "sweep-in", format!("inbound QoS 2 PUBLISH {id} of {m} was not delivered"));
        }
        if k < 2 {
            // complete in order / in reverse order, then refill
            let ids: Vec<u32> = if k == 0 { (1..=m as u32).collect() } else { (1..=m as u32).rev().collect() };
            for id in ids {
                z.finish_out(q(id), id);
            }
            let vac = z.w.c.vacancy();
            z.claim(vac == Some(m as u16), "sweep-vacancy", format!("vacancy {vac:?} after all of {m} exchanges completed"));
            let r = z.publ(1, over, "t", vec![], 1);
            let sent = r.sends().count() == 1;
            z.claim(sent, "sweep-refill", "a PUBLISH after the window emptied was not sent".into());
        } else {
            // resume with a window of half the size: everything stored is retransmitted
            z.close();
            let half = (m as u16 / 2).max(1);
            z.up(false, true, 0, vec![rm(1)], vec![rm(half)]);
            let vac = z.w.c.vacancy();
            z.claim(vac == Some(half.saturating_sub(m as u16)), "sweep-vacancy", format!("vacancy {vac:?} with {m} retransmitted exchanges and Receive Maximum {half}"));
            for id in 1..=m as u32 {
                z.finish_out(q(id), id);
                let left = m as u16 - id as u16;
                let vac = z.w.c.vacancy();
                z.claim(vac == Some(half.saturating_sub(left)), "sweep-vacancy", format!("vacancy {vac:?} with {left} exchanges left and Receive Maximum {half}"));
            }
        }
        // one too many from the peer
        if k < 2 {
            let r = z.recv(publish(Ver::V5, 1, over, "t", vec![]));
            let refused = r.recvs().count() == 0 && r.has_err();
            z.claim(refused, "sweep-excess", format!("inbound PUBLISH beyond our Receive Maximum {m} was delivered"));
        }
        z.done()
    });
    ctx.bounds.push("value sweep: every Receive Maximum 1..=65535 with one exchange of each kind; windows up to the stated sizes filled, overfilled, drained both ways, resumed with half the window".into());
}

fn c08(ctx: &mut Ctx) {
    let prop = ctx.prop.clone();
    enumerate(ctx, "sweep C08: all identifiers at once (acquired, registered up/down)", 4 * 3, |i| {
        let (r, v) = rvs(i / 3);
        let mut c = make(Spec { role: r, ver: Some(v), idw: 2 });
        let fail = |m: String| Err(Bad::new("C08/exhaust", m));
        let mut seen = vec![false; 65536];
        let run = guarded(|| -> Result<u64, Bad> {
            for k in 0..65535u32 {
                let q = match i % 3 {
                    0 => c.call(&Call::Acquire),
                    1 => c.call(&Call::Register(k + 1)),
                    _ => c.call(&Call::Register(65535 - k)),
                };
                match (i % 3, q.id) {
                    (0, Some(Ok(id))) if id >= 1 && id <= 65535 && !seen[id as usize] => seen[id as usize] = true,
                    (1 | 2, Some(Ok(_))) => {}
                    (_, o) => return fail(format!("with {k} identifiers in use: {o:?}")),
                }
            }
            for _ in 0..2 {
                if let Some(Ok(id)) = c.call(&Call::Acquire).id {
                    return fail(format!("identifier {id} handed out although all 65535 are in use"));
                }
            }
            for id in 0..=65535u32 {
                if let Some(Ok(_)) = c.call(&Call::Register(id)).id {
                    return fail(format!("identifier {id} registered although {}", if id == 0 { "it is 0" } else { "it is in use" }));
                }
            }
            for id in 1..=65535u32 {
                let r = c.call(&Call::Release(id));
                if r.released() != vec![id] {
                    return fail(format!("release of {id} announces {:?}", r.released()));
                }
                let r = c.call(&Call::Release(id));
                if !r.released().is_empty() {
                    return fail(format!("second release of {id} announces {:?}", r.released()));
                }
                match c.call(&Call::Acquire).id {
                    Some(Ok(x)) if x == id => {}
                    o => return fail(format!("only {id} is free, acquire yields {o:?}")),
                }
            }
            Ok(1)
        });
        run.unwrap_or_else(|e| Err(Bad::new("C08/panic", e)))
    });
    let mut ids = u16s();
    ids.retain(|x| *x > 0);
    let n16 = ids.len();
    for b in 4..32 {
        for d in -1i64..=1 {
            ids.push(((1i64 << b) + d) as u32);
        }
    }
    ids.extend([u32::MAX, u32::MAX - 1, 0x0100_0000, 0xff00_ff00, 0x00ff_0000]);
    let n = ids.len();
    enumerate(ctx, "sweep C08: every identifier through every kind of exchange", n * 4, |i| {
        let (id, k) = (ids[i / 4], i % 4);
        let (r, v) = rvs(k);
        let mut z = Run::new(&prop, "C08", r, v, if i / 4 < n16 && id % 2 == 1 { 2 } else { 4 });
        z.go(Call::AutoPub(id % 3 != 0));
        id_script(&mut z, id);
        let mut bads = vec![];
        let probe: std::collections::BTreeSet<u32> = [1, id, id.wrapping_sub(1), id.wrapping_add(1)].into_iter().map(|x| if z.idw == 2 { x & 0xffff } else { x }).collect();
        let probe: Vec<u32> = probe.into_iter().collect();
        z.w.probe_ids(&probe, &mut bads);
        if z.bad.is_none() {
            z.bad = pick(&prop, bads);
        }
        z.done()
    });
    ctx.bounds.push("value sweep: all 65535 identifiers in use at once; every 16-bit identifier and the 32-bit boundaries through every kind of exchange, refusal, close and resume".into());
}
/// one identifier through every kind of exchange
fn id_script(z: &mut Run, id: u32) {
    let v = z.v;
    z.up(false, false, 0, vec![], vec![]);
    for q in [1u8, 2] {
        z.publ(q, id, "t", vec![], 1);
        z.finish_out(q, id);
    }
    if z.cl {
        let with = |p: Pkt| p.with_id(id);
        z.reg(id);
        z.send(with(subscribe(v)));
        z.recv(mk(v, 2, Body::Suback { id, props: vec![], codes: vec![1] }));
        z.reg(id);
        z.send(with(unsubscribe(v)));
        z.recv(mk(v, 2, Body::Unsuback { id, props: vec![], codes: if v == Ver::V5 { vec![0] } else { vec![] } }));
        // left pending at the close
        z.reg(id);
        z.send(with(subscribe(v)));
    }
    z.close();
    z.up(false, true, 0, vec![], vec![]);
    z.publ(1, id, "t", vec![], 1);
    z.close();
    z.up(false, true, 0, vec![], vec![]);
    z.ackr(PUBACK, id);
    z.publ(2, id, "t", vec![], 1);
    z.close();
    z.up(false, true, 0, vec![], vec![]);
    z.ackr(PUBREC, id);
    z.close();
    z.up(false, true, 0, vec![], vec![]);
    if z.w.sh.used.get(&id) == Some(&Own::Rec) {
        z.acks(PUBREL, id);
    }
    z.ackr(PUBCOMP, id);
    // refused by a failure code (v5), erased, and wiped by a new session
    z.publ(2, id, "t", vec![], 1);
    if v == Ver::V5 {
        z.recv(ack(v, PUBREC, id, Some(0x83)));
        z.publ(1, id, "t", vec![], 1);
    }
    z.go(Call::Erase(id));
    z.publ(1, id, "t", vec![], 1);
    z.close();
    z.up(true, false, 0, vec![], vec![]);
    z.publ(1, id, "t", vec![], 1);
    z.close();
}

fn c06(ctx: &mut Ctx) {
    let prop = ctx.prop.clone();
    let mut ids = u16s();
    ids.retain(|x| *x > 0);
    ids.extend([u32::MAX, 0x0100_0000, 0x8000_0000, 0x0001_0000, 0xff00_ff00]);
    enumerate(ctx, "sweep C06: every identifier through storing, resuming and acknowledging", ids.len() * 4, |i| {
        let id = ids[i / 4];
        let (r, v) = rvs(i);
        let mut z = Run::new(&prop, "C06", r, v, if id > 65535 { 4 } else { 2 });
        z.go(Call::AutoPub(true));
        id_script(&mut z, id);
        z.done()
    });
    // stores of many packets: every size, one packet removed at every position by every means
    let max = if ctx.quick() { 20 } else { 60 };
    let mut cases = vec![];
    for n in 1..=max {
        for k in 0..n {
            for how in 0..4 {
                cases.push((n, k, how));
            }
        }
    }
    enumerate(ctx, &format!("sweep C06: stores of 1..={max} packets, one removed at every position"), cases.len() * 4, |i| {
        let (n, k, how) = cases[i / 4];
        let (r, v) = rvs(i);
        let mut z = Run::new(&prop, "C06", r, v, 2);
        z.go(Call::AutoPub(true));
        z.up(false, false, 0, vec![], vec![]);
        // identifiers in an order that is neither ascending nor descending
        let id = |j: usize| ((j * 37) % 101 + 1) as u32;
        let q = |j: usize| 1 + ((j / 2) % 2) as u8;
        for j in 0..n {
            z.publ(q(j), id(j), ["a", "b", "c"][j % 3], vec![], 1 + j % 4);
        }
        match how {
            0 => z.finish_out(q(k), id(k)),
            1 => {
                z.go(Call::Erase(id(k)));
            }
            2 => {
                // half-way: the PUBREL takes over
                if q(k) == 2 {
                    z.ackr(PUBREC, id(k));
                }
            }
            _ => {
                z.close();
                z.up(false, true, 0, vec![], vec![]);
                z.finish_out(q(k), id(k));
            }
        }
        z.close();
        z.up(false, true, 0, vec![], vec![]);
        // a second resume finds the same store; offline additions go last
        if v == Ver::V5 && how == 0 {
            z.publ(1, 200, "z", vec![], 1);
        }
        z.close();
        z.up(false, true, 0, vec![], vec![]);
        z.done()
    });
    ctx.bounds.push("value sweep: every identifier; stores of every size up to the stated one with one packet removed at every position by acknowledgement, erase, PUBREC, or after a resume".into());
}

fn c07(ctx: &mut Ctx) {
    let prop = ctx.prop.clone();
    let mut ids = u16s();
    ids.retain(|x| *x > 0);
    ids.extend([u32::MAX, 0x0100_0000, 0x8000_0000, 0x0001_0000, 0xff00_ff00]);
    enumerate(ctx, "sweep C07: every identifier through delivery, retransmission, resume and restart", ids.len() * 8, |i| {
        let (id, auto) = (ids[i / 8], i / 4 % 2 == 0);
        let (r, v) = rvs(i);
        let mut z = Run::new(&prop, "C07", r, v, if id > 65535 { 4 } else { 2 });
        z.go(Call::AutoPub(auto));
        z.up(false, false, 0, vec![], vec![]);
        let p = publish(v, 2, id, "t", vec![]);
        let d = with_dup(&p, true);
        for round in 0..2 {
            z.recv(p.clone());
            if !auto {
                z.acks(PUBREC, id);
            }
            z.recv(d.clone());
            if round == 0 {
                z.close();
                z.up(false, true, 0, vec![], vec![]);
                z.recv(d.clone());
                z.w.restart();
                z.up(false, true, 0, vec![], vec![]);
                z.recv(d.clone());
            }
            if !auto {
                z.acks(PUBREC, id);
            }
            z.ackr(PUBREL, id);
            if !auto {
                z.acks(PUBCOMP, id);
            }
        }
        z.recv(p.clone());
        if v == Ver::V5 && !auto {
            z.send(ack(v, PUBREC, id, Some(0x87)));
            z.recv(p.clone());
        }
        z.close();
        z.up(true, false, 0, vec![], vec![]);
        z.recv(p.clone());
        z.done()
    });
    // many exchanges open at once, completed in three orders
    let max = if ctx.quick() { 40 } else { 100 };
    enumerate(ctx, &format!("sweep C07: 1..={max} open exchanges"), max * 12, |i| {
        let (n, ord) = (i / 12 + 1, i / 4 % 3);
        let (r, v) = rvs(i);
        let mut z = Run::new(&prop, "C07", r, v, 2);
        z.go(Call::AutoPub(true));
        z.up(false, false, 0, vec![], vec![]);
        let id = |j: usize| ((j * 37) % 101 + 1) as u32;
        for j in 0..n {
            z.recv(publish(v, 2, id(j), "t", vec![]));
        }
        let order: Vec<usize> = match ord {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            _ => (0..n).step_by(2).chain((0..n).skip(1).step_by(2)).collect(),
        };
        for (c, j) in order.iter().enumerate() {
            z.ackr(PUBREL, id(*j));
            if c == n / 2 {
                z.close();
                z.up(false, true, 0, vec![], vec![]);
            }
            // everything not yet released is still known
            for k in &order[c + 1..] {
                z.recv(with_dup(&publish(v, 2, id(*k), "t", vec![]), true));
            }
        }
        z.done()
    });
    ctx.bounds.push("value sweep: every identifier through delivery, retransmission, resume and restart; up to the stated number of exchanges open at once".into());
}

fn c13(ctx: &mut Ctx) {
    let prop = ctx.prop.clone();
    let vals = u16s();
    enumerate(ctx, "sweep C13: every Topic Alias Maximum, aliases at and around it", vals.len() * 2, |i| {
        let m = vals[i / 2] as u16;
        let mut z = Run::new(&prop, "C13", v5(i), Ver::V5, 2);
        z.go(Call::AutoPub(true));
        let t = || if m > 0 { vec![tam(m)] } else { vec![] };
        z.up(false, false, 0, t(), t());
        let near: Vec<u16> = [1, 2, m / 2, m.saturating_sub(1), m].into_iter().filter(|a| *a > 0 && *a <= m).collect();
        for (j, a) in near.iter().enumerate() {
            let topic = ["a", "b", "c", "d", "e"][j];
            z.publ(0, 0, topic, vec![alias(*a)], 1);
            z.publ((j % 3) as u8, 9, "", vec![alias(*a)], 1);
            if j % 3 > 0 {
                z.finish_out((j % 3) as u8, 9);
            }
            z.recv(publish(Ver::V5, 0, 0, topic, vec![alias(*a)]));
            let r = z.recv(publish(Ver::V5, 1, 5, "", vec![alias(*a)]));
            let ok = r.recvs().any(|p| topic_of(p) == topic);
            z.claim(ok, "sweep-in", format!("PUBLISH with alias {a} of {m} was not delivered with topic {topic}"));
        }
        if m < 65535 {
            let r = z.publ(0, 0, "x", vec![alias(m + 1)], 1);
            let none = r.sends().count() == 0;
            z.claim(none, "sweep-over", format!("alias {} sent, maximum is {m}", m + 1));
        }
        // stored and resumed without any alias
        if m > 0 {
            z.publ(1, 3, "", vec![alias(m)], 1);
            z.publ(2, 4, "q", vec![alias(1)], 1);
        }
        z.close();
        z.up(false, true, 0, t(), t());
        if m > 0 {
            let r = z.publ(0, 0, "", vec![alias(m)], 1);
            let none = r.sends().count() == 0;
            z.claim(none, "sweep-survives", format!("alias {m} of the previous connection is still used"));
            let r = z.recv(publish(Ver::V5, 0, 0, "", vec![alias(m)]));
            let none = r.recvs().count() == 0;
            z.claim(none, "sweep-survives", format!("alias {m} of the previous connection is still resolved"));
        } else {
            let r = z.recv(publish(Ver::V5, 0, 0, "k", vec![alias(1)]));
            let none = r.recvs().count() == 0;
            z.claim(none, "sweep-over-in", "alias accepted although Topic Alias Maximum is 0".into());
        }
        z.done()
    });
    let max = if ctx.quick() { 40 } else { 150 };
    enumerate(ctx, &format!("sweep C13: automatic mapping with maximum 1..={max} over more topics than aliases"), max * 2 * 4, |i| {
        let (m, k) = (i / 8 + 1, i / 2 % 4);
        let mut z = Run::new(&prop, "C13", v5(i), Ver::V5, 2);
        z.go(Call::AutoMap(k != 3));
        z.go(Call::AutoReplace(k == 1 || k == 3));
        z.up(false, false, 0, vec![], vec![tam(m as u16)]);
        let names: Vec<String> = (0..m + 3).map(|j| format!("topic/{j}")).collect();
        for j in 0..m + 3 {
            let j = if k == 2 { (j * 7) % (m + 3) } else { j };
            z.publ(0, 0, &names[j], vec![], 1);
            z.publ(0, 0, &names[j / 2], if k == 3 { vec![alias((j % m) as u16 + 1)] } else { vec![] }, 1);
        }
        for j in (0..m + 3).rev() {
            z.publ((j % 2) as u8, 11, &names[j], vec![], 1);
            if j % 2 == 1 {
                z.finish_out(1, 11);
            }
        }
        // inbound table of the same size
        z.close();
        z.up(false, true, 0, vec![tam(m as u16)], vec![tam(m as u16)]);
        for j in 0..m {
            z.recv(publish(Ver::V5, 0, 0, &names[j], vec![alias(m as u16 - j as u16)]));
        }
        for j in 0..m {
            let r = z.recv(publish(Ver::V5, 0, 0, "", vec![alias(m as u16 - j as u16)]));
            let ok = r.recvs().any(|p| topic_of(p) == names[j]);
            z.claim(ok, "sweep-in", format!("alias {} of {m} not resolved to {}", m - j, names[j]));
        }
        z.done()
    });
    ctx.bounds.push("value sweep: every Topic Alias Maximum 0..=65535 with aliases 1, 2, half, maximum-1, maximum, maximum+1 in both directions; automatic mapping over more topics than aliases up to the stated maximum".into());
}

fn c14(ctx: &mut Ctx) {
    let prop = ctx.prop.clone();
    let quick = ctx.quick();
    let mut ls: Vec<u32> = (1..=if quick { 300 } else { 2000 }).collect();
    ls.extend([127, 128, 129, 130, 131, 132, 133, 255, 256, 257, 16383, 16384, 16385, 16386, 16387, 16388, 16389, 65535, 65536]);
    if !quick {
        ls.extend([2_097_150, 2_097_151, 2_097_152, 2_097_155, 2_097_156, 2_097_157, 2_097_158]);
    }
    let kinds = 16usize;
    enumerate(ctx, "sweep C14: every Maximum Packet Size, every packet kind at and around it", ls.len() * 2 * kinds, |i| {
        let (l, kind) = (ls[i / (2 * kinds)], i / 2 % kinds);
        let mut z = Run::new(&prop, "C14", v5(i), Ver::V5, 2);
        let v = Ver::V5;
        z.go(Call::AutoPub(kind % 2 == 0));
        z.go(Call::AutoPing(true));
        // payload lengths whose PUBLISH (topic of `t` bytes, extra property bytes `x`) is about l bytes
        let pls = |t: usize, q: u8, x: usize| -> Vec<usize> {
            let mut o = vec![];
            for n in l.saturating_sub(14) as usize..=l as usize + 1 {
                let rl = 2 + t + if q > 0 { 2 } else { 0 } + 1 + x + n;
                let size = 1 + if rl < 128 { 1 } else if rl < 16384 { 2 } else if rl < 2_097_152 { 3 } else { 4 } + rl;
                if (size as i64 - l as i64).abs() <= 1 {
                    o.push(n);
                }
            }
            o
        };
        match kind {
            0 => {
                // outbound PUBLISH of every QoS
                z.up(true, false, 0, vec![], vec![mps(l)]);
                for q in 0..3u8 {
                    for n in pls(1, q, 0) {
                        let r = z.publ(q, 5, "t", vec![], n);
                        if q > 0 && r.sends().count() > 0 {
                            z.finish_out(q, 5);
                        }
                    }
                }
            }
            1 => {
                // inbound PUBLISH of every QoS
                for q in 0..3u8 {
                    for n in pls(1, q, 0) {
                        z.up(true, false, 0, vec![mps(l)], vec![]);
                        let p = publish_pl(v, q, 5, "t", vec![], n);
                        let size = encode_len(&p);
                        let r = z.recv(p);
                        let got = r.recvs().count() == 1;
                        z.claim(got == (size <= l as usize), "sweep-in", format!("inbound PUBLISH of {size} bytes, our Maximum Packet Size {l}: delivered = {got}"));
                        z.close();
                    }
                }
            }
            2 | 3 => {
                // automatic responses and rich packets of every other kind, both directions
                for t in 4..=15u8 {
                    for p in leafs::rich(v, t, 2) {
                        z.up(true, false, 0, vec![], vec![mps(l)]);
                        if matches!(t, 4..=7 | 9 | 11) {
                            // answer something
                            match t {
                                4 => {
                                    z.recv(publish(v, 1, p.id().unwrap(), "t", vec![]));
                                }
                                5 | 7 => {
                                    z.recv(publish(v, 2, p.id().unwrap(), "t", vec![]));
                                    if t == 7 {
                                        z.ackr(PUBREL, p.id().unwrap());
                                    }
                                }
                                6 => {
                                    let id = p.id().unwrap();
                                    z.publ(2, id, "t", vec![], 1);
                                    z.ackr(PUBREC, id);
                                    if z.w.sh.used.get(&id) != Some(&Own::Rec) {
                                        z.close();
                                        continue;
                                    }
                                }
                                _ => {}
                            }
                        }
                        if matches!(t, 8 | 10) {
                            z.reg(1);
                        }
                        if leafs::may_send(z.w.sh.role, v, t) && z.w.sh.st == St::Connected {
                            z.send(p.clone());
                        }
                        z.close();
                    }
                }
            }
            4 | 5 => {
                for t in 4..=15u8 {
                    for p in leafs::rich(v, t, 2) {
                        z.up(true, false, 0, vec![mps(l)], vec![]);
                        if !leafs::may_receive(z.w.sh.role, v, t) {
                            z.close();
                            continue;
                        }
                        let size = encode_len(&p);
                        let r = z.recv(p.clone());
                        if size > l as usize {
                            let none = r.recvs().count() == 0 && r.has_err();
                            z.claim(none, "sweep-in", format!("{} of {size} bytes was delivered, our Maximum Packet Size is {l}", short(&p)));
                        }
                        z.close();
                    }
                }
            }
            6 | 7 => {
                // stored packets around the limit of the next connection
                for q in 1..3u8 {
                    for (t, x) in [("t", vec![]), ("", vec![alias(1)])] {
                        z.up(false, false, 0, vec![], vec![tam(2)]);
                        z.publ(0, 0, "a", vec![alias(1)], 1);
                        for (j, n) in pls(1, q, 0).into_iter().enumerate() {
                            z.publ(q, 10 + j as u32, t, x.clone(), n);
                        }
                        z.close();
                        z.up(false, true, 0, vec![], vec![mps(l)]);
                        z.close();
                        z.up(true, false, 0, vec![], vec![]);
                        z.close();
                    }
                }
            }
            8..=11 => {
                // rewritten by automatic mapping or replacement: 3 bytes of property more, topic less
                let (map, rep) = (kind % 2 == 0, kind >= 10 || kind % 2 == 1);
                z.go(Call::AutoMap(map));
                z.go(Call::AutoReplace(rep));
                for q in 0..3u8 {
                    for x in [0usize, 3] {
                        for t in ["t", "abcdefgh"] {
                            z.up(true, false, 0, vec![], vec![mps(l), tam(1)]);
                            if !map {
                                z.publ(0, 0, t, vec![alias(1)], 0);
                            }
                            for n in pls(t.len(), q, x).into_iter().chain(pls(0, q, 3)) {
                                let r = z.publ(q, 5, t, vec![], n);
                                if q > 0 && r.sends().count() > 0 {
                                    z.finish_out(q, 5);
                                } else if q > 0 && z.w.sh.used.contains_key(&5) {
                                    z.go(Call::Release(5));
                                }
                            }
                            z.close();
                        }
                    }
                }
            }
            12 => {
                // answers to errors
                z.up(true, false, 0, vec![], vec![mps(l)]);
                z.recv(publish(v, 0, 0, "", vec![alias(9)]));
                z.close();
                z.up(true, false, 0, vec![rm(1)], vec![mps(l)]);
                z.go(Call::AutoPub(false));
                z.recv(publish(v, 1, 1, "t", vec![]));
                z.recv(publish(v, 1, 2, "t", vec![]));
                z.close();
                z.up(true, false, 0, vec![], vec![mps(l)]);
                z.go(Call::RecvB(vec![0x36, 4, 0, 1, b't', 0]));
                z.close();
                z.up(true, false, 0, vec![mps(5)], vec![mps(l)]);
                z.recv(publish(v, 0, 0, "long", vec![]));
                z.close();
            }
            13 => {
                // timeouts
                z.go(Call::AutoPub(true));
                if z.cl {
                    z.go(Call::PingrespTo(5));
                }
                z.up(true, false, 10, vec![], vec![mps(l)]);
                z.timer(PINGREQ_RECV);
                z.timer(PINGREQ_SEND);
                z.timer(PINGRESP_RECV);
                z.close();
            }
            14 => {
                // CONNACK after a CONNECT that announced the limit, and CONNECT itself
                for p in leafs::rich(v, 2, 2) {
                    if z.cl {
                        z.send(connect(v, true, 0, vec![mps(l)]));
                        z.recv(p);
                    } else {
                        z.recv(connect(v, true, 0, vec![mps(l)]));
                        z.send(p);
                    }
                    z.close();
                }
            }
            _ => {
                // limits of the previous connection are forgotten
                z.up(true, false, 0, vec![mps(l)], vec![mps(l)]);
                z.close();
                z.up(true, false, 0, vec![], vec![]);
                for n in pls(1, 0, 0) {
                    let r = z.publ(0, 0, "t", vec![], n + 2);
                    let sent = r.sends().count() == 1;
                    z.claim(sent, "sweep-old-limit", format!("the limit {l} of the previous connection still applies to sending"));
                    let r = z.recv(publish_pl(v, 0, 0, "t", vec![], n + 2));
                    let got = r.recvs().count() == 1;
                    z.claim(got, "sweep-old-limit", format!("the limit {l} of the previous connection still applies to receiving"));
                }
            }
        }
        z.done()
    });
    ctx.bounds.push("value sweep: every Maximum Packet Size up to the stated value and the length-encoding boundaries, against every packet kind in both directions, automatic answers, timeouts, stored packets and packets rewritten by alias mapping, each at limit-1, limit, limit+1".into());
}

fn c16(ctx: &mut Ctx) {
    let prop = ctx.prop.clone();
    let mut ids = u16s();
    ids.retain(|x| *x > 0);
    ids.extend([u32::MAX, 0x0100_0000, 0x8000_0000, 0x0001_0000, 0xff00_ff00]);
    let script = |z: &mut Run, ids: &[(u32, u8, bool)], inb: &[u32]| {
        let v = z.v;
        z.go(Call::AutoPub(true));
        z.up(false, false, 0, vec![], vec![]);
        for (id, q, rec) in ids {
            z.publ(*q, *id, "t", vec![], 1);
            if *q == 2 && *rec {
                z.ackr(PUBREC, *id);
            }
        }
        for id in inb {
            z.recv(publish(v, 2, *id, "t", vec![]));
        }
        if z.bad.is_none() {
            z.w.restart();
        }
        let probe: Vec<u32> = ids.iter().map(|x| x.0).collect();
        let mut bads = vec![];
        z.w.probe_ids(&probe, &mut bads);
        if z.bad.is_none() {
            z.bad = pick(z.prop, bads);
        }
        z.up(false, true, 0, vec![], vec![]);
        for id in inb {
            z.recv(with_dup(&publish(v, 2, *id, "t", vec![]), true));
            z.ackr(PUBREL, *id);
            z.recv(publish(v, 2, *id, "t", vec![]));
        }
        for (id, q, rec) in ids {
            if *rec && *q == 2 {
                z.ackr(PUBCOMP, *id);
            } else {
                z.finish_out(*q, *id);
            }
        }
        z.close();
    };
    enumerate(ctx, "sweep C16: every identifier through export and restore", ids.len() * 12, |i| {
        let (id, k) = (ids[i / 12], i / 4 % 3);
        let (r, v) = rvs(i);
        let mut z = Run::new(&prop, "C16", r, v, if id > 65535 { 4 } else { 2 });
        script(&mut z, &[(id, 1 + (k > 0) as u8, k == 2)], &[id]);
        z.done()
    });
    let max = if ctx.quick() { 40 } else { 100 };
    enumerate(ctx, &format!("sweep C16: exports of 1..={max} packets and handled identifiers"), max * 12, |i| {
        let (n, k) = (i / 12 + 1, i / 4 % 3);
        let (r, v) = rvs(i);
        let mut z = Run::new(&prop, "C16", r, v, if k == 2 { 4 } else { 2 });
        let id = |j: usize| ((j * 37) % 101 + 1) as u32 * if k == 2 { 65_539 } else { 1 };
        let o: Vec<(u32, u8, bool)> = (0..n).map(|j| (id(j), 1 + ((j + k) % 2) as u8, j % 3 == 0)).collect();
        let h: Vec<u32> = (0..n).map(|j| id(100 - j)).collect();
        script(&mut z, &o, &h);
        z.done()
    });
    ctx.bounds.push("value sweep: every identifier through export and restore as PUBLISH QoS 1, QoS 2, PUBREL and handled identifier; exports of every size up to the stated one".into());
}

fn encode_len(p: &Pkt) -> usize {
    p.enc().len()
}
