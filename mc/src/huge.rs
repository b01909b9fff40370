//! Packets at the upper end of the size range: PUBLISH packets whose Remaining Length is the
//! protocol's maximum or a few bytes less, through every path that makes a packet larger (topic
//! taken from an alias on receive, alias added on send, topic added for the store).
use crate::explore::*;
use crate::report::*;
use mqtt_protocol_core::mqtt;
use mqtt::common::Cursor;
use mqtt::connection::role::{Client, RoleType, Server};
use mqtt::connection::{GenericConnection, GenericEvent, Version};
use mqtt::packet::{v5_0, GenericPacket, Property, Qos, TopicAlias};
use std::sync::{Condvar, Mutex};

const MAX: usize = 268_435_455;

#[derive(Clone, Copy, Debug)]
enum How {
    Recv,
    MapNew,
    MapKnown,
    Replace,
    StoreManual,
    Plain,
}
#[derive(Clone, Copy, Debug)]
struct Case {
    how: How,
    server: bool,
    k: usize,
    len: usize,
    qos: u8,
}
fn qos(q: u8) -> Qos {
    [Qos::AtMostOnce, Qos::AtLeastOnce, Qos::ExactlyOnce][q as usize]
}
type C<R> = GenericConnection<R, u16>;
type E = GenericEvent<u16>;
fn feed<R: RoleType>(c: &mut C<R>, b: &[u8]) -> Vec<E> {
    let mut cur = Cursor::new(b);
    c.recv(&mut cur)
}
fn bad(sig: &str, c: &Case, m: &str) -> Bad {
    Bad::new(format!("C05/huge-{sig}"), format!("{c:?}: {m}"))
}
/// drive one case; the connection object is established with Topic Alias Maximum 5 both ways
fn drive<R: RoleType>(mut c: C<R>, x: Case) -> Result<u64, Bad> {
    let (cn, ca) = ([0x10u8, 24, 0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 0, 8, 0x11, 0, 0, 0, 100, 0x22, 0, 5, 0, 3, b'c', b'i', b'd'], [0x20u8, 6, 0, 0, 3, 0x22, 0, 5]);
    if x.server {
        feed(&mut c, &cn);
        c.send(v5_0::Connack::parse(&ca[2..]).unwrap().0.into());
    } else {
        c.send(v5_0::Connect::parse(&cn[2..]).unwrap().0.into());
        feed(&mut c, &ca);
    }
    let topic: String = "abcdefghij"[..x.len].into();
    let idl = if x.qos > 0 { 2 } else { 0 };
    if let How::Recv = x.how {
        let mut reg = vec![0x30u8, (2 + x.len + 1 + 3) as u8, 0, x.len as u8];
        reg.extend_from_slice(topic.as_bytes());
        reg.extend_from_slice(&[3, 0x23, 0, 1]);
        let ev = feed(&mut c, &reg);
        if !ev.iter().any(|e| matches!(e, GenericEvent::NotifyPacketReceived(_))) {
            return Err(bad("setup", &x, "the alias registration was not delivered"));
        }
        let rl = MAX - x.k;
        let mut b = vec![0u8; 5 + rl];
        b[0] = 0x30 | x.qos << 1;
        let mut v = rl;
        for i in 1..5 {
            b[i] = (v % 128) as u8 | if i < 4 { 0x80 } else { 0 };
            v /= 128;
        }
        let mut at = 5 + 2;
        if idl > 0 {
            b[at + 1] = 7;
            at += 2;
        }
        b[at..at + 4].copy_from_slice(&[3, 0x23, 0, 1]);
        let ev = feed(&mut c, &b);
        let mut seen = false;
        for e in &ev {
            if let GenericEvent::NotifyPacketReceived(GenericPacket::V5_0Publish(p)) = e {
                seen = true;
                if p.topic_name() != topic {
                    return Err(bad("topic", &x, "delivered with the wrong topic"));
                }
                if p.payload().as_slice().len() != b.len() - at - 4 {
                    return Err(bad("payload", &x, "delivered with the wrong payload length"));
                }
            }
        }
        let closing = ev.iter().any(|e| matches!(e, GenericEvent::RequestClose)) && ev.iter().any(|e| matches!(e, GenericEvent::NotifyError(_)));
        if !seen && !closing {
            return Err(bad("lost", &x, "neither delivered nor answered by an error and a close"));
        }
        if seen && closing {
            return Err(bad("both", &x, "delivered and refused"));
        }
        return Ok(seen as u64);
    }
    let small = |t: &str, ta: Option<u16>| {
        let b = v5_0::Publish::builder().topic_name(t).unwrap().qos(Qos::AtMostOnce);
        match ta {
            Some(a) => b.props(vec![Property::TopicAlias(TopicAlias::new(a).unwrap())]).build().unwrap(),
            None => b.build().unwrap(),
        }
    };
    let (mut t, mut props) = (topic.clone(), vec![]);
    match x.how {
        How::MapNew => c.set_auto_map_topic_alias_send(true),
        How::MapKnown => {
            c.set_auto_map_topic_alias_send(true);
            c.send(small(&topic, None).into());
        }
        How::Replace => {
            c.send(small(&topic, Some(2)).into());
            c.set_auto_replace_topic_alias_send(true)
        }
        How::StoreManual => {
            c.send(small(&topic, Some(2)).into());
            t = String::new();
            props = vec![Property::TopicAlias(TopicAlias::new(2).unwrap())];
        }
        _ => {}
    }
    let fixed = 2 + t.len() + idl + 1 + if props.is_empty() { 0 } else { 3 };
    let n = MAX - x.k - fixed;
    let id = c.acquire_packet_id().unwrap();
    let mut b = v5_0::Publish::builder().topic_name(t.as_str()).unwrap().qos(qos(x.qos)).props(props).payload(vec![b'x'; n]);
    if idl > 0 {
        b = b.packet_id(id);
    }
    let p = match b.build() {
        Ok(p) => p,
        Err(e) => return Err(bad("build", &x, &format!("a packet of Remaining Length {} is not buildable: {e:?}", MAX - x.k))),
    };
    let ev = c.send(p.into());
    let err = ev.iter().any(|e| matches!(e, GenericEvent::NotifyError(_)));
    let rel = ev.iter().any(|e| matches!(e, GenericEvent::NotifyPacketIdReleased(i) if *i == id));
    let mut sent = 0;
    for e in &ev {
        if let GenericEvent::RequestSendPacket { packet, .. } = e {
            sent += 1;
            let GenericPacket::V5_0Publish(p) = packet else { return Err(bad("kind", &x, "another packet is sent")) };
            let ta = p.props().iter().find_map(|q| if let Property::TopicAlias(a) = q { Some(a.val()) } else { None });
            if p.topic_name() != topic && !(p.topic_name().is_empty() && ta.is_some()) {
                return Err(bad("topic", &x, "sent with the wrong topic"));
            }
            let want = 2 + p.topic_name().len() + idl + 1 + if ta.is_some() { 3 } else { 0 } + n;
            if want > MAX || p.size() != 5 + want {
                return Err(bad("size", &x, &format!("sent packet has size {} instead of {}", p.size(), 5 + want)));
            }
            let w = p.to_continuous_buffer();
            if w.len() != p.size() {
                return Err(bad("size", &x, "serialised length differs from the reported size"));
            }
        }
    }
    if (sent == 1) == err || sent > 1 {
        return Err(bad("send", &x, &format!("sent {sent} times, error {err}")));
    }
    if err && idl > 0 && !rel {
        return Err(bad("release", &x, "refused without releasing the packet id"));
    }
    Ok(sent as u64 + 2)
}

pub fn run(ctx: &mut Ctx) {
    let full = !ctx.quick();
    let mut cases = vec![];
    for server in [false, true] {
        for how in [How::Recv, How::MapNew, How::MapKnown, How::Replace, How::StoreManual, How::Plain] {
            for k in 0..9 {
                for len in [1, 4, 10] {
                    for q in 0..3 {
                        let edge = match how {
                            How::Recv | How::StoreManual => k == 0 || k + 1 == len || k == len,
                            How::Plain => k == 0,
                            _ => k == 0 || k == 3 || k == 4,
                        };
                        if !full && (server != (len == 4) || q == 1 || !edge || len == 10 && q == 0) {
                            continue;
                        }
                        cases.push(Case { how, server, k, len, qos: q });
                    }
                }
            }
        }
    }
    // each case needs about a gigabyte
    let sem = (Mutex::new(4usize), Condvar::new());
    enumerate(ctx, "PUBLISH at the maximum Remaining Length", cases.len(), |i| {
        let mut g = sem.0.lock().unwrap();
        while *g == 0 {
            g = sem.1.wait(g).unwrap();
        }
        *g -= 1;
        drop(g);
        let x = cases[i];
        let r = guarded(|| if x.server { drive(C::<Server>::new(Version::V5_0), x) } else { drive(C::<Client>::new(Version::V5_0), x) });
        *sem.0.lock().unwrap() += 1;
        sem.1.notify_one();
        match r {
            Ok(r) => r,
            Err(p) => Err(bad("panic", &x, &p)),
        }
    });
}
