//! C09: every partition of bounded byte streams into chunks, on the real connection.
//!
//! For a stream of N bytes there are 2^(N-1) partitions.  They are all covered by a dynamic
//! program over the nodes (byte position, full object state): from every reached node every next
//! chunk length is executed on the real object, and the events of every single `recv` call are
//! compared with those of feeding one whole packet at a time.
use crate::conn::*;
use crate::explore::*;
use crate::leafs::rich;
use crate::refcodec::*;
use crate::report::Ctx;
use crate::sys::*;
use crate::world::*;

struct Start {
    label: String,
    c: Box<dyn Conn>,
    alpha: Vec<(String, Vec<u8>)>,
}

fn starts() -> Vec<Start> {
    let mut o = vec![];
    for (role, ver) in [
        (RoleK::Client, Some(Ver::V3)),
        (RoleK::Client, Some(Ver::V5)),
        (RoleK::Server, Some(Ver::V3)),
        (RoleK::Server, Some(Ver::V5)),
        (RoleK::Server, None),
        (RoleK::Any, Some(Ver::V5)),
    ] {
        let v = ver.unwrap_or(Ver::V5);
        let s = Spec { role, ver, idw: 2 };
        let lim = if v == Ver::V5 { vec![rm(2), tam(1), mps(140)] } else { vec![] };
        let con = connect(v, true, 10, lim.clone());
        let cak = connack(v, false, 0, lim.clone());
        let client = role == RoleK::Client || role == RoleK::Any;
        let opts = vec![Call::AutoPub(true), Call::AutoPing(true)];
        let stages: Vec<(&str, Vec<Call>)> = if client {
            vec![
                ("fresh", vec![]),
                ("connecting", vec![Call::Send(con.clone())]),
                ("connected", vec![Call::Send(con.clone()), Call::RecvP(cak.clone())]),
                ("in flight", vec![Call::Send(con.clone()), Call::RecvP(cak.clone()), Call::Acquire, Call::Send(publish(v, 1, 1, "t", vec![])), Call::Acquire, Call::Send(publish(v, 2, 2, "t", vec![]))]),
                ("disconnected", vec![Call::Send(con.clone()), Call::RecvP(cak.clone()), Call::Send(disconnect(v, None))]),
            ]
        } else {
            vec![
                ("fresh", vec![]),
                ("connecting", vec![Call::RecvP(con.clone())]),
                ("connected", vec![Call::RecvP(con.clone()), Call::Send(cak.clone())]),
                ("in flight", vec![Call::RecvP(con.clone()), Call::Send(cak.clone()), Call::Acquire, Call::Send(publish(v, 1, 1, "t", vec![])), Call::Acquire, Call::Send(publish(v, 2, 2, "t", vec![]))]),
            ]
        };
        let mut alpha: Vec<(String, Vec<u8>)> = vec![];
        let mut add = |p: Pkt| alpha.push((short(&p), p.enc()));
        add(con.clone());
        add(cak.clone());
        add(publish(v, 0, 0, "t", vec![]));
        add(publish(v, 1, 1, "t", vec![]));
        add(publish(v, 2, 1, "t", vec![]));
        if v == Ver::V5 {
            add(publish(v, 0, 0, "", vec![alias(1)]));
            add(publish(v, 0, 0, "t", vec![alias(1)]));
        }
        add(ack(v, PUBACK, 1, None));
        add(ack(v, PUBREC, 2, None));
        add(ack(v, PUBREL, 1, None));
        if client {
            add(mk(v, 2, Body::Pingresp));
        } else {
            add(mk(v, 2, Body::Pingreq));
            add(subscribe(v));
        }
        add(disconnect(v, None));
        let mut raw = |n: &str, b: Vec<u8>| alpha.push((n.to_string(), b));
        let ping = if client { 0xd0 } else { 0xc0 };
        raw("Remaining Length of five bytes", vec![0x30, 0x80, 0xff, 0x80, 0xff]);
        raw("Remaining Length 0 in two bytes", vec![ping, 0x80, 0x00]);
        raw("Remaining Length 0 in four bytes", vec![ping, 0x80, 0x80, 0x80, 0x00]);
        raw("Remaining Length 2 in three bytes", vec![0x62, 0x82, 0x80, 0x00, 0, 1]);
        raw("malformed PUBLISH", vec![0x36, 0x05, 0, 1, b't', 0, 1]);
        raw("empty PUBACK", vec![0x40, 0x00]);
        raw("reserved type 0", vec![0x00, 0x01, 0x77]);
        raw("one-byte start of a frame", vec![0x30]);
        raw("start of a frame with an open Remaining Length", vec![0x30, 0x80]);
        for (n, calls) in stages {
            let mut c = make(s);
            for k in opts.iter().chain(calls.iter()) {
                c.call(k);
            }
            o.push(Start {
                label: format!("{role:?} {} {n}", match ver {
                    None => "undetermined",
                    Some(Ver::V3) => "v3.1.1",
                    Some(Ver::V5) => "v5.0",
                }),
                c,
                alpha: alpha.clone(),
            });
        }
    }
    o
}

/// All partitions whose cuts are in `cuts` (ascending, last = N).  Returns (recv calls, nodes).
fn check(init: &dyn Conn, bytes: &[u8], cuts: &[usize], digests: bool) -> Result<(u64, u64), Bad> {
    let n = bytes.len();
    // frames and the reference events
    let mut ends: Vec<(usize, bool, Vec<Ev>)> = vec![];
    let mut c = init.clone_box();
    let mut p = 0;
    let hexs = |b: &[u8]| if b.len() <= 120 { format!("{b:02x?}") } else { format!("{:02x?}.. ({} bytes)", &b[..40], b.len()) };
    let pan = |e: String| Bad::new("C09/panic", format!("panic: {e}; stream {}", hexs(bytes)));
    while p < n {
        let (e, badlen) = match frame_end(&bytes[p..]) {
            Frame::Incomplete => break,
            Frame::Complete(e) => (p + e, false),
            Frame::BadLength(e) => (p + e, true),
        };
        let (ev, used) = guarded(|| c.recv_at(&bytes[p..e], 0)).map_err(pan)?;
        if used != e - p {
            return Err(Bad::new("C09/whole-consumed", format!("a whole frame of {} bytes: recv consumed {used}; frame {}", e - p, hexs(&bytes[p..e]))));
        }
        if badlen && !ev.iter().any(|e| matches!(e, Ev::Err(_))) {
            return Err(Bad::new("C09/bad-length", format!("Remaining Length of more than four bytes not reported: {ev:?}; frame {}", hexs(&bytes[p..e]))));
        }
        if badlen && ev.iter().any(|e| matches!(e, Ev::Recv(_))) {
            return Err(Bad::new("C09/bad-length", format!("packet delivered from a frame without a length: {ev:?}")));
        }
        ends.push((e, badlen, ev));
        p = e;
    }
    let frame_of = |p: usize| ends.iter().position(|x| p < x.0);
    let mut nodes: Vec<Vec<(u128, Box<dyn Conn>)>> = cuts.iter().map(|_| vec![]).collect();
    let mut calls = 0u64;
    let mut count = 0u64;
    let mut start: Vec<(usize, Option<usize>)> = vec![(0, None)];
    start.extend(cuts.iter().enumerate().map(|(i, c)| (*c, Some(i))));
    for (pos, slot) in start {
        let here: Vec<(u128, Box<dyn Conn>)> = match slot {
            None => vec![(0, init.clone_box())],
            Some(i) => std::mem::take(&mut nodes[i]),
        };
        for (_, conn) in &here {
            count += 1;
            // an empty chunk is nothing
            {
                let mut x = conn.clone_box();
                let (ev, at) = guarded(|| x.recv_at(&bytes[..pos], pos)).map_err(pan)?;
                if !ev.is_empty() || at != pos {
                    return Err(Bad::new("C09/empty", format!("recv on an exhausted cursor at offset {pos}: {ev:?}, position {at}; stream {}", hexs(bytes))));
                }
            }
            for (qi, q) in cuts.iter().enumerate() {
                let q = *q;
                if q <= pos {
                    continue;
                }
                for offset in [false, true] {
                    if offset && (pos == 0 || !digests) {
                        continue;
                    }
                    let base = if offset { 0 } else { pos };
                    let mut x = conn.clone_box();
                    let mut p = pos;
                    while p < q {
                        calls += 1;
                        let (ev, at) = guarded(|| x.recv_at(&bytes[base..q], p - base)).map_err(pan)?;
                        let at = at + base;
                        let f = frame_of(p);
                        let full = f.map(|f| ends[f].0).filter(|e| *e <= q);
                        let want = full.unwrap_or(q);
                        let none = vec![];
                        let wev = match (f, full) {
                            (Some(f), Some(_)) => &ends[f].2,
                            _ => &none,
                        };
                        if at != want || ev != *wev {
                            let kind = if at > want && at <= q {
                                "swallowed"
                            } else if at != want {
                                "position"
                            } else if wev.is_empty() {
                                "early"
                            } else if ev.is_empty() {
                                "lost"
                            } else {
                                "events"
                            };
                            return Err(Bad::new(
                                format!("C09/{kind}"),
                                format!(
                                    "stream {}\nframes end at {:?}\nthe chunk [{pos}..{q}) was fed; recv at offset {p} stopped at {at} (expected {want}) with events\n   {ev:?}\nfeeding whole packets gives\n   {wev:?}",
                                    hexs(bytes),
                                    ends.iter().map(|e| e.0).collect::<Vec<_>>()
                                ),
                            ));
                        }
                        p = at;
                    }
                    let d = if digests { x.digest() } else { 0 };
                    if !nodes[qi].iter().any(|k| k.0 == d) && nodes[qi].len() < 64 {
                        nodes[qi].push((d, x));
                    }
                }
            }
        }
    }
    Ok((calls, count))
}

pub fn run(ctx: &mut Ctx) {
    let quick = ctx.quick();
    let st = starts();
    // every sequence of frames
    for s in &st {
        let n = s.alpha.len();
        let deep = if quick { s.label.ends_with("connected") || s.label.ends_with("undetermined fresh") } else { true };
        let mut idx: Vec<Vec<usize>> = vec![];
        for a in 0..n {
            idx.push(vec![a]);
            for b in 0..n {
                idx.push(vec![a, b]);
                if deep {
                    for c in 0..n {
                        let three = !quick || (a + b + c) % 3 == 0 || a == b;
                        if three {
                            idx.push(vec![a, b, c]);
                        }
                    }
                }
            }
        }
        enumerate_multi(ctx, &format!("C09:{} all partitions of frame sequences", s.label), idx.len(), |i, k| {
            let mut bytes = vec![];
            for f in &idx[i] {
                bytes.extend_from_slice(&s.alpha[*f].1);
            }
            let cuts: Vec<usize> = (1..=bytes.len()).collect();
            match check(&*s.c, &bytes, &cuts, true) {
                Ok((c, nodes)) => {
                    k.ok(h128(&(bytes.len(), nodes)) as u64);
                    k.cases += c - 1;
                }
                Err(mut b) => {
                    b.msg = format!("{} ({}): {}", s.label, idx[i].iter().map(|f| s.alpha[*f].0.as_str()).collect::<Vec<_>>().join(" | "), b.msg);
                    k.bad(b)
                }
            }
        });
    }
    // every packet kind in its rich form, all partitions
    for s in st.iter().filter(|s| s.label.ends_with(" connected") || s.label.ends_with("fresh")) {
        let v = if s.label.contains("v3.1.1") { Ver::V3 } else { Ver::V5 };
        let ps: Vec<Pkt> = (1..=15u8).filter(|t| v == Ver::V5 || *t < 15).flat_map(|t| rich(v, t, 2)).collect();
        enumerate_multi(ctx, &format!("C09:{} every packet kind, all partitions", s.label), ps.len() * 3, |i, k| {
            let mut bytes = ps[i / 3].enc();
            match i % 3 {
                1 => {
                    let l = bytes.len() - 1;
                    bytes[l] ^= 0x55;
                    bytes.extend_from_slice(&[0xc0, 0]);
                }
                2 => {
                    let mut b = vec![0x30, 0x80, 0x80, 0x80, 0x80];
                    b.extend_from_slice(&bytes);
                    bytes = b;
                }
                _ => {}
            }
            let cuts: Vec<usize> = (1..=bytes.len()).collect();
            match check(&*s.c, &bytes, &cuts, true) {
                Ok((c, nodes)) => {
                    k.ok(h128(&(bytes.len(), nodes)) as u64);
                    k.cases += c - 1;
                }
                Err(mut b) => {
                    b.msg = format!("{} ({}): {}", s.label, short(&ps[i / 3]), b.msg);
                    k.bad(b)
                }
            }
        });
    }
    // all headers: every first byte, every Remaining Length spelling
    {
        let s = st.iter().find(|s| s.label == "Client v5.0 connected").unwrap();
        let conts = [0x80u8, 0x81, 0xff];
        let mut lens: Vec<Vec<u8>> = vec![];
        for last in [0u8, 1, 2, 5] {
            lens.push(vec![last]);
        }
        for a in [0x80u8, 0x81, 0x83] {
            for z in [0u8, 1] {
                lens.push(vec![a, z]);
                lens.push(vec![a, 0x80, z]);
                lens.push(vec![a, 0x80, 0x80, z & 0]);
            }
            for b in conts {
                for c in conts {
                    for d in conts {
                        lens.push(vec![a, b, c, d]);
                    }
                }
            }
        }
        enumerate_multi(ctx, "C09:every first byte and Remaining Length spelling, all partitions", 256 * lens.len(), |i, k| {
            let mut bytes = vec![(i / lens.len()) as u8];
            bytes.extend_from_slice(&lens[i % lens.len()]);
            let rl: usize = match frame_end(&bytes) {
                Frame::BadLength(_) => 0,
                _ => lens[i % lens.len()].iter().enumerate().map(|(n, x)| ((x & 0x7f) as usize) << (7 * n)).sum(),
            };
            bytes.extend(std::iter::repeat(0u8).take(rl));
            bytes.extend_from_slice(&[0xd0, 0x00, 0x30]);
            let cuts: Vec<usize> = if bytes.len() < 24 { (1..=bytes.len()).collect() } else { let n = bytes.len(); vec![1, 2, 3, 4, 5, 6, n / 2, n - 4, n - 3, n - 2, n - 1, n] };
            match check(&*s.c, &bytes, &cuts, true) {
                Ok((c, nodes)) => {
                    k.ok(h128(&(bytes.len(), nodes)) as u64);
                    k.cases += c - 1;
                }
                Err(b) => k.bad(b),
            }
        });
    }
    // sizes at which the Remaining Length grows
    {
        let mut cases: Vec<(&Start, usize)> = vec![];
        for s in st.iter().filter(|s| s.label.ends_with("v3.1.1 connected") || s.label == "Server v5.0 connected") {
            for rl in [126usize, 127, 128, 129, 16382, 16383, 16384, 16385, 2097151, 2097152] {
                if s.label.starts_with("Client") || rl < 2_000_000 || !quick {
                    cases.push((s, rl));
                }
            }
        }
        enumerate_multi(ctx, "C09:Remaining Length boundaries, restricted cut positions", cases.len(), |i, k| {
            let (s, rl) = cases[i];
            let v = if s.label.contains("v3.1.1") { Ver::V3 } else { Ver::V5 };
            let over = if v == Ver::V5 { 4 } else { 3 };
            let p = publish_pl(v, 0, 0, "t", vec![], rl - over);
            let mut bytes = p.enc();
            let e = bytes.len();
            let ping = if s.label.starts_with("Client") { 0xd0 } else { 0xc0 };
            bytes.extend_from_slice(&[ping, 0, 0x30, 3, 0, 1, b'u']);
            let n = bytes.len();
            let mut cuts = vec![1, 2, 3, 4, 5, 6, 7, 8, 100, 127, 128, 129, 130, 131, e / 2, e - 2, e - 1, e, e + 1, e + 2, n - 1, n];
            cuts.retain(|c| *c <= n);
            cuts.sort();
            cuts.dedup();
            match check(&*s.c, &bytes, &cuts, rl < 20000) {
                Ok((c, nodes)) => {
                    k.ok(h128(&(bytes.len(), nodes)) as u64);
                    k.cases += c - 1;
                }
                Err(mut b) => {
                    b.msg = format!("{} RL={rl}: {}", s.label, b.msg);
                    k.bad(b)
                }
            }
        });
    }
    ctx.bounds.push("frame sequences: all of length 1 and 2, and of length 3 from the connected states (thorough: from all states); every partition of each stream".into());
}
