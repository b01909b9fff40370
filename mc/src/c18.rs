//! C18: property x location x multiplicity x value x context, builder and parser against the table
//! of MQTT v5.0 2.2.2.2.
use crate::bridge::*;
use crate::codec::{hex, trunc};
use crate::explore::*;
use crate::refcodec::*;
use crate::report::Ctx;
use crate::space::*;
use crate::sys::short;
use mqtt_protocol_core::mqtt;
use mqtt::packet::IntoPacketId;

const LOCS: [u8; 14] = [1, WILL, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15];
fn lname(l: u8) -> String {
    if l == WILL {
        "will".into()
    } else {
        kind_name(l).to_lowercase()
    }
}
/// a packet whose section `loc` can be filled with properties, in every context that differs
fn contexts(loc: u8, w: u8) -> Vec<Pkt> {
    let mk = |b| Pkt { ver: Ver::V5, idw: w, b };
    let conn = |clean, will: Option<Will>, user: Option<&str>| {
        mk(Body::Connect { clean, keep_alive: 10, client_id: "c".into(), will, user: user.map(|s| s.to_string()), pass: user.map(|_| vec![1]), props: vec![] })
    };
    let wl = |qos, retain| Will { qos, retain, topic: "w".into(), payload: vec![1, 2], props: vec![] };
    match loc {
        1 => vec![conn(true, None, None), conn(false, None, Some("u")), conn(true, Some(wl(1, true)), Some("u"))],
        WILL => vec![conn(true, Some(wl(0, false)), None), conn(false, Some(wl(2, true)), Some("u"))],
        2 => vec![mk(Body::Connack { sp: false, code: 0, props: vec![] }), mk(Body::Connack { sp: true, code: 0, props: vec![] }), mk(Body::Connack { sp: false, code: 0x87, props: vec![] })],
        3 => (0..3u8)
            .map(|q| mk(Body::Publish { dup: q == 2, qos: q, retain: q == 1, topic: "t".into(), id: if q > 0 { Some(1) } else { None }, props: vec![], payload: vec![b'p'; q as usize] }))
            .collect(),
        4..=7 => spec_codes(Ver::V5, loc).iter().map(|c| mk(Body::Ack { kind: loc, id: 1, code: Some(*c), props: Some(vec![]) })).collect(),
        8 => vec![
            mk(Body::Subscribe { id: 1, props: vec![], entries: vec![("a".into(), 0)] }),
            mk(Body::Subscribe { id: 2, props: vec![], entries: vec![("a/#".into(), 1), ("$share/g/b".into(), 2)] }),
        ],
        9 => vec![mk(Body::Suback { id: 1, props: vec![], codes: vec![0] }), mk(Body::Suback { id: 2, props: vec![], codes: vec![0x80, 2] })],
        10 => vec![mk(Body::Unsubscribe { id: 1, props: vec![], topics: vec!["a".into()] })],
        11 => vec![mk(Body::Unsuback { id: 1, props: vec![], codes: vec![0] }), mk(Body::Unsuback { id: 2, props: vec![], codes: vec![0x11, 0x87] })],
        14 => spec_codes(Ver::V5, 14).iter().map(|c| mk(Body::Disconnect { code: Some(*c), props: Some(vec![]) })).collect(),
        _ => spec_codes(Ver::V5, 15).iter().map(|c| mk(Body::Auth { code: Some(*c), props: Some(vec![]) })).collect(),
    }
}
fn with_props(p: &Pkt, loc: u8, ps: &[Prop]) -> Pkt {
    let mut q = p.clone();
    if loc == WILL {
        if let Body::Connect { will: Some(w), .. } = &mut q.b {
            w.props = ps.to_vec();
        }
    } else if let Some(v) = q.props_mut() {
        *v = ps.to_vec();
    }
    q
}
/// What the specification says about this list in this location; None: not decided by the table
/// (authentication data without a method is forbidden by another rule)
fn expect(ps: &[Prop], loc: u8) -> Option<bool> {
    for (n, p) in ps.iter().enumerate() {
        if !prop_allowed(p.id, loc) || !prop_value_ok(p) {
            return Some(false);
        }
        if ps[..n].iter().any(|q| q.id == p.id) && !prop_repeatable(p.id, loc) {
            return Some(false);
        }
    }
    let has = |id| ps.iter().any(|p| p.id == id);
    if loc == 15 && !has(P_AUTH_METHOD) || has(P_AUTH_DATA) && !has(P_AUTH_METHOD) {
        return None;
    }
    Some(true)
}
fn why(ps: &[Prop], loc: u8) -> String {
    for (n, p) in ps.iter().enumerate() {
        if !prop_allowed(p.id, loc) {
            return format!("{:#04x}-not-allowed", p.id);
        }
        if !prop_value_ok(p) {
            return format!("{:#04x}-value", p.id);
        }
        if ps[..n].iter().any(|q| q.id == p.id) && !prop_repeatable(p.id, loc) {
            return format!("{:#04x}-repeated", p.id);
        }
    }
    match ps.first() {
        Some(p) => format!("{:#04x}-allowed", p.id),
        None => "none".into(),
    }
}
fn one<P: Pid + IntoPacketId<P>>(ctx: &Pkt, loc: u8, ps: &[Prop], s: &mut Sink) {
    let p = with_props(ctx, loc, ps);
    let want = expect(ps, loc);
    let b = guarded(|| to_lib::<P>(&p));
    let body = p.body();
    let d = guarded(|| parse_lib::<P>(Ver::V5, p.first(), &body).map(|r| r.map(|x| from_lib(&x.0))));
    let (b, d) = match (b, d) {
        (Ok(b), Ok(d)) => (b, d),
        (b, d) => {
            s.bad(Bad::new(format!("C18/panic/{}", lname(loc)), trunc(format!("panic: {:?} / {:?}; {}", b.map(|_| ()), d.map(|_| ()), short(&p)))));
            return;
        }
    };
    let d = d.unwrap_or(Err(mqtt::result_code::MqttError::MalformedPacket));
    let show = |r: &Result<Pkt, _>| match r {
        Ok(_) => "accepted".to_string(),
        Err(e) => format!("refused with {:?}", e as &mqtt::result_code::MqttError),
    };
    let bl = b.map(|g| from_lib(&g));
    let tell = |what: &str| trunc(format!("{what}: {} in {} ({}); body {}", ps.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(", "), lname(loc), short(&p), hex(&body)));
    if let Some(w) = want {
        if bl.is_ok() != w {
            s.bad(Bad::new(format!("C18/builder/{}/{}", lname(loc), why(ps, loc)), tell(&format!("builder {}, the specification {} it", show(&bl), if w { "allows" } else { "forbids" }))));
            return;
        }
        if d.is_ok() != w {
            s.bad(Bad::new(format!("C18/parser/{}/{}", lname(loc), why(ps, loc)), tell(&format!("parser {}, the specification {} it", show(&d), if w { "allows" } else { "forbids" }))));
            return;
        }
    }
    if bl.is_ok() != d.is_ok() {
        s.bad(Bad::new(format!("C18/disagree/{}/{}", lname(loc), why(ps, loc)), tell(&format!("builder {}, parser {}", show(&bl), show(&d)))));
        return;
    }
    if let (Ok(x), Ok(y)) = (&bl, &d) {
        if x != &p || y != &p {
            s.bad(Bad::new(format!("C18/content/{}", lname(loc)), tell(&format!("builder made {}, parser made {}", short(x), short(y)))));
            return;
        }
    }
    s.ok(h128(&(loc, bl.is_ok(), ps.iter().map(|p| p.id).collect::<Vec<_>>())) as u64);
}
fn both(w: u8, ctx: &Pkt, loc: u8, ps: &[Prop], s: &mut Sink) {
    if w == 2 {
        one::<u16>(ctx, loc, ps, s)
    } else {
        one::<u32>(ctx, loc, ps, s)
    }
}
/// every value of a property worth telling apart, legal or not
fn values(id: u8) -> Vec<Prop> {
    let v: Vec<PV> = match prop_type(id).unwrap() {
        PT::Byte => (0..=255u8).map(PV::U8).collect(),
        PT::U16 => (0..=65535u16).filter(|x| *x < 600 || x % 251 == 0 || *x > 65000).map(PV::U16).collect(),
        PT::U32 => {
            let mut v: Vec<u32> = (0..300).collect();
            for b in 8..32 {
                for d in [-1i64, 0, 1] {
                    v.push(((1i64 << b) + d) as u32);
                }
            }
            v.push(u32::MAX);
            v.push(u32::MAX - 1);
            v.into_iter().map(PV::U32).collect()
        }
        PT::Vbi => {
            let mut v: Vec<u32> = (0..300).collect();
            for b in 8..28 {
                for d in [-1i64, 0, 1] {
                    v.push(((1i64 << b) + d) as u32);
                }
            }
            v.push(268_435_455);
            v.retain(|x| *x <= 268_435_455);
            v.into_iter().map(PV::Vbi).collect()
        }
        PT::Str => ["", "a", "日本", "x/y", "\u{10FFFF}"].iter().map(|s| PV::Str(s.to_string())).collect(),
        PT::Bin => vec![PV::Bin(vec![]), PV::Bin(vec![0]), PV::Bin(vec![255; 200])],
        PT::Pair => vec![PV::Pair("k".into(), "v".into()), PV::Pair("".into(), "".into()), PV::Pair("k".into(), "".into())],
    };
    v.into_iter().map(|v| Prop { id, v }).collect()
}
/// two legal, different values
fn two(id: u8) -> Vec<Prop> {
    let mut v = prop_values(id, true);
    v.truncate(2);
    v
}

pub fn run(ctx: &mut Ctx) {
    let quick = ctx.quick();
    let ids: Vec<u8> = PROP_TABLE.iter().map(|e| e.0).collect();
    // (loc, width, context)
    let mut cx: Vec<(u8, u8, Pkt)> = vec![];
    for l in LOCS {
        for w in [2u8, 4] {
            for c in contexts(l, w) {
                cx.push((l, w, c));
            }
        }
    }
    let n = cx.len();
    enumerate_multi(ctx, "single properties: every id x every value class x every context", n * ids.len(), |u, s| {
        let (l, w, c) = &cx[u / ids.len()];
        let id = ids[u % ids.len()];
        for v in values(id) {
            both(*w, c, *l, &[v.clone()], s);
            // next to the property that makes authentication data legal
            if prop_allowed(P_AUTH_METHOD, *l) && id != P_AUTH_METHOD {
                both(*w, c, *l, &[Prop { id: P_AUTH_METHOD, v: PV::Str("m".into()) }, v.clone()], s);
                both(*w, c, *l, &[v, Prop { id: P_AUTH_METHOD, v: PV::Str("m".into()) }], s);
            }
        }
    });
    enumerate_multi(ctx, "ordered pairs: 27 x 27 ids x two values each x every context", n * ids.len(), |u, s| {
        let (l, w, c) = &cx[u / ids.len()];
        for a in two(ids[u % ids.len()]) {
            for j in &ids {
                for b in two(*j) {
                    both(*w, c, *l, &[a.clone(), b], s);
                }
            }
        }
    });
    // the first contexts of every location
    let few: Vec<(u8, u8, Pkt)> = LOCS.iter().flat_map(|l| contexts(*l, 2).into_iter().take(if quick { 1 } else { 3 }).map(move |c| (*l, 2u8, c))).collect();
    let m = ids.len() * ids.len();
    enumerate_multi(ctx, "ordered triples: 27 x 27 x 27 ids", few.len() * m, |u, s| {
        let (l, w, c) = &few[u / m];
        let (i, j) = (ids[u % m / ids.len()], ids[u % m % ids.len()]);
        for k in &ids {
            let pick = |id: u8| prop_values(id, false).remove(0);
            let mut t = vec![pick(i), pick(j), pick(*k)];
            both(*w, c, *l, &t, s);
            // a repetition among all the legal ones, in different values
            let alt = two(*k).pop().unwrap();
            if alt != t[2] {
                t[2] = alt;
                both(*w, c, *l, &t, s);
            }
        }
    });
    if !quick {
        enumerate_multi(ctx, "ordered quadruples: 27^4 ids", few.len() * m, |u, s| {
            let (l, w, c) = &few[u / m];
            let (i, j) = (ids[u % m / ids.len()], ids[u % m % ids.len()]);
            let pick = |id: u8| prop_values(id, false).remove(0);
            for k in &ids {
                for n in &ids {
                    both(*w, c, *l, &[pick(i), pick(j), pick(*k), pick(*n)], s);
                }
            }
        });
    }
    // a full legal list with one more property inserted at every place
    enumerate_multi(ctx, "every legal property at once, one more inserted anywhere, one left out", n * ids.len(), |u, s| {
        let (l, w, c) = &cx[u / ids.len()];
        let x = ids[u % ids.len()];
        let mut all: Vec<Prop> = allowed_props(*l).into_iter().map(|i| prop_values(i, false).remove(0)).collect();
        for _ in 0..2 {
            both(*w, c, *l, &all, s);
            for v in two(x) {
                for at in 0..=all.len() {
                    let mut t = all.clone();
                    t.insert(at, v.clone());
                    both(*w, c, *l, &t, s);
                }
            }
            for at in 0..all.len() {
                let mut t = all.clone();
                t.remove(at);
                both(*w, c, *l, &t, s);
                // ... and replaced by an illegal one
                let mut t = all.clone();
                t[at] = two(x).remove(0);
                both(*w, c, *l, &t, s);
            }
            all.reverse();
        }
    });
    // CONNECT: both sections at once
    let conn = contexts(WILL, 2).remove(1);
    enumerate_multi(ctx, "CONNECT section x will section", ids.len() * ids.len(), |u, s| {
        let (i, j) = (ids[u / ids.len()], ids[u % ids.len()]);
        for a in two(i) {
            for b in two(j) {
                // judged through the section whose content is illegal, if any
                let (pa, pb) = (vec![a.clone()], vec![b.clone()]);
                let full = with_props(&with_props(&conn, 1, &pa), WILL, &pb);
                match (expect(&pa, 1), expect(&pb, WILL)) {
                    (Some(true), _) => both(2, &with_props(&conn, 1, &pa), WILL, &pb, s),
                    (_, Some(true)) => both(2, &with_props(&conn, WILL, &pb), 1, &pa, s),
                    _ => {
                        let r = guarded(|| (to_lib::<u16>(&full).is_ok(), parse_lib::<u16>(Ver::V5, full.first(), &full.body()).map(|r| r.is_ok()).unwrap_or(false)));
                        match r {
                            Ok((false, false)) => s.ok(0),
                            o => s.bad(Bad::new("C18/connect-both", trunc(format!("{o:?} for {}", short(&full))))),
                        }
                    }
                }
            }
        }
    });
    // property identifiers that do not exist, and truncated / overlong property sections
    enumerate_multi(ctx, "undefined property identifiers", few.len() * 256, |u, s| {
        let (l, _, c) = &few[u / 256];
        let id = (u % 256) as u8;
        if prop_type(id).is_some() {
            s.ok(0);
            return;
        }
        for tail in [&[][..], &[0], &[0, 0], &[0, 1, b'a'], &[0, 0, 0, 1], &[0, 1, b'a', 0, 1, b'b']] {
            // encode with a user property as a placeholder, then patch the bytes
            let mark = Prop { id: P_USER, v: PV::Pair("MARKER".into(), "MARKER".into()) };
            let p = with_props(c, *l, &[mark.clone()]);
            let body = p.body();
            let mut enc = vec![];
            enc_props(&mut enc, &[mark]);
            let at = match body.windows(enc.len()).position(|x| x == &enc[..]) {
                Some(a) => a,
                None => {
                    s.ok(1);
                    continue;
                }
            };
            let mut nb = body[..at].to_vec();
            nb.push(1 + tail.len() as u8);
            nb.push(id);
            nb.extend_from_slice(tail);
            nb.extend_from_slice(&body[at + enc.len()..]);
            match guarded(|| parse_lib::<u16>(Ver::V5, p.first(), &nb).map(|r| r.is_ok()).unwrap_or(false)) {
                Ok(false) => s.ok(2),
                Ok(true) => s.bad(Bad::new(format!("C18/parser/{}/undefined-id", lname(*l)), trunc(format!("property identifier {id:#04x} accepted: {}", hex(&nb))))),
                Err(e) => s.bad(Bad::new(format!("C18/panic/{}", lname(*l)), trunc(format!("panic {e}: {}", hex(&nb))))),
            }
        }
    });
    ctx.bounds.push("27 properties x 14 locations (13 packet kinds and the will section) x every context (reason codes, flags, QoS, id width) x single values over the whole byte range / boundary values, ordered pairs with two values, ordered triples, full lists with insertion, removal and replacement at every position; 229 undefined identifiers".into());
}
