//! C04: every parser on bounded-exhaustive byte strings and on every bounded mutation of valid
//! encodings; the UTF-8 string decoder on all short contents in every string position.
use crate::bridge::*;
use crate::codec::{header, hex, trunc};
use crate::explore::*;
use crate::refcodec::*;
use crate::report::Ctx;
use crate::space::*;
use crate::sys::short;
use mqtt_protocol_core::mqtt;
use mqtt::packet::{GenericPacketTrait, IntoPacketId};
use std::collections::HashSet;

fn kn(ver: Ver, first: u8) -> String {
    format!("{}-{}", kind_name(first >> 4).to_lowercase(), if ver == Ver::V3 { "v3" } else { "v5" })
}

fn strings_ok(p: &Pkt) -> bool {
    let ok = |s: &String| std::str::from_utf8(s.as_bytes()).is_ok() && !s.as_bytes().contains(&0);
    let props_ok = |ps: &[Prop]| {
        ps.iter().all(|p| match &p.v {
            PV::Str(s) => ok(s),
            PV::Pair(a, b) => ok(a) && ok(b),
            _ => true,
        })
    };
    (match &p.b {
        Body::Connect { client_id, will, user, .. } => {
            ok(client_id) && user.as_ref().map(ok).unwrap_or(true) && will.as_ref().map(|w| ok(&w.topic) && props_ok(&w.props)).unwrap_or(true)
        }
        Body::Publish { topic, .. } => ok(topic),
        Body::Subscribe { entries, .. } => entries.iter().all(|e| ok(&e.0)),
        Body::Unsubscribe { topics, .. } => topics.iter().all(ok),
        _ => true,
    }) && props_ok(p.props())
}

/// One parser call with every consequence C04 states.  Ok(outcome class).
pub fn check<P: Pid + IntoPacketId<P>>(ver: Ver, first: u8, body: &[u8], c03: bool) -> Result<u64, Bad> {
    let tag = if c03 { "C03" } else { "C04" };
    let r = guarded(|| -> Result<u64, (&'static str, String)> {
        match parse_lib::<P>(ver, first, body) {
            None => Ok(0),
            Some(Err(e)) => {
                if c03 {
                    if let Ok(p) = decode_body(first, body, ver, P::W) {
                        if codes_ok(&p) && !known_reject(&p) {
                            return Err(("decode-rejects", format!("spec-conformant encoding rejected with {e:?}: it means {}", short(&p))));
                        }
                    }
                }
                Ok(1 + (e as u64) * 8)
            }
            Some(Ok((q, n))) => {
                let f = from_lib(&q);
                if c03 {
                    if let Ok(p) = decode_body(first, body, ver, P::W) {
                        if codes_ok(&p) && (f != p || n != body.len()) {
                            return Err(("decode", format!("spec-conformant encoding parsed as {} ({n} bytes), it means {}", short(&f), short(&p))));
                        }
                    }
                    return Ok(2);
                }
                if n > body.len() {
                    return Err(("overrun", format!("claims {n} of {} bytes", body.len())));
                }
                // what was consumed must be a packet by the reference decoder's rules too.  Not
                // judged: what the builders allow as well (a reason code in v3.1.1 acknowledgements,
                // an empty filter) and a missing Property Length at the very end, read as 0.
                if !(ver == Ver::V3 && matches!(f.b, Body::Ack { code: Some(_), .. })) {
                    match decode_body(first, &body[..n], ver, P::W) {
                        Err(_) if matches!(f.b, Body::Auth { code: Some(_), props: None }) => {}
                        Err(e) if e == "empty topic filter" || e == "shared subscription" => {}
                        Err(_) if ver == Ver::V5 && n == body.len() && decode_body(first, &[body, &[0]].concat(), ver, P::W).as_ref() == Ok(&f) => {}
                        Err(e) => return Err(("accepts", format!("accepts as {} what is malformed: {e}", short(&f)))),
                        Ok(p) if p != f => return Err(("accepts-as", format!("accepts as {} what means {}", short(&f), short(&p)))),
                        _ => {}
                    }
                }
                let bytes = q.to_continuous_buffer();
                if q.size() != bytes.len() {
                    return Err(("size", format!("size() = {}, serialisation has {} bytes: {}", q.size(), bytes.len(), hex(&bytes))));
                }
                let mut v = vec![];
                for s in q.to_buffers() {
                    v.extend_from_slice(&s);
                }
                if v != bytes {
                    return Err(("vectored", format!("vectored serialisation {} differs from contiguous {}", hex(&v), hex(&bytes))));
                }
                let (h, rl) = match header(&bytes) {
                    Some(x) => x,
                    None => return Err(("rl", format!("no valid Remaining Length in {}", hex(&bytes)))),
                };
                if h + rl != bytes.len() || vbi_len(rl) + 1 != h {
                    return Err(("rl", format!("Remaining Length {rl} in {} bytes, {} body bytes: {}", h - 1, bytes.len() - h, hex(&bytes))));
                }
                match parse_lib::<P>(ver, bytes[0], &bytes[h..]) {
                    Some(Ok((q2, n2))) if bytes[0] >> 4 == first >> 4 => {
                        if q2 != q {
                            return Err(("reparse", format!("its serialisation {} parses to a different packet {}", hex(&bytes), short(&from_lib(&q2)))));
                        }
                        if n2 != rl {
                            return Err(("reparse-length", format!("its serialisation {} is consumed only up to {n2}", hex(&bytes))));
                        }
                        if from_lib(&q2) != f {
                            return Err(("reparse-fields", format!("its serialisation {} parses to fields {}", hex(&bytes), short(&from_lib(&q2)))));
                        }
                    }
                    o => return Err(("reparse", format!("its serialisation {} is not parsed back: {:?}", hex(&bytes), o.map(|x| x.map(|_| ()))))),
                }
                if !strings_ok(&f) {
                    return Err(("string", format!("ill-formed string accepted: {}", short(&f))));
                }
                match to_lib::<P>(&f) {
                    Err(e) => return Err(("structure", format!("accepted, but the builder refuses the same fields with {e:?}: {}", short(&f)))),
                    Ok(g) => {
                        // (the AUTH builder documents that it always adds a property length)
                        let auth = matches!(f.b, Body::Auth { code: Some(_), props: None });
                        if g != q && !auth {
                            return Err(("canonical", format!("accepted as {}, which the builder builds differently: {} vs {}", short(&f), hex(&bytes), hex(&g.to_continuous_buffer()))));
                        }
                    }
                }
                let _ = format!("{q}");
                Ok(2 + 8 * bytes.len() as u64)
            }
        }
    });
    let input = || format!("input: first byte {first:#04x}, body {}", hex(body));
    match r {
        Err(e) => Err(Bad::new(format!("{tag}/panic/{}", kn(ver, first)), format!("panic: {e}; {}", input()))),
        Ok(Err((s, m))) => Err(Bad::new(format!("{tag}/{s}/{}", kn(ver, first)), trunc(format!("{m}; {}", input())))),
        Ok(Ok(x)) => Ok(x),
    }
}
/// listed findings about builders AND parsers refusing something legal (see known_findings.txt)
fn known_reject(p: &Pkt) -> bool {
    matches!(&p.b, Body::Connect { pass: Some(_), user: None, .. } if p.ver == Ver::V5)
}
fn chk(w: u8, ver: Ver, first: u8, body: &[u8], c03: bool) -> Result<u64, Bad> {
    if w == 2 {
        check::<u16>(ver, first, body, c03)
    } else {
        check::<u32>(ver, first, body, c03)
    }
}

/// one representative of every packet shape (first byte, lengths, property ids, connect flags)
pub fn bases(ver: Ver, t: u8, w: u8, max_body: usize) -> Vec<(u8, Vec<u8>)> {
    let mut seen = HashSet::new();
    let mut o = vec![];
    for p in space(ver, t, w, true) {
        if !spec_valid(&p) {
            continue;
        }
        let b = p.body();
        if b.len() > max_body {
            continue;
        }
        let sk = (
            p.first(),
            b.len(),
            p.props().iter().map(|x| x.id).collect::<Vec<_>>(),
            match &p.b {
                Body::Connect { will, client_id, .. } => (b[7], will.as_ref().map(|w| w.props.iter().map(|x| x.id).collect::<Vec<_>>()), client_id.len()),
                Body::Subscribe { entries, .. } => (0, None, entries.len()),
                Body::Ack { code, .. } => (code.is_some() as u8, None, 0),
                Body::Publish { topic, payload, .. } => (topic.len() as u8, None, payload.len()),
                _ => (0, None, 0),
            },
        );
        if seen.insert(sk) {
            o.push((p.first(), b));
        }
    }
    o
}

const INTERESTING: [u8; 20] = [0, 1, 2, 3, 4, 5, 7, 0x0b, 0x0f, 0x10, 0x1f, 0x23, 0x26, 0x2b, 0x61, 0x7f, 0x80, 0x81, 0xc2, 0xff];

/// every mutation of one base; f(first, body)
fn mutations(first: u8, b: &[u8], deep: bool, f: &mut dyn FnMut(u8, &[u8])) {
    let mut v: Vec<u8> = Vec::with_capacity(b.len() + 4);
    // truncations, under every PUBLISH flag nibble
    let flags: Vec<u8> = if first >> 4 == 3 { (0..16u8).map(|x| 0x30 | x).collect() } else { vec![first] };
    for fl in flags {
        for n in 0..=b.len() {
            f(fl, &b[..n]);
        }
    }
    for i in 0..b.len() {
        v.clear();
        v.extend_from_slice(b);
        for x in 0..=255u8 {
            v[i] = x;
            f(first, &v);
        }
    }
    for x in INTERESTING {
        for i in 0..=b.len() {
            v.clear();
            v.extend_from_slice(&b[..i]);
            v.push(x);
            v.extend_from_slice(&b[i..]);
            f(first, &v);
        }
        for y in INTERESTING {
            v.clear();
            v.extend_from_slice(b);
            v.push(x);
            v.push(y);
            f(first, &v);
        }
    }
    for i in 0..b.len() {
        for j in i + 1..=b.len().min(i + 3) {
            v.clear();
            v.extend_from_slice(&b[..i]);
            v.extend_from_slice(&b[j..]);
            f(first, &v);
        }
    }
    // one byte changed and then cut anywhere after it
    for i in 0..b.len() {
        for x in INTERESTING {
            v.clear();
            v.extend_from_slice(b);
            v[i] = x;
            for n in i + 1..b.len() {
                f(first, &v[..n]);
            }
        }
    }
    // two bytes changed
    if deep || b.len() <= 12 {
        for i in 0..b.len() {
            for j in i + 1..b.len() {
                v.clear();
                v.extend_from_slice(b);
                for x in INTERESTING {
                    for y in INTERESTING {
                        v[i] = x;
                        v[j] = y;
                        f(first, &v);
                    }
                }
            }
        }
    }
}

const CLASS: [u8; 26] = [
    0x00, 0x01, 0x1f, 0x2b, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf3, 0xf4, 0xf5,
];

/// (first byte, before, after) templates around one string's content; the content's two length
/// bytes are inserted between `before` and the content
fn string_slots(ver: Ver, quick: bool) -> Vec<(&'static str, u8, Vec<u8>, Vec<u8>)> {
    let v5 = ver == Ver::V5;
    let mut o: Vec<(&'static str, u8, Vec<u8>, Vec<u8>)> = vec![];
    let lvl = if v5 { 5 } else { 4 };
    let conn = |fl: u8| {
        let mut c = b"\0\x04MQTT".to_vec();
        c.extend([lvl, fl, 0, 10]);
        if v5 {
            c.push(0);
        }
        c
    };
    o.push(("client-id", 0x10, conn(2), vec![]));
    let mut b = conn(0x82);
    b.extend(b"\0\x01c");
    o.push(("user-name", 0x10, b, vec![]));
    let mut b = conn(6);
    b.extend(b"\0\x01c");
    if v5 {
        b.push(0);
    }
    o.push(("will-topic", 0x10, b, vec![0, 1, b'p']));
    o.push(("topic", 0x30, vec![], if v5 { vec![0, b'x'] } else { vec![b'x'] }));
    o.push(("filter", 0x82, if v5 { vec![0, 1, 0] } else { vec![0, 1] }, vec![0]));
    o.push(("unfilter", 0xa2, if v5 { vec![0, 1, 0] } else { vec![0, 1] }, vec![]));
    if v5 && !quick {
        o.push(("filter2", 0x82, vec![0, 1, 0, 0, 1, b'a', 0], vec![0]));
    }
    o
}

/// properties holding strings, per location: (first byte, bytes before the property length,
/// property bytes before the string, property bytes after it, bytes after the properties)
fn prop_slots() -> Vec<(u8, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)> {
    let mut o = vec![];
    for (id, ty, locs) in PROP_TABLE {
        for loc in *locs {
            let (first, pre, post): (u8, Vec<u8>, Vec<u8>) = match *loc {
                1 => (0x10, b"\0\x04MQTT\x05\x02\0\x0a".to_vec(), b"\0\x01c".to_vec()),
                2 => (0x20, vec![0, 0], vec![]),
                3 => (0x30, b"\0\x01t".to_vec(), vec![]),
                4..=7 => ((*loc << 4) | if *loc == 6 { 2 } else { 0 }, vec![0, 1, 0], vec![]),
                8 => (0x82, vec![0, 1], b"\0\x01t\0".to_vec()),
                9 | 11 => (*loc << 4, vec![0, 1], vec![0]),
                10 => (0xa2, vec![0, 1], b"\0\x01t".to_vec()),
                14 | 15 => (*loc << 4, vec![0], vec![]),
                _ => (0x10, b"\0\x04MQTT\x05\x06\0\x0a\0\0\x01c".to_vec(), b"\0\x01w\0\x01p".to_vec()),
            };
            match ty {
                PT::Str => o.push((first, pre, vec![*id], vec![], post)),
                PT::Pair => {
                    o.push((first, pre.clone(), vec![*id], vec![0, 1, b'v'], post.clone()));
                    o.push((first, pre, vec![*id, 0, 1, b'k'], vec![], post));
                }
                _ => {}
            }
        }
    }
    o
}

/// all contents: lengths 0..=full exhaustively, then `cls` bytes from the class alphabet
fn contents(full: usize, cls: usize, f: &mut dyn FnMut(&[u8])) {
    f(&[]);
    for n in 1..=full {
        let mut v = vec![0u8; n];
        loop {
            f(&v);
            let mut i = 0;
            while i < n && v[i] == 255 {
                v[i] = 0;
                i += 1;
            }
            if i == n {
                break;
            }
            v[i] += 1;
        }
    }
    for n in full + 1..=cls {
        let mut ix = vec![0usize; n];
        let mut v = vec![CLASS[0]; n];
        loop {
            f(&v);
            let mut i = 0;
            while i < n && ix[i] == CLASS.len() - 1 {
                ix[i] = 0;
                v[i] = CLASS[0];
                i += 1;
            }
            if i == n {
                break;
            }
            ix[i] += 1;
            v[i] = CLASS[ix[i]];
        }
    }
}

pub fn run(ctx: &mut Ctx, c03: bool) {
    let quick = ctx.quick();
    let tag = if c03 { "C03" } else { "C04" };
    for (ver, t) in all_kinds() {
        let vn = if ver == Ver::V3 { "v3.1.1" } else { "v5.0" };
        for w in [2u8, 4] {
            if w == 4 && matches!(t, 1 | 2 | 12 | 13 | 14 | 15) {
                continue;
            }
            let flags: Vec<u8> = if t == 3 { (0x30..0x40).collect() } else { vec![(t << 4) | if matches!(t, 6 | 8 | 10) { 2 } else { 0 }] };
            // 1. all byte strings up to length 2 (thorough: 3), split over the first byte
            let full = if quick { 2 } else { 3 };
            enumerate_multi(ctx, &format!("{tag}: all byte strings up to {full}, {} {vn} id{}", kind_name(t), w * 8), 257 * flags.len(), |u, s| {
                let fl = flags[u / 257];
                if u % 257 == 256 {
                    s.put(chk(w, ver, fl, &[], c03));
                    return;
                }
                let a = (u % 257) as u8;
                let mut v = vec![a];
                contents(full - 1, 0, &mut |c| {
                    v.truncate(1);
                    v.extend_from_slice(c);
                    s.put(chk(w, ver, fl, &v, c03));
                });
            });
            // 2. all strings over a small alphabet, after the prefixes that get past the header
            let lvl = if ver == Ver::V3 { 4u8 } else { 5 };
            let mut prefixes: Vec<Vec<u8>> = vec![vec![]];
            if t == 1 {
                for fl in 0..=255u8 {
                    let mut c = b"\0\x04MQTT".to_vec();
                    c.extend([lvl, fl, 0, 10]);
                    if quick && fl & 0x3a != 2 && ver == Ver::V3 {
                        continue;
                    }
                    prefixes.push(c);
                }
            } else if matches!(t, 4..=11) {
                let mut id = vec![0u8; w as usize];
                id[w as usize - 1] = 1;
                prefixes.push(id.clone());
                if ver == Ver::V5 {
                    id.push(0);
                    prefixes.push(id);
                }
            } else if t == 3 {
                prefixes.push(vec![0, 1, b't']);
                let mut p = vec![0, 1, b't'];
                p.extend(vec![0; w as usize - 1]);
                p.push(1);
                prefixes.push(p);
            } else if matches!(t, 2 | 14 | 15) {
                prefixes.push(vec![0, 0]);
                prefixes.push(vec![0]);
            }
            let alpha: &[u8] = if quick { &[0, 1, 2, 3, 0x1f, 0x26, 0x61, 0x80, 0xff] } else { &[0, 1, 2, 3, 5, 0x0b, 0x1f, 0x23, 0x26, 0x61, 0x7f, 0x80, 0xff] };
            let len = match (quick, t) {
                (true, 1) => 4,
                (true, 3) => 4,
                (true, _) => 5,
                (false, 1 | 3) => 5,
                (false, _) => 6,
            };
            let a = alpha.len();
            enumerate_multi(ctx, &format!("{tag}: prefix + strings over {a} symbols up to {len}, {} {vn} id{}", kind_name(t), w * 8), prefixes.len() * flags.len() * a, |u, s| {
                let x0 = alpha[u % a];
                let fl = flags[u / a % flags.len()];
                let p = &prefixes[u / a / flags.len()];
                let mut v = p.clone();
                if u % a == 0 {
                    s.put(chk(w, ver, fl, &v, c03));
                }
                for n in 1..=len {
                    v.truncate(p.len());
                    v.push(x0);
                    v.resize(p.len() + n, alpha[0]);
                    let mut ix = vec![0usize; n];
                    loop {
                        s.put(chk(w, ver, fl, &v, c03));
                        let mut i = 1;
                        while i < n && ix[i] == a - 1 {
                            ix[i] = 0;
                            v[p.len() + i] = alpha[0];
                            i += 1;
                        }
                        if i >= n {
                            break;
                        }
                        ix[i] += 1;
                        v[p.len() + i] = alpha[ix[i]];
                    }
                }
            });
            // 3. mutations of one representative of every packet shape
            let bs = bases(ver, t, w, if quick { 40 } else { 64 });
            enumerate_multi(ctx, &format!("{tag}: mutations of {} shapes, {} {vn} id{}", bs.len(), kind_name(t), w * 8), bs.len(), |u, s| {
                let (first, b) = &bs[u];
                mutations(*first, b, !quick && b.len() <= 32, &mut |f, v| s.put(chk(w, ver, f, v, c03)));
            });
        }
        // 4. string contents
    }
    for ver in [Ver::V3, Ver::V5] {
        let vn = if ver == Ver::V3 { "v3.1.1" } else { "v5.0" };
        let slots = string_slots(ver, quick);
        for (name, first, pre, post) in &slots {
            let (full, cls) = if quick { (2, 3) } else { (3, 4) };
            enumerate_multi(ctx, &format!("{tag}: string contents (all up to {full} bytes, UTF-8 classes up to {cls}) in {name} {vn}"), CLASS.len() + 257, |u, s| {
                let mut v: Vec<u8> = vec![];
                let mut one = |c: &[u8]| {
                    v.clear();
                    v.extend_from_slice(pre);
                    v.extend([(c.len() >> 8) as u8, c.len() as u8]);
                    v.extend_from_slice(c);
                    v.extend_from_slice(post);
                    s.put(chk(2, ver, *first, &v, c03));
                };
                if u == 256 {
                    one(&[]);
                } else if u < 256 {
                    contents(full - 1, 0, &mut |c| {
                        let mut x = vec![u as u8];
                        x.extend_from_slice(c);
                        one(&x);
                    });
                } else {
                    contents(0, cls - 1, &mut |c| {
                        if c.len() + 1 > full {
                            let mut x = vec![CLASS[u - 257]];
                            x.extend_from_slice(c);
                            one(&x);
                        }
                    });
                }
            });
        }
    }
    if !c03 {
        let words = grammar_words(if quick { 5 } else { 6 });
        for (ver, w) in [(Ver::V3, 2u8), (Ver::V5, 2), (Ver::V3, 4), (Ver::V5, 4)] {
            let label = format!("C04: topic grammar ({} strings in {GRAMMAR_SLOTS} positions), {} id{}", words.len(), if ver == Ver::V3 { "v3.1.1" } else { "v5.0" }, w * 8);
            enumerate_multi(ctx, &label, words.len(), |i, s| {
                for slot in 0..GRAMMAR_SLOTS {
                    if w == 4 && slot >= 8 {
                        continue;
                    }
                    let p = grammar_pkt(slot, ver, w, &words[i]);
                    s.put(chk(w, ver, p.first(), &p.body(), false));
                }
            });
        }
    }
    let ps = prop_slots();
    let cls = if quick { 2 } else { 4 };
    enumerate_multi(ctx, &format!("{tag}: string contents in {} property positions", ps.len()), ps.len() * CLASS.len(), |u, s| {
        let (first, pre, a, b, post) = &ps[u / CLASS.len()];
        contents(0, cls - 1, &mut |c| {
            let n = c.len() + 1;
            let mut v = pre.clone();
            v.push((a.len() + 2 + n + b.len()) as u8);
            v.extend_from_slice(a);
            v.extend([0, n as u8, CLASS[u % CLASS.len()]]);
            v.extend_from_slice(c);
            v.extend_from_slice(b);
            v.extend_from_slice(post);
            s.put(chk(2, Ver::V5, *first, &v, c03));
        });
    });
    // 5. around the largest Remaining Length: error values, no arithmetic panic
    if !c03 {
        let m = 268_435_455usize;
        let mut cases: Vec<(Ver, u8, usize)> = vec![];
        for d in if quick { vec![1usize] } else { vec![0, 1, 2, 5] } {
            cases.push((Ver::V3, 0x32, m + d));
            cases.push((Ver::V5, 0x32, m + d));
            if !quick {
                cases.push((Ver::V3, 0x90, m + d));
                cases.push((Ver::V5, 0x90, m + d));
                cases.push((Ver::V5, 0xb0, m + d));
            }
        }
        for (ver, first, n) in cases {
            enumerate_multi(ctx, &format!("C04: {n}-byte body, {}", kn(ver, first)), 1, |_, s| {
                let mut b = vec![0u8; n];
                if first == 0x32 {
                    b[..5].copy_from_slice(b"\0\x01t\0\x01");
                } else {
                    b[1] = 1;
                }
                let r = guarded(|| match parse_lib::<u16>(ver, first, &b) {
                    Some(Ok((q, used))) => (used, q.size(), q.to_continuous_buffer().len()),
                    _ => (0, 0, 0),
                });
                s.put(match r {
                    Err(e) => Err(Bad::new(format!("C04/panic/{}", kn(ver, first)), format!("panic on a {n}-byte body: {e}"))),
                    Ok((used, size, len)) if used > n || size != len => Err(Bad::new(format!("C04/size/{}", kn(ver, first)), format!("{n}-byte body: consumed {used}, size() {size}, serialisation {len}"))),
                    Ok(x) => Ok(x.0 as u64),
                });
            });
        }
    }
    ctx.bounds.push(format!(
        "each of the 29 parsers (16/32-bit ids, all 16 PUBLISH flag nibbles): all byte strings up to {} bytes; all strings over a small alphabet after valid prefixes; every truncation, byte substitution, insertion, deletion, extension (and bounded pairs) of a representative of every packet shape; all short UTF-8 contents in every string position; every string of up to 5 (thorough 6) tokens of the topic grammar in every topic, filter and CONNECT string position",
        if quick { 2 } else { 3 }
    ));
}
