//! The bounded packet space: per kind a full cross product of small field domains, plus length
//! boundaries.  Everything is generated by nested loops; nothing is sampled.
use crate::conn::mk;
use crate::refcodec::*;

/// reason / return codes the specifications define, per packet type
pub fn spec_codes(ver: Ver, t: u8) -> &'static [u8] {
    match (ver, t) {
        (Ver::V3, 2) => &[0, 1, 2, 3, 4, 5],
        (Ver::V3, 9) => &[0, 1, 2, 0x80],
        (Ver::V5, 2) => &[
            0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F,
        ],
        (Ver::V5, 4 | 5) => &[0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        (Ver::V5, 6 | 7) => &[0x00, 0x92],
        (Ver::V5, 9) => &[0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2],
        (Ver::V5, 11) => &[0x00, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91],
        (Ver::V5, 14) => &[
            0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D,
            0x9E, 0x9F, 0xA0, 0xA1, 0xA2,
        ],
        (Ver::V5, 15) => &[0x00, 0x18, 0x19],
        _ => &[],
    }
}
pub fn codes_ok(p: &Pkt) -> bool {
    let t = spec_codes(p.ver, p.ptype());
    match &p.b {
        Body::Connack { code, .. } => t.contains(code),
        Body::Ack { code, .. } | Body::Disconnect { code, .. } | Body::Auth { code, .. } => code.map(|c| t.contains(&c)).unwrap_or(true),
        Body::Suback { codes, .. } | Body::Unsuback { codes, .. } => codes.iter().all(|c| t.contains(c)),
        _ => true,
    }
}
/// Is this what a spec-conformant endpoint could send?
pub fn spec_valid(p: &Pkt) -> bool {
    codes_ok(p) && decode(&p.enc(), p.ver, p.idw).as_ref() == Ok(p)
}

pub fn all_kinds() -> Vec<(Ver, u8)> {
    let mut o = vec![];
    for t in 1..=14u8 {
        o.push((Ver::V3, t));
    }
    for t in 1..=15u8 {
        o.push((Ver::V5, t));
    }
    o
}

fn lens(quick: bool) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 11, 12, 13, 14, 22, 23, 24, 25, 26, 46, 47, 48, 49, 63, 64, 65, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257];
    v.extend([511, 512, 513, 16376, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 32767, 32768, 65533, 65534, 65535]);
    if !quick {
        v.extend(0..300);
        v.extend(16350..16400);
        v.sort();
        v.dedup();
    }
    v
}
pub fn fill(n: usize) -> String {
    // multi-byte characters straddle every boundary in turn
    let mut s = String::with_capacity(n);
    while s.len() + 3 <= n && s.len() % 7 != 6 {
        s.push_str("abcdef");
        if s.len() > n {
            s.truncate(n);
            break;
        }
        if s.len() + 3 <= n {
            s.push('日');
        }
    }
    while s.len() < n {
        s.push('z');
    }
    s
}

/// values of one property: boundary values of its type
pub fn prop_values(id: u8, rich: bool) -> Vec<Prop> {
    let t = prop_type(id).unwrap();
    let mut o = vec![];
    match t {
        PT::Byte => {
            o.push(PV::U8(0));
            o.push(PV::U8(1));
        }
        PT::U16 => {
            for x in [1u16, 255, 256, 65535] {
                o.push(PV::U16(x));
            }
            o.push(PV::U16(0));
        }
        PT::U32 => {
            for x in [1u32, 255, 256, 65535, 65536, 0x0102_0304, u32::MAX] {
                o.push(PV::U32(x));
            }
            o.push(PV::U32(0));
        }
        PT::Vbi => {
            for x in [1u32, 127, 128, 16383, 16384, 2097151, 2097152, 268435455] {
                o.push(PV::Vbi(x));
            }
        }
        PT::Str => {
            for x in ["a", "", "日本", "\u{10FFFF}x"] {
                o.push(PV::Str(x.into()));
            }
        }
        PT::Bin => {
            for x in [&[0u8][..], &[], &[255, 0, 128]] {
                o.push(PV::Bin(x.to_vec()));
            }
        }
        PT::Pair => {
            for (a, b) in [("k", "v"), ("", ""), ("k", ""), ("", "日")] {
                o.push(PV::Pair(a.into(), b.into()));
            }
        }
    }
    if !rich {
        o.truncate(1);
    }
    o.into_iter().map(|v| Prop { id, v }).filter(prop_value_ok).collect()
}
pub fn allowed_props(loc: u8) -> Vec<u8> {
    PROP_TABLE.iter().filter(|e| e.2.contains(&loc)).map(|e| e.0).collect()
}
/// property lists for a location
pub fn prop_lists(loc: u8, quick: bool) -> Vec<Vec<Prop>> {
    let ids = allowed_props(loc);
    let mut o: Vec<Vec<Prop>> = vec![vec![]];
    for i in &ids {
        for v in prop_values(*i, true) {
            o.push(vec![v]);
        }
    }
    // all ordered pairs, one (thorough: every) value each
    for i in &ids {
        for j in &ids {
            if i == j && !prop_repeatable(*i, loc) {
                continue;
            }
            for a in prop_values(*i, !quick) {
                let bs = prop_values(*j, true);
                for (n, b) in bs.into_iter().enumerate() {
                    if quick && i != j && n > 0 {
                        break;
                    }
                    o.push(vec![a.clone(), b]);
                }
            }
        }
    }
    // all ordered triples
    if !quick || ids.len() <= 9 {
        for i in &ids {
            for j in &ids {
                for k in &ids {
                    if (i == j || i == k) && !prop_repeatable(*i, loc) || j == k && !prop_repeatable(*j, loc) {
                        continue;
                    }
                    o.push(vec![prop_values(*i, false).remove(0), prop_values(*j, false).remove(0), prop_values(*k, false).remove(0)]);
                }
            }
        }
    }
    // everything at once, in table order and reversed
    let all: Vec<Prop> = ids.iter().map(|i| prop_values(*i, false).remove(0)).collect();
    let mut rev = all.clone();
    rev.reverse();
    o.push(all);
    o.push(rev);
    // property-length boundaries through user properties and the strings / binaries allowed here
    for n in lens(true) {
        for i in &ids {
            match prop_type(*i).unwrap() {
                PT::Str => o.push(vec![Prop { id: *i, v: PV::Str(fill(n)) }]),
                PT::Bin => o.push(vec![Prop { id: *i, v: PV::Bin(vec![0xA5; n]) }]),
                PT::Pair => {
                    o.push(vec![Prop { id: *i, v: PV::Pair(fill(n), "v".into()) }]);
                    o.push(vec![Prop { id: *i, v: PV::Pair("k".into(), fill(n)) }]);
                }
                _ => {}
            }
        }
    }
    o
}

const STRS: [&str; 3] = ["t", "a/b", "日"];

fn ids(w: u8) -> Vec<u32> {
    let mut v = vec![1u32, 2, 127, 128, 255, 256, 257, 32768, 65535];
    if w == 4 {
        v.extend([65536, 0x0102_0304, 0xFF00_0000, u32::MAX]);
    }
    v
}

/// builder-facing packets of one kind
pub fn space(ver: Ver, t: u8, w: u8, quick: bool) -> Vec<Pkt> {
    let v5 = ver == Ver::V5;
    let mut o: Vec<Pkt> = vec![];
    let no: Vec<Vec<Prop>> = vec![vec![]];
    let pl = |loc: u8| if v5 { prop_lists(loc, quick) } else { no.clone() };
    let mut push = |b: Body| o.push(mk(ver, w, b));
    match t {
        1 => {
            if w == 4 {
                return o; // no identifier in it
            }
            let mut wills: Vec<Option<Will>> = vec![None];
            for qos in 0..3u8 {
                for retain in [false, true] {
                    for (tp, payload) in [("w", &b"p"[..]), ("日/w", &[]), ("w", &[0, 255])] {
                        wills.push(Some(Will { topic: tp.into(), payload: payload.to_vec(), qos, retain, props: vec![] }));
                    }
                }
            }
            let users: [Option<&str>; 4] = [None, Some(""), Some("u"), Some("日")];
            let passes: [Option<&[u8]>; 3] = [None, Some(&[]), Some(&[0, 1, 255])];
            let base: Vec<Vec<Prop>> = if v5 { vec![vec![], vec![Prop { id: P_SESSION_EXPIRY, v: PV::U32(7) }, user_prop("a", "b")]] } else { no.clone() };
            for clean in [false, true] {
                for ka in [0u16, 1, 255, 256, 65535] {
                    for cid in ["", "c", "日", "0123456789abcdef01234567"] {
                        for will in &wills {
                            for user in users {
                                for pass in passes {
                                    for props in &base {
                                        push(Body::Connect {
                                            clean,
                                            keep_alive: ka,
                                            client_id: cid.into(),
                                            will: will.clone(),
                                            user: user.map(|s| s.into()),
                                            pass: pass.map(|s| s.to_vec()),
                                            props: props.clone(),
                                        });
                                    }
                                }
                            }
                        }
                    }
                }
            }
            let minimal = |cid: String, will: Option<Will>, user: Option<String>, pass: Option<Vec<u8>>, props: Vec<Prop>| Body::Connect { clean: true, keep_alive: 10, client_id: cid, will, user, pass, props };
            for ps in pl(1) {
                push(minimal("c".into(), None, None, None, ps));
            }
            let wl = |topic: String, payload: Vec<u8>, props: Vec<Prop>| Some(Will { topic, payload, qos: 1, retain: true, props });
            for ps in pl(WILL) {
                push(minimal("c".into(), wl("w".into(), b"p".to_vec(), ps.clone()), None, None, vec![]));
                push(minimal("c".into(), wl("w".into(), vec![], ps), Some("u".into()), Some(b"p".to_vec()), if v5 { vec![user_prop("x", "y")] } else { vec![] }));
            }
            for n in lens(quick) {
                push(minimal(fill(n), None, None, None, vec![]));
                push(minimal("c".into(), None, Some(fill(n)), None, vec![]));
                push(minimal("c".into(), None, Some("u".into()), Some(vec![0x5A; n]), vec![]));
                push(minimal("c".into(), wl(if n == 0 { "w".into() } else { fill(n) }, vec![], vec![]), None, None, vec![]));
                push(minimal("c".into(), wl("w".into(), vec![0xC3; n], vec![]), None, None, vec![]));
            }
        }
        2 => {
            if w == 4 {
                return o;
            }
            for sp in [false, true] {
                for c in 0..=255u8 {
                    push(Body::Connack { sp, code: c, props: vec![] });
                    if v5 {
                        push(Body::Connack { sp, code: c, props: vec![user_prop("a", "b")] });
                    }
                }
            }
            for ps in pl(2) {
                push(Body::Connack { sp: false, code: 0, props: ps.clone() });
                push(Body::Connack { sp: true, code: 0, props: ps });
            }
        }
        3 => {
            let base: Vec<Vec<Prop>> =
                if v5 { vec![vec![], vec![Prop { id: P_TOPIC_ALIAS, v: PV::U16(3) }], vec![user_prop("a", "b"), Prop { id: P_SUB_ID, v: PV::Vbi(200) }]] } else { no.clone() };
            let payloads: [&[u8]; 5] = [&[], &[0], b"p", &[0, 255, 128], b"0123456789"];
            for dup in [false, true] {
                for retain in [false, true] {
                    for qos in 0..3u8 {
                        for topic in STRS.iter().chain([""].iter()) {
                            for i in if qos == 0 { vec![None] } else { ids(w).into_iter().map(Some).collect() } {
                                for props in &base {
                                    for p in payloads {
                                        push(Body::Publish { dup, qos, retain, topic: topic.to_string(), id: i, props: props.clone(), payload: p.to_vec() });
                                    }
                                }
                            }
                        }
                    }
                }
            }
            let m = |qos: u8, topic: String, props: Vec<Prop>, payload: Vec<u8>| Body::Publish { dup: false, qos, retain: false, topic, id: if qos > 0 { Some(258) } else { None }, props, payload };
            for ps in pl(3) {
                push(m(0, "t".into(), ps.clone(), vec![]));
                push(m(2, "t".into(), ps, b"p".to_vec()));
            }
            for n in lens(quick) {
                for q in 0..2 {
                    if n > 0 {
                        push(m(q, fill(n), vec![], vec![]));
                        push(m(q, fill(n), vec![], b"pp".to_vec()));
                    }
                    push(m(q, "t".into(), vec![], vec![0x77; n]));
                    if v5 {
                        push(m(q, "t".into(), vec![user_prop("k", &fill(n.min(60000)))], vec![0x77; n]));
                    }
                }
            }
            // Remaining Length boundaries
            for n in [2097138usize, 2097139, 2097140, 2097141, 2097142, 2097143, 2097144, 2097145, 2097146, 2097147, 2097148, 2097149, 2097150, 2097151, 2097152, 2097153] {
                push(m(0, "t".into(), vec![], vec![0x77; n]));
            }
        }
        4..=7 => {
            let codes: Vec<Option<u8>> = std::iter::once(None).chain((0..=255u8).map(Some)).collect();
            for i in ids(w) {
                for c in &codes {
                    push(Body::Ack { kind: t, id: i, code: *c, props: None });
                    if v5 && c.is_some() {
                        push(Body::Ack { kind: t, id: i, code: *c, props: Some(vec![]) });
                        push(Body::Ack { kind: t, id: i, code: *c, props: Some(vec![user_prop("a", "b")]) });
                    }
                }
            }
            if v5 {
                for ps in pl(t) {
                    for c in spec_codes(ver, t) {
                        push(Body::Ack { kind: t, id: 258, code: Some(*c), props: Some(ps.clone()) });
                    }
                }
            }
        }
        8 => {
            let mut es: Vec<Vec<(String, u8)>> = vec![];
            for opt in 0..64u8 {
                for f in ["t", "#", "+/a", "日", "$share/g/t"] {
                    es.push(vec![(f.into(), opt)]);
                }
                for o2 in 0..64u8 {
                    es.push(vec![("t".into(), opt), ("u/#".into(), o2)]);
                }
            }
            for o1 in [0u8, 1, 2] {
                for o2 in [0u8, 1, 2] {
                    for o3 in [0u8, 1, 2, 0x2e] {
                        es.push(vec![("t".into(), o1), ("t".into(), o2), ("日".into(), o3)]);
                    }
                }
            }
            for n in lens(quick) {
                if n > 0 {
                    es.push(vec![(fill(n), 1)]);
                    es.push(vec![(fill(n), 1), (fill(n), 0)]);
                }
            }
            for n in [4usize, 10, 31, 32, 42, 43, 100, 127, 128, 5000] {
                es.push((0..n).map(|k| ("t".to_string(), (k % 3) as u8)).collect());
            }
            for e in &es {
                push(Body::Subscribe { id: 258, props: vec![], entries: e.clone() });
            }
            for i in ids(w) {
                push(Body::Subscribe { id: i, props: vec![], entries: vec![("t".into(), 1)] });
            }
            if v5 {
                for ps in pl(8) {
                    push(Body::Subscribe { id: 258, props: ps.clone(), entries: vec![("t".into(), 0x16)] });
                    push(Body::Subscribe { id: 258, props: ps, entries: vec![("t".into(), 1), ("日".into(), 2)] });
                }
            }
        }
        9 | 11 => {
            let mk2 = |id: u32, props: Vec<Prop>, codes: Vec<u8>| {
                if t == 9 {
                    Body::Suback { id, props, codes }
                } else {
                    Body::Unsuback { id, props, codes }
                }
            };
            if t == 11 && !v5 {
                for i in ids(w) {
                    push(mk2(i, vec![], vec![]));
                }
                return o;
            }
            for i in ids(w) {
                for c in 0..=255u8 {
                    push(mk2(i, vec![], vec![c]));
                }
            }
            let sc = spec_codes(ver, t);
            for a in sc {
                for b in sc {
                    push(mk2(258, vec![], vec![*a, *b]));
                    for c in sc {
                        push(mk2(258, vec![], vec![*a, *b, *c]));
                    }
                }
            }
            for n in [10usize, 20, 22, 23, 24, 122, 123, 124, 125, 126, 127, 128, 1000, 16380, 16381, 16382, 16383] {
                push(mk2(258, vec![], (0..n).map(|k| sc[k % sc.len()]).collect()));
            }
            if v5 {
                for ps in pl(t) {
                    push(mk2(258, ps.clone(), vec![0]));
                    push(mk2(258, ps, vec![0x80, 0]));
                }
            }
        }
        10 => {
            let mut es: Vec<Vec<String>> = vec![];
            for a in ["t", "#", "日", "+/a"] {
                es.push(vec![a.into()]);
                for b in ["t", "u", "日本/#"] {
                    es.push(vec![a.into(), b.into()]);
                    for c in ["t", "z"] {
                        es.push(vec![a.into(), b.into(), c.into()]);
                    }
                }
            }
            for n in lens(quick) {
                if n > 0 {
                    es.push(vec![fill(n)]);
                    es.push(vec![fill(n), fill(n)]);
                }
            }
            for n in [4usize, 40, 41, 42, 43, 127, 128, 5000] {
                es.push((0..n).map(|_| "t".to_string()).collect());
            }
            for e in &es {
                push(Body::Unsubscribe { id: 258, props: vec![], topics: e.clone() });
            }
            for i in ids(w) {
                push(Body::Unsubscribe { id: i, props: vec![], topics: vec!["t".into()] });
            }
            if v5 {
                for ps in pl(10) {
                    push(Body::Unsubscribe { id: 258, props: ps.clone(), topics: vec!["t".into()] });
                    push(Body::Unsubscribe { id: 258, props: ps, topics: vec!["t".into(), "日".into()] });
                }
            }
        }
        12 => {
            if w == 2 {
                push(Body::Pingreq)
            }
        }
        13 => {
            if w == 2 {
                push(Body::Pingresp)
            }
        }
        _ => {
            if w == 4 {
                return o;
            }
            let mk2 = |code: Option<u8>, props: Option<Vec<Prop>>| {
                if t == 14 {
                    Body::Disconnect { code, props }
                } else {
                    Body::Auth { code, props }
                }
            };
            push(mk2(None, None));
            if v5 {
                for c in 0..=255u8 {
                    if t == 14 {
                        // (an AUTH reason code always comes with a property length, MQTT5 3.15.2)
                        push(mk2(Some(c), None));
                    }
                    push(mk2(Some(c), Some(vec![])));
                    push(mk2(Some(c), Some(vec![user_prop("a", "b")])));
                    push(mk2(Some(c), Some(vec![Prop { id: P_AUTH_METHOD, v: PV::Str("m".into()) }])));
                }
                for ps in pl(t) {
                    for c in spec_codes(ver, t) {
                        push(mk2(Some(*c), Some(ps.clone())));
                        if t == 15 && !ps.iter().any(|p| p.id == P_AUTH_METHOD) {
                            let mut q = ps.clone();
                            q.push(Prop { id: P_AUTH_METHOD, v: PV::Str("m".into()) });
                            push(mk2(Some(*c), Some(q)));
                        }
                    }
                }
            }
        }
    }
    o
}

/// Every string over the tokens that matter to topic names and filters, up to `n` tokens.
pub fn grammar_words(n: usize) -> Vec<String> {
    const TOKENS: [&str; 7] = ["$share", "/", "g", "+", "#", "\0", "日"];
    let mut o = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for w in &last {
            for t in TOKENS {
                next.push(format!("{w}{t}"));
            }
        }
        o.extend(next.iter().cloned());
        last = next;
    }
    o
}
pub const GRAMMAR_SLOTS: usize = 13;
/// `s` placed in one of the string positions of a packet
pub fn grammar_pkt(slot: usize, ver: Ver, w: u8, s: &str) -> Pkt {
    let e = |l: &[&str]| l.iter().map(|x| (x.to_string(), 1u8)).collect::<Vec<_>>();
    let t = |l: &[&str]| l.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let conn = |cid: &str, user: Option<&str>, will: Option<&str>| Body::Connect {
        clean: true,
        keep_alive: 10,
        client_id: cid.into(),
        will: will.map(|x| Will { topic: x.into(), payload: b"p".to_vec(), qos: 1, retain: false, props: vec![] }),
        user: user.map(|x| x.into()),
        pass: None,
        props: vec![],
    };
    let b = match slot {
        0 => Body::Subscribe { id: 258, props: vec![], entries: e(&[s]) },
        1 => Body::Subscribe { id: 258, props: vec![], entries: e(&[s, "t"]) },
        2 => Body::Subscribe { id: 258, props: vec![], entries: e(&["t", s]) },
        3 => Body::Subscribe { id: 258, props: vec![], entries: e(&["t", s, "u"]) },
        4 => Body::Unsubscribe { id: 258, props: vec![], topics: t(&[s]) },
        5 => Body::Unsubscribe { id: 258, props: vec![], topics: t(&[s, "t"]) },
        6 => Body::Unsubscribe { id: 258, props: vec![], topics: t(&["t", s]) },
        7 => Body::Unsubscribe { id: 258, props: vec![], topics: t(&["t", s, "u"]) },
        8 => Body::Publish { dup: false, qos: 0, retain: false, topic: s.into(), id: None, props: vec![], payload: b"p".to_vec() },
        9 => Body::Publish { dup: false, qos: 1, retain: false, topic: s.into(), id: Some(258), props: vec![], payload: vec![] },
        10 => conn(s, None, None),
        11 => conn("c", Some(s), None),
        _ => conn("c", None, Some(s)),
    };
    mk(ver, w, b)
}
/// wildcards only where a Topic Filter may have them (4.7.1); what lies elsewhere is not judged
pub fn wildcards_ok(slot: usize, s: &str) -> bool {
    if slot > 9 && slot < 12 {
        return true;
    }
    let n = s.split('/').count();
    s.split('/').enumerate().all(|(i, l)| match l {
        "+" => slot < 8,
        "#" => slot < 8 && i + 1 == n,
        l => !l.contains(['+', '#']),
    })
}
