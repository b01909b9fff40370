//! C02 (round trip) and C03 (wire format) over the bounded packet space.
use crate::bridge::*;
use crate::explore::*;
use crate::refcodec::*;
use crate::report::Ctx;
use crate::space::*;
use crate::sys::short;
use mqtt_protocol_core::mqtt;
use mqtt::packet::{GenericPacket, GenericPacketTrait, IntoPacketId};
use std::collections::BTreeMap;
use std::sync::Mutex;

pub fn trunc(s: String) -> String {
    if s.len() > 600 {
        let mut e = 600;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}… ({} chars)", &s[..e], s.len())
    } else {
        s
    }
}
pub fn hex(b: &[u8]) -> String {
    if b.len() > 96 {
        format!("{:02x?}… ({} bytes)", &b[..96], b.len())
    } else {
        format!("{b:02x?}")
    }
}
fn vectored<P: Pid + IntoPacketId<P>>(g: &GenericPacket<P>) -> Vec<u8> {
    let mut o = vec![];
    for s in g.to_buffers() {
        o.extend_from_slice(&s);
    }
    o
}
/// (header length, remaining length) of a frame
pub fn header(b: &[u8]) -> Option<(usize, usize)> {
    let mut rl = 0usize;
    for i in 0..4 {
        let x = *b.get(1 + i)?;
        rl |= ((x & 0x7f) as usize) << (7 * i);
        if x & 0x80 == 0 {
            return Some((2 + i, rl));
        }
    }
    None
}
pub fn kname(p: &Pkt) -> String {
    format!("{}-{}", p.name().to_lowercase(), if p.ver == Ver::V3 { "v3" } else { "v5" })
}

fn c02<P: Pid + IntoPacketId<P>>(p: &Pkt) -> Result<u64, Bad> {
    c02_of::<P>(&kname(p), Some(p), &|| short(p), &|| to_lib::<P>(p))
}
/// C02 on whatever `build` yields; `want`: what its accessors must say
pub fn c02_of<P: Pid + IntoPacketId<P>>(
    k: &str,
    want: Option<&Pkt>,
    desc: &dyn Fn() -> String,
    build: &dyn Fn() -> Result<GenericPacket<P>, mqtt::result_code::MqttError>,
) -> Result<u64, Bad> {
    let bad = |s: &str, m: String| Err(Bad::new(format!("C02/{s}/{k}"), trunc(format!("{m}  packet: {}", desc()))));
    let r = guarded(|| {
        let g = match build() {
            Ok(g) => g,
            Err(e) => return Ok((0u64, Some(format!("{e:?}")))),
        };
        let bytes = g.to_continuous_buffer();
        let (h, rl) = match header(&bytes) {
            Some(x) => x,
            None => return Err(("rl", format!("no valid Remaining Length in {}", hex(&bytes)))),
        };
        if g.size() != bytes.len() {
            return Err(("size", format!("size() = {}, contiguous serialisation has {} bytes", g.size(), bytes.len())));
        }
        if h + rl != bytes.len() {
            return Err(("rl", format!("Remaining Length {rl} but {} bytes follow the header: {}", bytes.len() - h, hex(&bytes))));
        }
        if vbi_len(rl) + 1 != h {
            return Err(("rl-form", format!("Remaining Length {rl} encoded in {} bytes", h - 1)));
        }
        let vec = vectored(&g);
        if vec != bytes {
            return Err(("vectored", format!("vectored serialisation {} differs from contiguous {}", hex(&vec), hex(&bytes))));
        }
        let back = from_lib(&g);
        if want.is_some_and(|p| &back != p) {
            return Err(("accessors", format!("accessors of the built packet say {}", short(&back))));
        }
        match parse_lib::<P>(back.ver, bytes[0], &bytes[h..]) {
            None => Err(("kind", format!("first byte {:#x} denotes no packet", bytes[0]))),
            Some(Err(e)) => Err(("parse", format!("own serialisation rejected with {e:?}: {}", hex(&bytes)))),
            Some(Ok((q, n))) => {
                if n != rl {
                    return Err(("consumed", format!("parser consumed {n} of {rl} body bytes: {}", hex(&bytes))));
                }
                if q != g {
                    return Err(("equal", format!("parsed packet differs: {}", short(&from_lib(&q)))));
                }
                if from_lib(&q) != back {
                    return Err(("fields", format!("parsed packet's accessors say {}", short(&from_lib(&q)))));
                }
                if q.to_continuous_buffer() != bytes || q.size() != bytes.len() {
                    return Err(("reserialise", format!("parsed packet serialises to {}", hex(&q.to_continuous_buffer()))));
                }
                Ok((h as u64 * 64 + back.ptype() as u64, None))
            }
        }
    });
    match r {
        Err(e) => bad("panic", format!("panic: {e}")),
        Ok(Err((s, m))) => bad(s, m),
        Ok(Ok((x, None))) => Ok(x),
        Ok(Ok((_, Some(e)))) => Ok(1_000_000 + h128(&e) as u64 % 1000),
    }
}

/// cause qualifier: keeps a listed finding from hiding anything else about the same kind
pub fn c03_kind(p: &Pkt) -> String {
    let k = kname(p);
    match &p.b {
        Body::Connect { pass: Some(_), user: None, .. } if p.ver == Ver::V5 => format!("{k}/password-without-user-name"),
        Body::Ack { code: Some(_), .. } if p.ver == Ver::V3 => format!("{k}/reason-code"),
        _ => k,
    }
}
/// encoder half of C03: `build` must yield the specification's bytes for `p`, or refuse what it forbids
pub fn c03_enc<P: Pid + IntoPacketId<P>>(
    p: &Pkt,
    desc: &dyn Fn() -> String,
    build: &dyn Fn() -> Result<GenericPacket<P>, mqtt::result_code::MqttError>,
) -> Result<u64, Bad> {
    let valid = spec_valid(p);
    let k = c03_kind(p);
    let bad = |s: &str, m: String| Err(Bad::new(format!("C03/{s}/{k}"), trunc(format!("{m}  packet: {}", desc()))));
    let want = p.enc();
    let r = guarded(|| {
        let mut x = 0u64;
        match build() {
            Ok(g) => {
                x |= 1;
                let bytes = g.to_continuous_buffer();
                if bytes != want {
                    return Err(("encode", format!("produced {}, the specification prescribes {}", hex(&bytes), hex(&want))));
                }
                if vectored(&g) != want {
                    return Err(("encode-vectored", format!("produced {}, the specification prescribes {}", hex(&vectored(&g)), hex(&want))));
                }
                if !valid {
                    let why = decode(&bytes, p.ver, p.idw).err().unwrap_or_else(|| "reason code not defined for this packet".into());
                    return Err(("builds-invalid", format!("builder accepts a packet the specification forbids ({why}): {}", hex(&bytes))));
                }
            }
            Err(e) => {
                if valid {
                    return Err(("builder-rejects", format!("builder rejects a packet the specification allows: {e:?}")));
                }
            }
        }
        Ok(x * 32 + p.ptype() as u64)
    });
    match r {
        Err(e) => bad("panic", format!("panic: {e}")),
        Ok(Err((s, m))) => bad(s, m),
        Ok(Ok(x)) => Ok(x),
    }
}

fn c03<P: Pid + IntoPacketId<P>>(p: &Pkt, parse: bool) -> Result<u64, Bad> {
    if !parse {
        return c03_enc::<P>(p, &|| short(p), &|| to_lib::<P>(p));
    }
    if !spec_valid(p) {
        return Ok(p.ptype() as u64);
    }
    let k = c03_kind(p);
    let bad = |s: &str, m: String| Err(Bad::new(format!("C03/{s}/{k}"), trunc(format!("{m}  packet: {}", short(p)))));
    let want = p.enc();
    let r = guarded(|| {
        let (h, rl) = header(&want).unwrap();
        match parse_lib::<P>(p.ver, want[0], &want[h..]) {
            None => Err(("kind", "no parser".to_string())),
            Some(Err(e)) => Err(("decode-rejects", format!("spec-conformant encoding {} rejected: {e:?}", hex(&want)))),
            Some(Ok((q, n))) => {
                let f = from_lib(&q);
                if &f != p {
                    return Err(("decode", format!("spec-conformant encoding {} parsed as {}", hex(&want), short(&f))));
                }
                if n != rl {
                    return Err(("decode-length", format!("spec-conformant encoding of {rl} body bytes, parser consumed {n}")));
                }
                Ok(64 + p.ptype() as u64)
            }
        }
    });
    match r {
        Err(e) => bad("panic", format!("panic: {e}")),
        Ok(Err((s, m))) => bad(s, m),
        Ok(Ok(x)) => Ok(x),
    }
}

pub fn run(ctx: &mut Ctx, prop: &str) {
    let quick = ctx.quick();
    let acc: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    for (ver, t) in all_kinds() {
        for w in [2u8, 4] {
            let sp = space(ver, t, w, quick);
            if sp.is_empty() {
                continue;
            }
            let name = format!("{prop}:{} {} id{}", kind_name(t), if ver == Ver::V3 { "v3.1.1" } else { "v5.0" }, w * 8);
            let built = std::sync::atomic::AtomicU64::new(0);
            enumerate_multi(ctx, &name, sp.len(), |i, s| {
                let r = match (prop, w) {
                    ("C02", 2) => c02::<u16>(&sp[i]),
                    ("C02", _) => c02::<u32>(&sp[i]),
                    (_, 2) => c03::<u16>(&sp[i], false),
                    (_, _) => c03::<u32>(&sp[i], false),
                };
                if let Ok(x) = &r {
                    if *x < 1_000_000 {
                        built.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                }
                s.put(r);
                if prop == "C03" {
                    s.put(if w == 2 { c03::<u16>(&sp[i], true) } else { c03::<u32>(&sp[i], true) });
                }
            });
            let b = built.load(std::sync::atomic::Ordering::Relaxed);
            acc.lock().unwrap().insert(name.clone(), b);
            // vacuity guard: builders that accept nothing would make the round trip empty
            if prop == "C02" && b == 0 {
                ctx.violation(crate::report::Violation { sig: format!("C02/vacuous/{t}"), msg: format!("{name}: the builder accepts no packet of this kind"), replay: String::new() });
            }
        }
    }
    let words = grammar_words(if quick { 5 } else { 6 });
    for (ver, w) in [(Ver::V3, 2u8), (Ver::V5, 2), (Ver::V3, 4), (Ver::V5, 4)] {
        let label = format!("{prop}: topic grammar ({} strings in {GRAMMAR_SLOTS} positions), {} id{}", words.len(), if ver == Ver::V3 { "v3.1.1" } else { "v5.0" }, w * 8);
        enumerate_multi(ctx, &label, words.len(), |i, s| {
            for slot in 0..GRAMMAR_SLOTS {
                let p = grammar_pkt(slot, ver, w, &words[i]);
                if w == 4 && slot >= 8 {
                    continue;
                }
                if prop == "C02" {
                    s.put(if w == 2 { c02::<u16>(&p) } else { c02::<u32>(&p) });
                } else if wildcards_ok(slot, &words[i]) && spec_valid(&p) {
                    for parse in [false, true] {
                        s.put(if w == 2 { c03::<u16>(&p, parse) } else { c03::<u32>(&p, parse) });
                    }
                }
            }
        });
    }
    crate::builders::run(ctx, prop);
    if prop == "C03" {
        crate::totality::run(ctx, true);
    }
    for (k, v) in acc.into_inner().unwrap() {
        ctx.note(format!("{k}: {v} packets accepted by the builder and carried through"));
    }
    ctx.bounds.push("all 29 packet kinds, 16/32-bit identifiers; full cross product of small field domains per kind; property lists of length 0-2 (0-3 where few properties are allowed) with boundary values; string, binary, payload and Remaining Length boundaries; every string of up to 5 (thorough 6) tokens of the topic grammar ($share / g + # NUL multi-byte) in every topic, filter, client id, user name and will topic position".into());
}
