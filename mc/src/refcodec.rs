//! Independent MQTT v3.1.1 / v5.0 reference codec, written from the OASIS specifications.
//! Shares no code with the crate under test.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ver {
    V3,
    V5,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum PV {
    U8(u8),
    U16(u16),
    U32(u32),
    Vbi(u32),
    Str(String),
    Bin(Vec<u8>),
    Pair(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Prop {
    pub id: u8,
    pub v: PV,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Will {
    pub topic: String,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
    pub props: Vec<Prop>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Body {
    Connect {
        clean: bool,
        keep_alive: u16,
        client_id: String,
        will: Option<Will>,
        user: Option<String>,
        pass: Option<Vec<u8>>,
        props: Vec<Prop>,
    },
    Connack {
        sp: bool,
        code: u8,
        props: Vec<Prop>,
    },
    Publish {
        dup: bool,
        qos: u8,
        retain: bool,
        topic: String,
        id: Option<u32>,
        props: Vec<Prop>,
        payload: Vec<u8>,
    },
    /// kind: 4 PUBACK, 5 PUBREC, 6 PUBREL, 7 PUBCOMP
    Ack {
        kind: u8,
        id: u32,
        code: Option<u8>,
        props: Option<Vec<Prop>>,
    },
    Subscribe {
        id: u32,
        props: Vec<Prop>,
        entries: Vec<(String, u8)>,
    },
    Suback {
        id: u32,
        props: Vec<Prop>,
        codes: Vec<u8>,
    },
    Unsubscribe {
        id: u32,
        props: Vec<Prop>,
        topics: Vec<String>,
    },
    Unsuback {
        id: u32,
        props: Vec<Prop>,
        codes: Vec<u8>,
    },
    Pingreq,
    Pingresp,
    Disconnect {
        code: Option<u8>,
        props: Option<Vec<Prop>>,
    },
    Auth {
        code: Option<u8>,
        props: Option<Vec<Prop>>,
    },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Pkt {
    pub ver: Ver,
    /// packet identifier width in bytes: 2 (MQTT) or 4 (the crate's extension)
    pub idw: u8,
    pub b: Body,
}

impl Pkt {
    pub fn ptype(&self) -> u8 {
        match &self.b {
            Body::Connect { .. } => 1,
            Body::Connack { .. } => 2,
            Body::Publish { .. } => 3,
            Body::Ack { kind, .. } => *kind,
            Body::Subscribe { .. } => 8,
            Body::Suback { .. } => 9,
            Body::Unsubscribe { .. } => 10,
            Body::Unsuback { .. } => 11,
            Body::Pingreq => 12,
            Body::Pingresp => 13,
            Body::Disconnect { .. } => 14,
            Body::Auth { .. } => 15,
        }
    }
    pub fn id(&self) -> Option<u32> {
        match &self.b {
            Body::Publish { id, .. } => *id,
            Body::Ack { id, .. }
            | Body::Subscribe { id, .. }
            | Body::Suback { id, .. }
            | Body::Unsubscribe { id, .. }
            | Body::Unsuback { id, .. } => Some(*id),
            _ => None,
        }
    }
    pub fn with_id(&self, nid: u32) -> Pkt {
        let mut p = self.clone();
        match &mut p.b {
            Body::Publish { id, .. } => {
                if id.is_some() {
                    *id = Some(nid)
                }
            }
            Body::Ack { id, .. }
            | Body::Subscribe { id, .. }
            | Body::Suback { id, .. }
            | Body::Unsubscribe { id, .. }
            | Body::Unsuback { id, .. } => *id = nid,
            _ => {}
        }
        p
    }
    pub fn props(&self) -> &[Prop] {
        match &self.b {
            Body::Connect { props, .. }
            | Body::Connack { props, .. }
            | Body::Publish { props, .. }
            | Body::Subscribe { props, .. }
            | Body::Suback { props, .. }
            | Body::Unsubscribe { props, .. }
            | Body::Unsuback { props, .. } => props,
            Body::Ack { props, .. } | Body::Disconnect { props, .. } | Body::Auth { props, .. } => {
                props.as_deref().unwrap_or(&[])
            }
            _ => &[],
        }
    }
    pub fn props_mut(&mut self) -> Option<&mut Vec<Prop>> {
        match &mut self.b {
            Body::Connect { props, .. }
            | Body::Connack { props, .. }
            | Body::Publish { props, .. }
            | Body::Subscribe { props, .. }
            | Body::Suback { props, .. }
            | Body::Unsubscribe { props, .. }
            | Body::Unsuback { props, .. } => Some(props),
            Body::Ack { props, .. } | Body::Disconnect { props, .. } | Body::Auth { props, .. } => props.as_mut(),
            _ => None,
        }
    }
    pub fn prop_u16(&self, id: u8) -> Option<u16> {
        self.props().iter().find(|p| p.id == id).and_then(|p| match p.v {
            PV::U16(x) => Some(x),
            _ => None,
        })
    }
    pub fn prop_u32(&self, id: u8) -> Option<u32> {
        self.props().iter().find(|p| p.id == id).and_then(|p| match p.v {
            PV::U32(x) => Some(x),
            PV::Vbi(x) => Some(x),
            _ => None,
        })
    }
    pub fn name(&self) -> &'static str {
        kind_name(self.ptype())
    }
}

pub fn kind_name(t: u8) -> &'static str {
    [
        "RESERVED0", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK",
        "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH",
    ][t as usize & 15]
}

// ---------------------------------------------------------------- property table (MQTT5 2.2.2.2)
pub const P_PAYLOAD_FORMAT: u8 = 0x01;
pub const P_MSG_EXPIRY: u8 = 0x02;
pub const P_CONTENT_TYPE: u8 = 0x03;
pub const P_RESPONSE_TOPIC: u8 = 0x08;
pub const P_CORRELATION: u8 = 0x09;
pub const P_SUB_ID: u8 = 0x0B;
pub const P_SESSION_EXPIRY: u8 = 0x11;
pub const P_ASSIGNED_CID: u8 = 0x12;
pub const P_SERVER_KEEP_ALIVE: u8 = 0x13;
pub const P_AUTH_METHOD: u8 = 0x15;
pub const P_AUTH_DATA: u8 = 0x16;
pub const P_REQ_PROBLEM: u8 = 0x17;
pub const P_WILL_DELAY: u8 = 0x18;
pub const P_REQ_RESPONSE: u8 = 0x19;
pub const P_RESPONSE_INFO: u8 = 0x1A;
pub const P_SERVER_REF: u8 = 0x1C;
pub const P_REASON: u8 = 0x1F;
pub const P_RECEIVE_MAX: u8 = 0x21;
pub const P_TOPIC_ALIAS_MAX: u8 = 0x22;
pub const P_TOPIC_ALIAS: u8 = 0x23;
pub const P_MAX_QOS: u8 = 0x24;
pub const P_RETAIN_AVAIL: u8 = 0x25;
pub const P_USER: u8 = 0x26;
pub const P_MAX_PACKET: u8 = 0x27;
pub const P_WILDCARD: u8 = 0x28;
pub const P_SUBID_AVAIL: u8 = 0x29;
pub const P_SHARED: u8 = 0x2A;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PT {
    Byte,
    U16,
    U32,
    Vbi,
    Str,
    Bin,
    Pair,
}

/// (id, type, locations). Location: packet type number; 16 = will properties.
pub const WILL: u8 = 16;
pub const PROP_TABLE: &[(u8, PT, &[u8])] = &[
    (P_PAYLOAD_FORMAT, PT::Byte, &[3, WILL]),
    (P_MSG_EXPIRY, PT::U32, &[3, WILL]),
    (P_CONTENT_TYPE, PT::Str, &[3, WILL]),
    (P_RESPONSE_TOPIC, PT::Str, &[3, WILL]),
    (P_CORRELATION, PT::Bin, &[3, WILL]),
    (P_SUB_ID, PT::Vbi, &[3, 8]),
    (P_SESSION_EXPIRY, PT::U32, &[1, 2, 14]),
    (P_ASSIGNED_CID, PT::Str, &[2]),
    (P_SERVER_KEEP_ALIVE, PT::U16, &[2]),
    (P_AUTH_METHOD, PT::Str, &[1, 2, 15]),
    (P_AUTH_DATA, PT::Bin, &[1, 2, 15]),
    (P_REQ_PROBLEM, PT::Byte, &[1]),
    (P_WILL_DELAY, PT::U32, &[WILL]),
    (P_REQ_RESPONSE, PT::Byte, &[1]),
    (P_RESPONSE_INFO, PT::Str, &[2]),
    (P_SERVER_REF, PT::Str, &[2, 14]),
    (P_REASON, PT::Str, &[2, 4, 5, 6, 7, 9, 11, 14, 15]),
    (P_RECEIVE_MAX, PT::U16, &[1, 2]),
    (P_TOPIC_ALIAS_MAX, PT::U16, &[1, 2]),
    (P_TOPIC_ALIAS, PT::U16, &[3]),
    (P_MAX_QOS, PT::Byte, &[2]),
    (P_RETAIN_AVAIL, PT::Byte, &[2]),
    (P_USER, PT::Pair, &[1, 2, 3, WILL, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15]),
    (P_MAX_PACKET, PT::U32, &[1, 2]),
    (P_WILDCARD, PT::Byte, &[2]),
    (P_SUBID_AVAIL, PT::Byte, &[2]),
    (P_SHARED, PT::Byte, &[2]),
];

pub fn prop_type(id: u8) -> Option<PT> {
    PROP_TABLE.iter().find(|e| e.0 == id).map(|e| e.1)
}
pub fn prop_allowed(id: u8, loc: u8) -> bool {
    PROP_TABLE.iter().any(|e| e.0 == id && e.2.contains(&loc))
}
pub fn prop_repeatable(id: u8, loc: u8) -> bool {
    id == P_USER || (id == P_SUB_ID && loc == 3)
}
pub fn prop_value_ok(p: &Prop) -> bool {
    match (p.id, &p.v) {
        (
            P_PAYLOAD_FORMAT | P_REQ_PROBLEM | P_REQ_RESPONSE | P_MAX_QOS | P_RETAIN_AVAIL | P_WILDCARD | P_SUBID_AVAIL
            | P_SHARED,
            PV::U8(x),
        ) => *x <= 1,
        (P_RECEIVE_MAX | P_TOPIC_ALIAS, PV::U16(x)) => *x != 0,
        (P_MAX_PACKET, PV::U32(x)) => *x != 0,
        (P_SUB_ID, PV::Vbi(x)) => *x != 0 && *x <= 268_435_455,
        _ => true,
    }
}

// ---------------------------------------------------------------- encoding
pub fn enc_vbi(out: &mut Vec<u8>, mut x: u32) {
    loop {
        let b = (x % 128) as u8;
        x /= 128;
        if x > 0 {
            out.push(b | 0x80);
        } else {
            out.push(b);
            return;
        }
    }
}
pub fn vbi_len(x: usize) -> usize {
    if x < 128 {
        1
    } else if x < 16384 {
        2
    } else if x < 2097152 {
        3
    } else {
        4
    }
}
fn enc_bin(out: &mut Vec<u8>, b: &[u8]) {
    assert!(b.len() <= 65535);
    out.push((b.len() >> 8) as u8);
    out.push((b.len() & 255) as u8);
    out.extend_from_slice(b);
}
fn enc_id(out: &mut Vec<u8>, id: u32, w: u8) {
    if w == 4 {
        out.extend_from_slice(&[(id >> 24) as u8, (id >> 16) as u8]);
    }
    out.extend_from_slice(&[(id >> 8) as u8, id as u8]);
}
pub fn enc_prop(out: &mut Vec<u8>, p: &Prop) {
    out.push(p.id);
    match &p.v {
        PV::U8(x) => out.push(*x),
        PV::U16(x) => out.extend_from_slice(&[(x >> 8) as u8, *x as u8]),
        PV::U32(x) => out.extend_from_slice(&[(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, *x as u8]),
        PV::Vbi(x) => enc_vbi(out, *x),
        PV::Str(s) => enc_bin(out, s.as_bytes()),
        PV::Bin(b) => enc_bin(out, b),
        PV::Pair(k, v) => {
            enc_bin(out, k.as_bytes());
            enc_bin(out, v.as_bytes());
        }
    }
}
pub fn enc_props(out: &mut Vec<u8>, ps: &[Prop]) {
    let mut t = Vec::new();
    for p in ps {
        enc_prop(&mut t, p);
    }
    enc_vbi(out, t.len() as u32);
    out.extend_from_slice(&t);
}

impl Pkt {
    /// first byte of the fixed header
    pub fn first(&self) -> u8 {
        let t = self.ptype() << 4;
        match &self.b {
            Body::Publish { dup, qos, retain, .. } => t | ((*dup as u8) << 3) | (qos << 1) | *retain as u8,
            Body::Ack { kind: 6, .. } | Body::Subscribe { .. } | Body::Unsubscribe { .. } => t | 2,
            _ => t,
        }
    }
    pub fn body(&self) -> Vec<u8> {
        let v5 = self.ver == Ver::V5;
        let w = self.idw;
        let mut o = Vec::new();
        match &self.b {
            Body::Connect { clean, keep_alive, client_id, will, user, pass, props } => {
                enc_bin(&mut o, b"MQTT");
                o.push(if v5 { 5 } else { 4 });
                let mut f = 0u8;
                if *clean {
                    f |= 2;
                }
                if let Some(wl) = will {
                    f |= 4 | (wl.qos << 3) | ((wl.retain as u8) << 5);
                }
                if pass.is_some() {
                    f |= 0x40;
                }
                if user.is_some() {
                    f |= 0x80;
                }
                o.push(f);
                o.extend_from_slice(&[(keep_alive >> 8) as u8, *keep_alive as u8]);
                if v5 {
                    enc_props(&mut o, props);
                }
                enc_bin(&mut o, client_id.as_bytes());
                if let Some(wl) = will {
                    if v5 {
                        enc_props(&mut o, &wl.props);
                    }
                    enc_bin(&mut o, wl.topic.as_bytes());
                    enc_bin(&mut o, &wl.payload);
                }
                if let Some(u) = user {
                    enc_bin(&mut o, u.as_bytes());
                }
                if let Some(p) = pass {
                    enc_bin(&mut o, p);
                }
            }
            Body::Connack { sp, code, props } => {
                o.push(*sp as u8);
                o.push(*code);
                if v5 {
                    enc_props(&mut o, props);
                }
            }
            Body::Publish { topic, id, props, payload, .. } => {
                enc_bin(&mut o, topic.as_bytes());
                if let Some(i) = id {
                    enc_id(&mut o, *i, w);
                }
                if v5 {
                    enc_props(&mut o, props);
                }
                o.extend_from_slice(payload);
            }
            Body::Ack { id, code, props, .. } => {
                enc_id(&mut o, *id, w);
                // (a v3.1.1 acknowledgement has no reason code; the crate can build one, and
                // `decode` rejects it)
                if let Some(c) = code {
                    o.push(*c);
                    if let (true, Some(p)) = (v5, props) {
                        enc_props(&mut o, p);
                    }
                }
            }
            Body::Subscribe { id, props, entries } => {
                enc_id(&mut o, *id, w);
                if v5 {
                    enc_props(&mut o, props);
                }
                for (t, opt) in entries {
                    enc_bin(&mut o, t.as_bytes());
                    o.push(*opt);
                }
            }
            Body::Suback { id, props, codes } => {
                enc_id(&mut o, *id, w);
                if v5 {
                    enc_props(&mut o, props);
                }
                o.extend_from_slice(codes);
            }
            Body::Unsubscribe { id, props, topics } => {
                enc_id(&mut o, *id, w);
                if v5 {
                    enc_props(&mut o, props);
                }
                for t in topics {
                    enc_bin(&mut o, t.as_bytes());
                }
            }
            Body::Unsuback { id, props, codes } => {
                enc_id(&mut o, *id, w);
                if v5 {
                    enc_props(&mut o, props);
                    o.extend_from_slice(codes);
                }
            }
            Body::Pingreq | Body::Pingresp => {}
            Body::Disconnect { code, props } | Body::Auth { code, props } => {
                if v5 {
                    if let Some(c) = code {
                        o.push(*c);
                        if let Some(p) = props {
                            enc_props(&mut o, p);
                        }
                    }
                }
            }
        }
        o
    }
    pub fn enc(&self) -> Vec<u8> {
        let b = self.body();
        frame(self.first(), &b)
    }
}

pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(body.len() + 5);
    o.push(first);
    enc_vbi(&mut o, body.len() as u32);
    o.extend_from_slice(body);
    o
}

// ---------------------------------------------------------------- strict decoding
pub struct Rd<'a> {
    d: &'a [u8],
    i: usize,
}
type R<T> = Result<T, String>;
impl<'a> Rd<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Rd { d, i: 0 }
    }
    fn left(&self) -> usize {
        self.d.len() - self.i
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.left() < n {
            return Err("truncated".into());
        }
        let s = &self.d[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        let s = self.take(2)?;
        Ok(s[0] as u16 * 256 + s[1] as u16)
    }
    fn u32(&mut self) -> R<u32> {
        let s = self.take(4)?;
        Ok(((s[0] as u32 * 256 + s[1] as u32) * 256 + s[2] as u32) * 256 + s[3] as u32)
    }
    fn id(&mut self, w: u8) -> R<u32> {
        let x = if w == 4 { self.u32()? } else { self.u16()? as u32 };
        if x == 0 {
            return Err("packet id 0".into());
        }
        Ok(x)
    }
    pub fn vbi(&mut self) -> R<u32> {
        let mut m = 1u32;
        let mut x = 0u32;
        for k in 0..4 {
            let b = self.u8()?;
            x += (b & 127) as u32 * m;
            if b & 128 == 0 {
                if k > 0 && b == 0 {
                    return Err("non-minimal vbi".into());
                }
                return Ok(x);
            }
            m *= 128;
        }
        Err("vbi too long".into())
    }
    fn bin(&mut self) -> R<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn str(&mut self) -> R<String> {
        let b = self.bin()?;
        let s = String::from_utf8(b).map_err(|_| "utf8".to_string())?;
        if s.contains('\0') {
            return Err("U+0000 in string".into());
        }
        Ok(s)
    }
    fn props(&mut self, loc: u8) -> R<Vec<Prop>> {
        let n = self.vbi()? as usize;
        let s = self.take(n)?;
        let mut r = Rd::new(s);
        let mut out: Vec<Prop> = vec![];
        while r.left() > 0 {
            let id = r.u8()?;
            let t = prop_type(id).ok_or("unknown property")?;
            if !prop_allowed(id, loc) {
                return Err(format!("property {id:#x} not allowed in {loc}"));
            }
            if !prop_repeatable(id, loc) && out.iter().any(|p| p.id == id) {
                return Err(format!("property {id:#x} repeated"));
            }
            let v = match t {
                PT::Byte => PV::U8(r.u8()?),
                PT::U16 => PV::U16(r.u16()?),
                PT::U32 => PV::U32(r.u32()?),
                PT::Vbi => PV::Vbi(r.vbi()?),
                PT::Str => PV::Str(r.str()?),
                PT::Bin => PV::Bin(r.bin()?),
                PT::Pair => PV::Pair(r.str()?, r.str()?),
            };
            let p = Prop { id, v };
            if !prop_value_ok(&p) {
                return Err(format!("property {id:#x} value"));
            }
            out.push(p);
        }
        Ok(out)
    }
}

/// Topic Filter: at least one character (4.7.3), shared subscription syntax (MQTT5 4.8.2).
fn filter_ok(s: &str, v5: bool) -> R<()> {
    if s.is_empty() {
        return Err("empty topic filter".into());
    }
    if let (true, Some(r)) = (v5, s.strip_prefix("$share/")) {
        match r.split_once('/') {
            Some((n, f)) if !n.is_empty() && !n.contains(['+', '#']) && !f.is_empty() => {}
            _ => return Err("shared subscription".into()),
        }
    }
    Ok(())
}

/// Strictly decode exactly one packet.
pub fn decode(bytes: &[u8], ver: Ver, idw: u8) -> R<Pkt> {
    let mut r = Rd::new(bytes);
    let first = r.u8()?;
    let n = r.vbi()? as usize;
    let body = r.take(n)?;
    if r.left() != 0 {
        return Err("trailing bytes after packet".into());
    }
    decode_body(first, body, ver, idw)
}

pub fn decode_body(first: u8, body: &[u8], ver: Ver, w: u8) -> R<Pkt> {
    let v5 = ver == Ver::V5;
    let t = first >> 4;
    let fl = first & 15;
    let want = match t {
        6 | 8 | 10 => 2,
        _ => 0,
    };
    if t != 3 && fl != want {
        return Err("fixed header flags".into());
    }
    let mut r = Rd::new(body);
    let b = match t {
        1 => {
            let name = r.bin()?;
            if name != b"MQTT" {
                return Err("protocol name".into());
            }
            let lvl = r.u8()?;
            if lvl != if v5 { 5 } else { 4 } {
                return Err("protocol level".into());
            }
            let f = r.u8()?;
            if f & 1 != 0 {
                return Err("connect reserved flag".into());
            }
            let keep_alive = r.u16()?;
            let props = if v5 { r.props(1)? } else { vec![] };
            let client_id = r.str()?;
            let will = if f & 4 != 0 {
                let wq = (f >> 3) & 3;
                if wq == 3 {
                    return Err("will qos 3".into());
                }
                let wp = if v5 { r.props(WILL)? } else { vec![] };
                let topic = r.str()?;
                let payload = r.bin()?;
                Some(Will { topic, payload, qos: wq, retain: f & 0x20 != 0, props: wp })
            } else {
                if f & 0x38 != 0 {
                    return Err("will flags".into());
                }
                None
            };
            let user = if f & 0x80 != 0 { Some(r.str()?) } else { None };
            let pass = if f & 0x40 != 0 { Some(r.bin()?) } else { None };
            if !v5 && pass.is_some() && user.is_none() {
                return Err("password without user name".into());
            }
            Body::Connect { clean: f & 2 != 0, keep_alive, client_id, will, user, pass, props }
        }
        2 => {
            let f = r.u8()?;
            if f > 1 {
                return Err("connack flags".into());
            }
            let code = r.u8()?;
            let props = if v5 { r.props(2)? } else { vec![] };
            Body::Connack { sp: f == 1, code, props }
        }
        3 => {
            let qos = (fl >> 1) & 3;
            if qos == 3 {
                return Err("qos 3".into());
            }
            let dup = fl & 8 != 0;
            let topic = r.str()?;
            if topic.contains('#') || topic.contains('+') {
                return Err("wildcard in topic name".into());
            }
            let id = if qos > 0 { Some(r.id(w)?) } else { None };
            let props = if v5 { r.props(3)? } else { vec![] };
            let payload = r.take(r.left())?.to_vec();
            if topic.is_empty() && !(v5 && props.iter().any(|p| p.id == P_TOPIC_ALIAS)) {
                return Err("empty topic".into());
            }
            Body::Publish { dup, qos, retain: fl & 1 != 0, topic, id, props, payload }
        }
        4..=7 => {
            let id = r.id(w)?;
            let mut code = None;
            let mut props = None;
            if v5 && r.left() > 0 {
                code = Some(r.u8()?);
                if r.left() > 0 {
                    props = Some(r.props(t)?);
                }
            }
            Body::Ack { kind: t, id, code, props }
        }
        8 => {
            let id = r.id(w)?;
            let props = if v5 { r.props(8)? } else { vec![] };
            let mut entries = vec![];
            while r.left() > 0 {
                let s = r.str()?;
                let o = r.u8()?;
                if o & 3 == 3 || o & 0xC0 != 0 || (!v5 && o & 0xFC != 0) || (o >> 4) & 3 == 3 {
                    return Err("subscription options".into());
                }
                filter_ok(&s, v5)?;
                entries.push((s, o));
            }
            if entries.is_empty() {
                return Err("no entries".into());
            }
            Body::Subscribe { id, props, entries }
        }
        9 => {
            let id = r.id(w)?;
            let props = if v5 { r.props(9)? } else { vec![] };
            let codes = r.take(r.left())?.to_vec();
            if codes.is_empty() {
                return Err("no codes".into());
            }
            Body::Suback { id, props, codes }
        }
        10 => {
            let id = r.id(w)?;
            let props = if v5 { r.props(10)? } else { vec![] };
            let mut topics = vec![];
            while r.left() > 0 {
                let s = r.str()?;
                filter_ok(&s, v5)?;
                topics.push(s);
            }
            if topics.is_empty() {
                return Err("no topics".into());
            }
            Body::Unsubscribe { id, props, topics }
        }
        11 => {
            let id = r.id(w)?;
            let (props, codes) = if v5 {
                let p = r.props(11)?;
                let c = r.take(r.left())?.to_vec();
                if c.is_empty() {
                    return Err("no codes".into());
                }
                (p, c)
            } else {
                (vec![], vec![])
            };
            Body::Unsuback { id, props, codes }
        }
        12 => Body::Pingreq,
        13 => Body::Pingresp,
        14 | 15 => {
            if t == 15 && !v5 {
                return Err("AUTH in v3.1.1".into());
            }
            let mut code = None;
            let mut props = None;
            if v5 && r.left() > 0 {
                code = Some(r.u8()?);
                if r.left() > 0 {
                    props = Some(r.props(t)?);
                }
            }
            if t == 14 {
                Body::Disconnect { code, props }
            } else {
                // 3.15.2.1: reason code and property length are omitted together
                if code.is_some() && props.is_none() {
                    return Err("AUTH without property length".into());
                }
                let ps = props.as_deref().unwrap_or(&[]);
                let has = |id: u8| ps.iter().any(|p| p.id == id);
                if !has(P_AUTH_METHOD) && (code.unwrap_or(0) != 0 || has(P_AUTH_DATA)) {
                    return Err("AUTH without Authentication Method".into());
                }
                Body::Auth { code, props }
            }
        }
        _ => return Err("packet type".into()),
    };
    if r.left() != 0 {
        return Err("trailing bytes in body".into());
    }
    Ok(Pkt { ver, idw: w, b })
}

pub fn user_prop(k: &str, v: &str) -> Prop {
    Prop { id: P_USER, v: PV::Pair(k.into(), v.into()) }
}
