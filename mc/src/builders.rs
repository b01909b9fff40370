//! C02/C03: the builders as transition systems. Every sequence of setter calls up to a
//! bound (any order, repeated, omitted, every accepted argument type) is run on the real
//! builder and on a model in which the last call of a setter wins and omitted optional
//! fields have their documented defaults. The packet that results is held to C02, and its
//! bytes to the reference encoder applied to the model (C03). The post-build transformers
//! of v5.0 PUBLISH (topic alias handling, DUP) are explored the same way.
use crate::bridge::*;
use crate::codec::*;
use crate::explore::*;
use crate::refcodec::*;
use crate::report::Ctx;
use crate::sys::short;
use mqtt::packet::{self as lp, v3_1_1, v5_0, GenericPacket, GenericPacketTrait, IntoPacketId, MqttBinary, MqttString, Qos};
use mqtt::result_code::{self as rc, MqttError as E};
use mqtt_protocol_core::mqtt;
use std::sync::Arc;

#[derive(Clone, Default)]
struct M {
    clean: Option<bool>,
    ka: Option<u16>,
    cid: Option<String>,
    will: Option<(String, Vec<u8>, u8, bool)>,
    wprops: Option<Vec<Prop>>,
    user: Option<String>,
    pass: Option<Vec<u8>>,
    props: Option<Vec<Prop>>,
    flags: (bool, u8, bool),
    topic: Option<String>,
    id: Option<u32>,
    payload: Vec<u8>,
    code: Option<u8>,
    codes: Option<Vec<u8>>,
    entries: Option<Vec<(String, u8)>>,
    topics: Option<Vec<String>>,
    sp: Option<bool>,
}

struct Setter<B> {
    name: &'static str,
    lib: Box<dyn Fn(B) -> Result<B, E> + Sync>,
    model: Box<dyn Fn(&mut M) + Sync>,
}

/// an empty alphabet for the builder that `new` makes (the builder types have no public name)
fn alphabet<B>(_new: &impl Fn() -> B) -> Vec<Setter<B>> {
    vec![]
}
fn put<B>(v: &mut Vec<Setter<B>>, name: &'static str, lib: impl Fn(B) -> Result<B, E> + Sync + 'static, model: impl Fn(&mut M) + Sync + 'static) {
    v.push(Setter { name, lib: Box::new(lib), model: Box::new(model) });
}
macro_rules! set {
    ($v:ident, $n:expr, |$b:ident| $lib:expr, |$m:ident| $mod:expr) => {
        put(&mut $v, $n, move |$b| Ok($lib), move |$m: &mut M| $mod)
    };
}
macro_rules! set_props {
    ($v:ident, $m:ident . $f:ident, $($ps:expr),*) => {{
        $(
            let ps: Vec<Prop> = $ps;
            let lp = lib_props(&ps);
            put(&mut $v, Box::leak(format!("{}({:?})", stringify!($f), ps).into_boxed_str()), move |b| Ok(b.$f(lp.clone())), move |$m: &mut M| $m.$f = Some(ps.clone()));
        )*
    }};
}

fn up(k: &str, v: &str) -> Prop {
    Prop { id: P_USER, v: PV::Pair(k.into(), v.into()) }
}
fn lib_props(p: &[Prop]) -> Vec<lp::Property> {
    props_to_lib(p).unwrap()
}
fn s(x: &str) -> String {
    x.to_string()
}

/// number of sequences of length 0..=d over n letters
fn count(n: usize, d: usize) -> usize {
    (0..=d).map(|l| n.pow(l as u32)).sum()
}
fn word(mut i: usize, n: usize) -> Vec<usize> {
    let mut l = 0;
    while i >= n.pow(l) {
        i -= n.pow(l);
        l += 1;
    }
    (0..l).map(|k| i / n.pow(k) % n).collect()
}

fn explore<P, B>(
    ctx: &mut Ctx,
    prop: &str,
    name: &str,
    depth: usize,
    setters: &[Setter<B>],
    new: impl Fn() -> B + Sync,
    build: impl Fn(B) -> Result<GenericPacket<P>, E> + Sync,
    finish: impl Fn(M) -> Option<Pkt> + Sync,
) where
    P: Pid + IntoPacketId<P>,
{
    let n = setters.len();
    let mut d = depth;
    while count(n, d) > if ctx.quick() { 3_000_000 } else { 60_000_000 } {
        d -= 1;
    }
    let label = format!("{prop}:setters {name} id{} ({n} setters, sequences up to {d})", P::W * 8);
    enumerate_multi(ctx, &label, count(n, d), |i, sink| {
        let w = word(i, n);
        let desc = || w.iter().map(|x| setters[*x].name).collect::<Vec<_>>().join(" . ");
        let run = || {
            let mut b = new();
            for x in &w {
                b = (setters[*x].lib)(b)?;
            }
            build(b)
        };
        let mut m = M::default();
        for x in &w {
            (setters[*x].model)(&mut m);
        }
        let want = finish(m);
        if prop == "C02" {
            sink.put(c02_of::<P>(&format!("builder-{name}"), want.as_ref(), &desc, &run));
        } else {
            sink.put(match &want {
                Some(p) => c03_enc::<P>(p, &desc, &run),
                // a required field was never set: whatever is built must encode what it shows
                None => match guarded(run) {
                    Ok(Ok(g)) => {
                        let p = from_lib(&g);
                        c03_enc::<P>(&p, &desc, &|| Ok(g.clone()))
                    }
                    Ok(Err(_)) => Ok(0),
                    Err(e) => Err(Bad::new(format!("C03/panic/builder-{name}"), format!("panic: {e}  {}", desc()))),
                },
            });
        }
    });
}

macro_rules! connect_setters {
    ($v:ident, $clean:ident) => {{
        set!($v, "client_id(&str)", |b| b.client_id("c")?, |m| m.cid = Some(s("c")));
        set!($v, "client_id(String)", |b| b.client_id(s("a client identifier of 33 bytes.."))?, |m| m.cid = Some(s("a client identifier of 33 bytes..")));
        set!($v, "client_id(\"\")", |b| b.client_id("")?, |m| m.cid = Some(s("")));
        set!($v, "clean(true)", |b| b.$clean(true), |m| m.clean = Some(true));
        set!($v, "clean(false)", |b| b.$clean(false), |m| m.clean = Some(false));
        set!($v, "keep_alive(513)", |b| b.keep_alive(513), |m| m.ka = Some(513));
        set!($v, "keep_alive(0)", |b| b.keep_alive(0), |m| m.ka = Some(0));
        set!($v, "will(w,p,0,false)", |b| b.will_message("w", "p", Qos::AtMostOnce, false)?, |m| m.will = Some((s("w"), b"p".to_vec(), 0, false)));
        set!($v, "will(W/1,,1,true)", |b| b.will_message(s("W/1"), Vec::<u8>::new(), Qos::AtLeastOnce, true)?, |m| m.will = Some((s("W/1"), vec![], 1, true)));
        set!($v, "will(w2,pp,2,false)", |b| b.will_message(&s("w2"), b"pp", Qos::ExactlyOnce, false)?, |m| m.will = Some((s("w2"), b"pp".to_vec(), 2, false)));
        set!($v, "user_name(\"u\")", |b| b.user_name("u")?, |m| m.user = Some(s("u")));
        set!($v, "user_name(\"\")", |b| b.user_name("")?, |m| m.user = Some(s("")));
        set!($v, "password([1])", |b| b.password(vec![1u8])?, |m| m.pass = Some(vec![1]));
        set!($v, "password([])", |b| b.password(b"")?, |m| m.pass = Some(vec![]));
    }};
}
fn finish_connect(ver: Ver, m: M) -> Option<Pkt> {
    let wprops = m.wprops.unwrap_or_default();
    Some(Pkt {
        ver,
        idw: 2,
        b: Body::Connect {
            clean: m.clean.unwrap_or(true),
            keep_alive: m.ka.unwrap_or(0),
            client_id: m.cid.unwrap_or_default(),
            will: m.will.map(|w| Will { topic: w.0, payload: w.1, qos: w.2, retain: w.3, props: wprops }),
            user: m.user,
            pass: m.pass,
            props: m.props.unwrap_or_default(),
        },
    })
}

const P1: u16 = 0x0102;
fn ids<P: Pid>() -> [u32; 2] {
    if P::W == 2 {
        [P1 as u32, 0xffff]
    } else {
        [0x0001_0203, 0xffff_fffe]
    }
}

macro_rules! publish_setters {
    ($v:ident, $P:ty) => {{
        let [i1, i2] = ids::<$P>();
        set!($v, "topic_name(&str)", |b| b.topic_name("a")?, |m| m.topic = Some(s("a")));
        set!($v, "topic_name(String)", |b| b.topic_name(s("b/c"))?, |m| m.topic = Some(s("b/c")));
        set!($v, "qos(0)", |b| b.qos(Qos::AtMostOnce), |m| m.flags.1 = 0);
        set!($v, "qos(1)", |b| b.qos(Qos::AtLeastOnce), |m| m.flags.1 = 1);
        set!($v, "qos(2)", |b| b.qos(Qos::ExactlyOnce), |m| m.flags.1 = 2);
        set!($v, "dup(true)", |b| b.dup(true), |m| m.flags.0 = true);
        set!($v, "dup(false)", |b| b.dup(false), |m| m.flags.0 = false);
        set!($v, "retain(true)", |b| b.retain(true), |m| m.flags.2 = true);
        set!($v, "retain(false)", |b| b.retain(false), |m| m.flags.2 = false);
        set!($v, "packet_id(i1)", |b| b.packet_id(<$P>::from_u32x(i1)), |m| m.id = Some(i1));
        set!($v, "packet_id(Some(i2))", |b| b.packet_id(Some(<$P>::from_u32x(i2))), |m| m.id = Some(i2));
        set!($v, "packet_id(None)", |b| b.packet_id(None::<$P>), |m| m.id = None);
        set!($v, "payload(&str)", |b| b.payload("p"), |m| m.payload = b"p".to_vec());
        set!($v, "payload(())", |b| b.payload(()), |m| m.payload = vec![]);
        set!($v, "payload(ArcPayload 1..3 of 4)", |b| b.payload(mqtt::ArcPayload::new(Arc::from(&[9u8, 8, 7, 6][..]), 1, 2)), |m| m.payload = vec![8, 7]);
    }};
}
fn finish_publish<P: Pid>(ver: Ver, m: M) -> Option<Pkt> {
    // an omitted topic is the empty topic in v5.0 (legal with an alias); v3.1.1 needs one
    if ver == Ver::V3 && m.topic.is_none() {
        return None;
    }
    Some(Pkt {
        ver,
        idw: P::W,
        b: Body::Publish {
            dup: m.flags.0,
            qos: m.flags.1,
            retain: m.flags.2,
            topic: m.topic.unwrap_or_default(),
            id: m.id,
            props: m.props.unwrap_or_default(),
            payload: m.payload,
        },
    })
}

macro_rules! id_setters {
    ($v:ident, $P:ty) => {{
        let [i1, i2] = ids::<$P>();
        set!($v, "packet_id(i1)", |b| b.packet_id(<$P>::from_u32x(i1)), |m| m.id = Some(i1));
        set!($v, "packet_id(i2)", |b| b.packet_id(<$P>::from_u32x(i2)), |m| m.id = Some(i2));
        set!($v, "packet_id(0)", |b| b.packet_id(<$P>::from_u32x(0)), |m| m.id = Some(0));
    }};
}
macro_rules! code_setters {
    ($v:ident, $set:ident, $rc:ident, $($c:expr),*) => {{
        $(
            set!($v, concat!(stringify!($set), "(", $c, ")"), |b| b.$set(rc::$rc::try_from($c).ok().unwrap()), |m| m.code = Some($c));
        )*
    }};
}
macro_rules! codes_setters {
    ($v:ident, $set:ident, $rc:ident, $($cs:expr),*) => {{
        $(
            let cs: Vec<u8> = $cs;
            let lc: Vec<rc::$rc> = cs.iter().map(|c| rc::$rc::try_from(*c).ok().unwrap()).collect();
            put(&mut $v, Box::leak(format!("{}({cs:?})", stringify!($set)).into_boxed_str()), move |b| Ok(b.$set(lc.clone())), move |m: &mut M| m.codes = Some(cs.clone()));
        )*
    }};
}
macro_rules! ack {
    ($ctx:ident, $prop:ident, $P:ty, v3_1_1, $ty:ident, $var:ident, $kind:expr, $rc:ident, $c0:expr, $c1:expr, $d:expr) => {{
        let new = || v3_1_1::$ty::<$P>::builder();
        let mut v = alphabet(&new);
        id_setters!(v, $P);
        code_setters!(v, reason_code, $rc, $c0, $c1);
        explore::<$P, _>($ctx, $prop, concat!("v3.1.1-", stringify!($ty)), $d, &v, new, |b| Ok(GenericPacket::$var(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V3, idw: <$P>::W, b: Body::Ack { kind: $kind, id: m.id?, code: m.code, props: None } })
        });
    }};
    ($ctx:ident, $prop:ident, $P:ty, v5_0, $ty:ident, $var:ident, $kind:expr, $rc:ident, $c0:expr, $c1:expr, $d:expr) => {{
        let new = || v5_0::$ty::<$P>::builder();
        let mut v = alphabet(&new);
        id_setters!(v, $P);
        code_setters!(v, reason_code, $rc, $c0, $c1);
        set_props!(v, m.props, vec![], vec![reason()], vec![up("k", "v"), reason(), up("k", "v")], vec![foreign()]);
        explore::<$P, _>($ctx, $prop, concat!("v5.0-", stringify!($ty)), $d, &v, new, |b| Ok(GenericPacket::$var(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V5, idw: <$P>::W, b: Body::Ack { kind: $kind, id: m.id?, code: m.code, props: m.props } })
        });
    }};
}
fn reason() -> Prop {
    Prop { id: P_REASON, v: PV::Str(s("why")) }
}
/// allowed in no acknowledgement
fn foreign() -> Prop {
    Prop { id: P_SERVER_KEEP_ALIVE, v: PV::U16(7) }
}
fn lib_entry(t: &str, o: u8) -> lp::SubEntry {
    lp::SubEntry::new(t, lp::SubOpts::from_u8(o).unwrap()).unwrap()
}

fn with_id<P: Pid + IntoPacketId<P>>(ctx: &mut Ctx, prop: &str, d: usize)
where
    Option<P>: IntoPacketId<P>,
{
    {
        let new = || v3_1_1::GenericPublish::<P>::builder();
        let mut v = alphabet(&new);
        publish_setters!(v, P);
        explore::<P, _>(ctx, prop, "v3.1.1-PUBLISH", d, &v, new, |b| Ok(GenericPacket::V3_1_1Publish(b.build()?)), |m| finish_publish::<P>(Ver::V3, m));
    }
    {
        let new = || v5_0::GenericPublish::<P>::builder();
        let mut v = alphabet(&new);
        publish_setters!(v, P);
        set!(v, "topic_name(\"\")", |b| b.topic_name("")?, |m| m.topic = Some(s("")));
        set_props!(v, m.props, vec![], vec![Prop { id: P_TOPIC_ALIAS, v: PV::U16(1) }, up("k", "v")], vec![Prop { id: P_SUB_ID, v: PV::Vbi(128) }]);
        explore::<P, _>(ctx, prop, "v5.0-PUBLISH", d, &v, new, |b| Ok(GenericPacket::V5_0Publish(b.build()?)), |m| finish_publish::<P>(Ver::V5, m));
    }
    ack!(ctx, prop, P, v3_1_1, GenericPuback, V3_1_1Puback, 4, PubackReasonCode, 0, 0x80, d);
    ack!(ctx, prop, P, v3_1_1, GenericPubrec, V3_1_1Pubrec, 5, PubrecReasonCode, 0, 0x80, d);
    ack!(ctx, prop, P, v3_1_1, GenericPubrel, V3_1_1Pubrel, 6, PubrelReasonCode, 0, 0x92, d);
    ack!(ctx, prop, P, v3_1_1, GenericPubcomp, V3_1_1Pubcomp, 7, PubcompReasonCode, 0, 0x92, d);
    ack!(ctx, prop, P, v5_0, GenericPuback, V5_0Puback, 4, PubackReasonCode, 0, 0x80, d);
    ack!(ctx, prop, P, v5_0, GenericPubrec, V5_0Pubrec, 5, PubrecReasonCode, 0, 0x80, d);
    ack!(ctx, prop, P, v5_0, GenericPubrel, V5_0Pubrel, 6, PubrelReasonCode, 0, 0x92, d);
    ack!(ctx, prop, P, v5_0, GenericPubcomp, V5_0Pubcomp, 7, PubcompReasonCode, 0, 0x92, d);
    macro_rules! subs {
        ($v:ident, $o:expr) => {{
            set!($v, "entries(vec)", |b| b.entries(vec![lib_entry("a", 1)]), |m| m.entries = Some(vec![(s("a"), 1)]));
            set!($v, "entries(array)", |b| b.entries([lib_entry("b/#", $o), lib_entry("+", 0)]), |m| m.entries = Some(vec![(s("b/#"), $o), (s("+"), 0)]));
            set!($v, "entries([])", |b| b.entries(vec![]), |m| m.entries = Some(vec![]));
        }};
    }
    macro_rules! unsubs {
        ($v:ident) => {{
            set!($v, "entries(vec of &str)", |b| b.entries(vec!["a"])?, |m| m.topics = Some(vec![s("a")]));
            set!($v, "entries(array of String)", |b| b.entries([s("b/#"), s("+")])?, |m| m.topics = Some(vec![s("b/#"), s("+")]));
            set!($v, "entries([])", |b| b.entries(Vec::<&str>::new())?, |m| m.topics = Some(vec![]));
        }};
    }
    let subid = |x: u32| Prop { id: P_SUB_ID, v: PV::Vbi(x) };
    {
        let new = || v3_1_1::GenericSubscribe::<P>::builder();
        let mut v = alphabet(&new);
        id_setters!(v, P);
        subs!(v, 2);
        explore::<P, _>(ctx, prop, "v3.1.1-SUBSCRIBE", d, &v, new, |b| Ok(GenericPacket::V3_1_1Subscribe(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V3, idw: P::W, b: Body::Subscribe { id: m.id?, entries: m.entries?, props: vec![] } })
        });
        let new = || v5_0::GenericSubscribe::<P>::builder();
        let mut v = alphabet(&new);
        id_setters!(v, P);
        subs!(v, 0b10_1110);
        set_props!(v, m.props, vec![], vec![subid(127), up("", "")], vec![subid(16384)], vec![foreign()]);
        explore::<P, _>(ctx, prop, "v5.0-SUBSCRIBE", d, &v, new, |b| Ok(GenericPacket::V5_0Subscribe(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V5, idw: P::W, b: Body::Subscribe { id: m.id?, entries: m.entries?, props: m.props.unwrap_or_default() } })
        });
    }
    {
        let new = || v3_1_1::GenericUnsubscribe::<P>::builder();
        let mut v = alphabet(&new);
        id_setters!(v, P);
        unsubs!(v);
        explore::<P, _>(ctx, prop, "v3.1.1-UNSUBSCRIBE", d, &v, new, |b| Ok(GenericPacket::V3_1_1Unsubscribe(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V3, idw: P::W, b: Body::Unsubscribe { id: m.id?, topics: m.topics?, props: vec![] } })
        });
        let new = || v5_0::GenericUnsubscribe::<P>::builder();
        let mut v = alphabet(&new);
        id_setters!(v, P);
        unsubs!(v);
        set_props!(v, m.props, vec![], vec![up("k", "v")], vec![foreign()]);
        explore::<P, _>(ctx, prop, "v5.0-UNSUBSCRIBE", d, &v, new, |b| Ok(GenericPacket::V5_0Unsubscribe(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V5, idw: P::W, b: Body::Unsubscribe { id: m.id?, topics: m.topics?, props: m.props.unwrap_or_default() } })
        });
    }
    {
        let new = || v3_1_1::GenericSuback::<P>::builder();
        let mut v = alphabet(&new);
        id_setters!(v, P);
        codes_setters!(v, return_codes, SubackReturnCode, vec![0], vec![2, 0x80], vec![]);
        explore::<P, _>(ctx, prop, "v3.1.1-SUBACK", d, &v, new, |b| Ok(GenericPacket::V3_1_1Suback(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V3, idw: P::W, b: Body::Suback { id: m.id?, codes: m.codes?, props: vec![] } })
        });
        let new = || v5_0::GenericSuback::<P>::builder();
        let mut v = alphabet(&new);
        id_setters!(v, P);
        codes_setters!(v, reason_codes, SubackReasonCode, vec![0], vec![2, 0x80], vec![]);
        set_props!(v, m.props, vec![], vec![reason(), up("k", "v")], vec![foreign()]);
        explore::<P, _>(ctx, prop, "v5.0-SUBACK", d, &v, new, |b| Ok(GenericPacket::V5_0Suback(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V5, idw: P::W, b: Body::Suback { id: m.id?, codes: m.codes?, props: m.props.unwrap_or_default() } })
        });
    }
    {
        let new = || v3_1_1::GenericUnsuback::<P>::builder();
        let mut v = alphabet(&new);
        id_setters!(v, P);
        explore::<P, _>(ctx, prop, "v3.1.1-UNSUBACK", d, &v, new, |b| Ok(GenericPacket::V3_1_1Unsuback(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V3, idw: P::W, b: Body::Unsuback { id: m.id?, codes: vec![], props: vec![] } })
        });
        let new = || v5_0::GenericUnsuback::<P>::builder();
        let mut v = alphabet(&new);
        id_setters!(v, P);
        codes_setters!(v, reason_codes, UnsubackReasonCode, vec![0], vec![0x11, 0x80], vec![]);
        set_props!(v, m.props, vec![], vec![reason(), up("k", "v")], vec![foreign()]);
        explore::<P, _>(ctx, prop, "v5.0-UNSUBACK", d, &v, new, |b| Ok(GenericPacket::V5_0Unsuback(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V5, idw: P::W, b: Body::Unsuback { id: m.id?, codes: m.codes?, props: m.props.unwrap_or_default() } })
        });
    }
}

fn without_id(ctx: &mut Ctx, prop: &str, d: usize) {
    {
        let new = v3_1_1::Connect::builder;
        let mut v = alphabet(&new);
        connect_setters!(v, clean_session);
        explore::<u16, _>(ctx, prop, "v3.1.1-CONNECT", d, &v, new, |b| Ok(GenericPacket::V3_1_1Connect(b.build()?)), |m| finish_connect(Ver::V3, m));
        let new = v5_0::Connect::builder;
        let mut v = alphabet(&new);
        connect_setters!(v, clean_start);
        set_props!(v, m.props, vec![], vec![Prop { id: P_RECEIVE_MAX, v: PV::U16(5) }, up("k", "v")], vec![Prop { id: P_WILL_DELAY, v: PV::U32(5) }]);
        let wd = Prop { id: P_WILL_DELAY, v: PV::U32(5) };
        let lw = lib_props(&[wd.clone()]);
        put(&mut v, "will_props([])", |b| Ok(b.will_props(vec![])), |m: &mut M| m.wprops = Some(vec![]));
        put(&mut v, "will_props([delay])", move |b| Ok(b.will_props(lw.clone())), move |m: &mut M| m.wprops = Some(vec![wd.clone()]));
        explore::<u16, _>(ctx, prop, "v5.0-CONNECT", d, &v, new, |b| Ok(GenericPacket::V5_0Connect(b.build()?)), |m| finish_connect(Ver::V5, m));
    }
    {
        let new = v3_1_1::Connack::builder;
        let mut v = alphabet(&new);
        set!(v, "session_present(true)", |b| b.session_present(true), |m| m.sp = Some(true));
        set!(v, "session_present(false)", |b| b.session_present(false), |m| m.sp = Some(false));
        code_setters!(v, return_code, ConnectReturnCode, 0, 5);
        explore::<u16, _>(ctx, prop, "v3.1.1-CONNACK", d, &v, new, |b| Ok(GenericPacket::V3_1_1Connack(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V3, idw: 2, b: Body::Connack { sp: m.sp?, code: m.code?, props: vec![] } })
        });
        let new = v5_0::Connack::builder;
        let mut v = alphabet(&new);
        set!(v, "session_present(true)", |b| b.session_present(true), |m| m.sp = Some(true));
        set!(v, "session_present(false)", |b| b.session_present(false), |m| m.sp = Some(false));
        code_setters!(v, reason_code, ConnectReasonCode, 0, 0x87);
        set_props!(v, m.props, vec![], vec![foreign(), up("k", "v")], vec![Prop { id: P_TOPIC_ALIAS, v: PV::U16(1) }]);
        explore::<u16, _>(ctx, prop, "v5.0-CONNACK", d, &v, new, |b| Ok(GenericPacket::V5_0Connack(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V5, idw: 2, b: Body::Connack { sp: m.sp?, code: m.code?, props: m.props.unwrap_or_default() } })
        });
    }
    {
        let new = v5_0::Disconnect::builder;
        let mut v = alphabet(&new);
        code_setters!(v, reason_code, DisconnectReasonCode, 0, 0x8e);
        set_props!(v, m.props, vec![], vec![reason(), up("k", "v")], vec![foreign()]);
        explore::<u16, _>(ctx, prop, "v5.0-DISCONNECT", d, &v, new, |b| Ok(GenericPacket::V5_0Disconnect(b.build()?)), |m| {
            Some(Pkt { ver: Ver::V5, idw: 2, b: Body::Disconnect { code: m.code, props: m.props } })
        });
        let new = v5_0::Auth::builder;
        let mut v = alphabet(&new);
        code_setters!(v, reason_code, AuthReasonCode, 0, 0x18);
        let meth = || Prop { id: P_AUTH_METHOD, v: PV::Str(s("m")) };
        set_props!(v, m.props, vec![], vec![meth(), up("k", "v")], vec![meth(), reason(), Prop { id: P_AUTH_DATA, v: PV::Bin(vec![0]) }], vec![foreign()]);
        explore::<u16, _>(ctx, prop, "v5.0-AUTH", d, &v, new, |b| Ok(GenericPacket::V5_0Auth(b.build()?)), |m| {
            // the builder supplies an empty property list to a reason code
            Some(Pkt { ver: Ver::V5, idw: 2, b: Body::Auth { code: m.code, props: m.props.or(m.code.map(|_| vec![])) } })
        });
    }
}

/// transformers of a built v5.0 PUBLISH
fn transformers<P: Pid + IntoPacketId<P>>(ctx: &mut Ctx, prop: &str, d: usize) {
    type F<P> = (&'static str, fn(v5_0::GenericPublish<P>) -> Result<v5_0::GenericPublish<P>, E>, fn(&mut Body) -> bool);
    fn strip(p: &mut Vec<Prop>) {
        p.retain(|x| x.id != P_TOPIC_ALIAS);
    }
    macro_rules! on {
        (|$topic:ident, $props:ident, $dup:ident| $e:expr) => {
            |b: &mut Body| match b {
                Body::Publish { topic: $topic, props: $props, dup: $dup, .. } => {
                    let _ = (&$topic, &$props, &$dup);
                    $e
                }
                _ => false,
            }
        };
    }
    let al = |x: u16| Prop { id: P_TOPIC_ALIAS, v: PV::U16(x) };
    let ts: Vec<F<P>> = vec![
        ("set_dup(true)", |p| Ok(p.set_dup(true)), on!(|_t, _p, d| { *d = true; true })),
        ("set_dup(false)", |p| Ok(p.set_dup(false)), on!(|_t, _p, d| { *d = false; true })),
        ("remove_topic_alias", |p| Ok(p.remove_topic_alias()), on!(|_t, p, _d| { strip(p); true })),
        ("remove_topic_alias_add_topic(x)", |p| p.remove_topic_alias_add_topic(s("x")), on!(|t, p, _d| if t.is_empty() { *t = s("x"); strip(p); true } else { false })),
        ("add_extracted_topic_name(y/z)", |p| p.add_extracted_topic_name("y/z"), on!(|t, _p, _d| if t.is_empty() { *t = s("y/z"); true } else { false })),
        ("remove_topic_add_topic_alias(1)", |p| Ok(p.remove_topic_add_topic_alias(1)), on!(|t, p, _d| { t.clear(); strip(p); p.push(Prop { id: P_TOPIC_ALIAS, v: PV::U16(1) }); true })),
        ("add_topic_alias(65535)", |p| Ok(p.add_topic_alias(65535)), on!(|_t, p, _d| { strip(p); p.push(Prop { id: P_TOPIC_ALIAS, v: PV::U16(65535) }); true })),
    ];
    let mut starts = vec![];
    let [i1, _] = ids::<P>();
    for (topic, alias) in [(s("t"), false), (s("t"), true), (s(""), true), ("t".repeat(120), false), ("t".repeat(60), true)] {
        for (qos, id) in [(0, None), (1, Some(i1)), (2, Some(i1))] {
            for extra in [vec![], vec![up("k", "v")], vec![up("k", &"v".repeat(117))]] {
                // payloads that put the Remaining Length on both sides of a length boundary
                for pay in [0usize, 1, 116, 117, 118, 119, 120, 121, 122, 123, 124] {
                    let mut props = extra.clone();
                    if alias {
                        props.insert(props.len() / 2, al(2));
                    }
                    starts.push(Pkt { ver: Ver::V5, idw: P::W, b: Body::Publish { dup: false, qos, retain: qos == 1, topic: topic.clone(), id, props, payload: vec![0x5a; pay] } });
                }
            }
        }
    }
    // property lists of a length on either side of a length boundary, before and after the alias
    for v in (116..=126).chain(16_366..=16_382) {
        for alias in [false, true] {
            for pay in [0usize, 3] {
                let mut props = vec![up("k", &"v".repeat(v))];
                if alias {
                    props.push(al(2));
                }
                starts.push(Pkt { ver: Ver::V5, idw: P::W, b: Body::Publish { dup: false, qos: 1, retain: false, topic: if alias && v % 2 == 0 { s("") } else { s("t") }, id: Some(i1), props, payload: vec![0x5a; pay] } });
            }
        }
    }
    let n = ts.len();
    let per = count(n, d);
    let label = format!("{prop}:transformers of v5.0-PUBLISH id{} ({} packets, {n} transformers, sequences up to {d})", P::W * 8, starts.len());
    enumerate_multi(ctx, &label, starts.len() * per, |i, sink| {
        let start = &starts[i / per];
        let w = word(i % per, n);
        let desc = || format!("{} . {}", short(start), w.iter().map(|x| ts[*x].0).collect::<Vec<_>>().join(" . "));
        let mut m = start.clone();
        for x in &w {
            if !ts[*x].2(&mut m.b) {
                return; // refused: the packet is consumed
            }
        }
        let run = || {
            let GenericPacket::V5_0Publish(mut p) = to_lib::<P>(start)? else { unreachable!() };
            for x in &w {
                p = ts[*x].1(p)?;
            }
            Ok(GenericPacket::V5_0Publish(p))
        };
        let r = guarded(|| -> Result<u64, (&str, String)> {
            let g: GenericPacket<P> = run().map_err(|e: E| ("transform-refused", format!("{e:?}")))?;
            let b = g.to_continuous_buffer();
            let mut vec = vec![];
            for x in g.to_buffers() {
                vec.extend_from_slice(&x);
            }
            if prop == "C02" {
                if from_lib(&g) != m {
                    return Err(("accessors", format!("accessors say {}", short(&from_lib(&g)))));
                }
                let rl = header(&b).map(|(h, rl)| h + rl);
                if g.size() != b.len() || rl != Some(b.len()) || vec != b {
                    return Err(("size", format!("size() {} Remaining Length {rl:?} contiguous {} vectored {}", g.size(), hex(&b), hex(&vec))));
                }
            } else if b != m.enc() || vec != b {
                return Err(("encode", format!("produced {}, the specification prescribes {}", hex(&b), hex(&m.enc()))));
            }
            Ok(w.len() as u64 * 16 + header(&b).map_or(0, |x| x.0) as u64)
        });
        let bad = |k: &str, m: String| Err(Bad::new(format!("{prop}/{k}/transformed-publish-v5"), trunc(format!("{m}  {}", desc()))));
        sink.put(match r {
            Err(e) => bad("panic", format!("panic: {e}")),
            Ok(Err((k, m))) => bad(k, m),
            Ok(Ok(x)) => Ok(x),
        });
    });
}

/// every accepted argument type x every length around the representation thresholds
fn arguments(ctx: &mut Ctx, prop: &str) {
    let mut lens: Vec<usize> = (0..=300).collect();
    lens.extend([16_382, 16_383, 16_384, 65_534, 65_535, 65_536, 65_537]);
    let label = format!("{prop}:argument types x {} lengths", lens.len());
    enumerate_multi(ctx, &label, lens.len() * 3, |i, sink| {
        let n = lens[i / 3];
        // contents: ASCII, all-distinct bytes, multi-byte characters
        let text: String = match i % 3 {
            0 => "a".repeat(n),
            1 => (0..n).map(|k| (b'!' + (k % 90) as u8) as char).collect(),
            _ => {
                let mut t: String = "é".repeat(n / 2);
                if n % 2 == 1 {
                    t.push('z');
                }
                t
            }
        };
        let bytes: Vec<u8> = if i % 3 == 1 { (0..n).map(|k| (k * 7) as u8).collect() } else { text.clone().into_bytes() };
        let fits = n <= 65_535;
        let r = guarded(|| -> Result<u64, (&str, String)> {
            // strings
            let from_fn: Vec<(&str, Result<MqttString, E>)> = vec![
                ("MqttString::new(&str)", MqttString::new(text.as_str())),
                ("MqttString::new(String)", MqttString::new(text.clone())),
                ("&str", MqttString::try_from(text.as_str())),
                ("String", MqttString::try_from(text.clone())),
                ("&String", MqttString::try_from(&text)),
            ];
            for (how, r) in from_fn {
                match r {
                    Ok(x) => {
                        let mut want = (n as u16).to_be_bytes().to_vec();
                        want.extend_from_slice(text.as_bytes());
                        let mut vec = vec![];
                        for b in x.to_buffers() {
                            vec.extend_from_slice(&b);
                        }
                        if !fits || x.as_str() != text || x.as_bytes() != want || x.len() != n || x.is_empty() != (n == 0) || x.size() != want.len() || x.to_continuous_buffer() != want || vec != want {
                            return Err(("string", format!("{how} of {n} bytes: {} {} {}", x.len(), x.size(), hex(&x.to_continuous_buffer()))));
                        }
                        let mut more = want.clone();
                        more.extend([1, 2, 3]);
                        match MqttString::decode(&more) {
                            Ok((y, c)) if y == x && c == want.len() => {}
                            o => return Err(("string", format!("{how} of {n} bytes decodes as {o:?}"))),
                        }
                    }
                    Err(e) if fits => return Err(("string", format!("{how} of {n} bytes refused: {e:?}"))),
                    Err(_) => {}
                }
            }
            let mut bins: Vec<(&str, Result<MqttBinary, E>)> = vec![
                ("MqttBinary::new(&[u8])", MqttBinary::new(&bytes[..])),
                ("MqttBinary::new(Vec)", MqttBinary::new(bytes.clone())),
                ("Vec", MqttBinary::try_from(bytes.clone())),
                ("&Vec", MqttBinary::try_from(&bytes)),
            ];
            if i % 3 != 1 {
                bins.push(("&str", MqttBinary::try_from(text.as_str())));
            }
            macro_rules! arr {
                ($($k:expr),*) => { $( if n == $k { let a: &[u8; $k] = bytes[..].try_into().unwrap(); bins.push(("&[u8; N]", MqttBinary::try_from(a))); } )* };
            }
            arr!(0, 1, 9, 10, 11, 12, 13, 21, 22, 23, 24, 25, 29, 30, 31, 32, 45, 46, 47, 48, 49, 126, 127, 128, 255, 256);
            for (how, r) in bins {
                match r {
                    Ok(x) => {
                        let mut want = (n as u16).to_be_bytes().to_vec();
                        want.extend_from_slice(&bytes);
                        let mut vec = vec![];
                        for b in x.to_buffers() {
                            vec.extend_from_slice(&b);
                        }
                        if !fits || x.as_slice() != bytes || x.as_bytes() != want || x.len() != n || x.is_empty() != (n == 0) || x.size() != want.len() || x.to_continuous_buffer() != want || vec != want {
                            return Err(("binary", format!("{how} of {n} bytes: {} {} {}", x.len(), x.size(), hex(&x.to_continuous_buffer()))));
                        }
                        let mut more = want.clone();
                        more.extend([1, 2, 3]);
                        match MqttBinary::decode(&more) {
                            Ok((y, c)) if y == x && c == want.len() => {}
                            o => return Err(("binary", format!("{how} of {n} bytes decodes as {o:?}"))),
                        }
                    }
                    Err(e) if fits => return Err(("binary", format!("{how} of {n} bytes refused: {e:?}"))),
                    Err(_) => {}
                }
            }
            // payloads
            use mqtt::IntoPayload;
            let arc: Arc<[u8]> = Arc::from(&bytes[..]);
            let mut framed = vec![0xEE; 3];
            framed.extend_from_slice(&bytes);
            framed.extend([0xEE; 2]);
            let mut pays: Vec<(&str, mqtt::ArcPayload)> = vec![
                ("&[u8]", (&bytes[..]).into_payload()),
                ("Vec", bytes.clone().into_payload()),
                ("&Vec", (&bytes).into_payload()),
                ("Arc<[u8]>", arc.clone().into_payload()),
                ("ArcPayload", mqtt::ArcPayload::new(arc.clone(), 0, n).into_payload()),
                ("ArcPayload inside a larger buffer", mqtt::ArcPayload::new(Arc::from(&framed[..]), 3, n)),
            ];
            if i % 3 != 1 {
                pays.push(("&str", text.as_str().into_payload()));
                pays.push(("String", text.clone().into_payload()));
            }
            macro_rules! arrp {
                ($($k:expr),*) => { $( if n == $k { let a: &[u8; $k] = bytes[..].try_into().unwrap(); pays.push(("&[u8; N]", a.into_payload())); } )* };
            }
            arrp!(0, 1, 9, 10, 11, 12, 13, 21, 22, 23, 24, 25, 29, 30, 31, 32, 45, 46, 47, 48, 49, 126, 127, 128, 255, 256);
            let reference = pays[0].1.clone();
            for (how, x) in pays {
                if x.as_slice() != bytes || x.len() != n || x.is_empty() != (n == 0) || x != reference {
                    return Err(("payload", format!("{how} of {n} bytes: {} {}", x.len(), hex(x.as_slice()))));
                }
                for wide in [false, true] {
                    let (b, want) = if wide {
                        let p = v5_0::GenericPublish::<u32>::builder().topic_name("t").unwrap().payload(x.clone()).build().unwrap();
                        let g = GenericPacket::<u32>::V5_0Publish(p);
                        (g.to_continuous_buffer(), from_lib(&g))
                    } else {
                        let p = v3_1_1::GenericPublish::<u16>::builder().topic_name("t").unwrap().payload(x.clone()).build().unwrap();
                        let g = GenericPacket::<u16>::V3_1_1Publish(p);
                        (g.to_continuous_buffer(), from_lib(&g))
                    };
                    if b != want.enc() || !b.ends_with(&bytes) {
                        return Err(("payload", format!("{how} of {n} bytes in a PUBLISH: {}", hex(&b))));
                    }
                }
            }
            Ok(n as u64)
        });
        let bad = |k: &str, m: String| Err(Bad::new(format!("{prop}/argument/{k}"), trunc(m)));
        sink.put(match r {
            Err(e) => bad("panic", format!("panic: {e}")),
            Ok(Err((k, m))) => bad(k, m),
            Ok(Ok(x)) => Ok(x),
        });
    });
    // subscription options: every sequence of setters up to five calls, from every legal start
    let legal: Vec<u8> = (0..64u8).filter(|o| o & 3 != 3 && o >> 4 != 3).collect();
    let ops: Vec<(&str, fn(lp::SubOpts) -> lp::SubOpts, fn(u8) -> u8)> = vec![
        ("set_qos(0)", |o| o.set_qos(Qos::AtMostOnce), |x| x & !3),
        ("set_qos(1)", |o| o.set_qos(Qos::AtLeastOnce), |x| x & !3 | 1),
        ("set_qos(2)", |o| o.set_qos(Qos::ExactlyOnce), |x| x & !3 | 2),
        ("set_nl(true)", |o| o.set_nl(true), |x| x | 4),
        ("set_nl(false)", |o| o.set_nl(false), |x| x & !4),
        ("set_rap(true)", |o| o.set_rap(true), |x| x | 8),
        ("set_rap(false)", |o| o.set_rap(false), |x| x & !8),
        ("set_rh(0)", |o| o.set_rh(lp::RetainHandling::SendRetained), |x| x & !0x30),
        ("set_rh(1)", |o| o.set_rh(lp::RetainHandling::SendRetainedIfNotExists), |x| x & !0x30 | 0x10),
        ("set_rh(2)", |o| o.set_rh(lp::RetainHandling::DoNotSendRetained), |x| x & !0x30 | 0x20),
    ];
    let depth = if ctx.quick() { 4 } else { 5 };
    let per = count(ops.len(), depth);
    enumerate_multi(ctx, &format!("{prop}:subscription option setters ({} starts, sequences up to {depth})", legal.len() + 1), (legal.len() + 1) * per, |i, sink| {
        let k = i / per;
        let w = word(i % per, ops.len());
        let mut want = if k == 0 { 0 } else { legal[k - 1] };
        let start = want;
        let r = guarded(|| {
            let mut o = if k == 0 { lp::SubOpts::new() } else { lp::SubOpts::from_u8(start).unwrap() };
            for x in &w {
                o = ops[*x].1(o);
            }
            let e = lp::SubEntry::new("f", o).unwrap();
            let back = o.qos() as u8 | (o.nl() as u8) << 2 | (o.rap() as u8) << 3 | (o.rh() as u8) << 4;
            (o.to_buffer()[0], back, e.to_continuous_buffer(), e.size())
        });
        for x in &w {
            want = ops[*x].2(want);
        }
        let d = || format!("from {start:#04x}: {}", w.iter().map(|x| ops[*x].0).collect::<Vec<_>>().join(" . "));
        sink.put(match r {
            Err(e) => Err(Bad::new(format!("{prop}/argument/sub-opts"), format!("panic: {e}  {}", d()))),
            Ok((a, b, c, z)) if a != want || b != want || c != [0, 1, b'f', want] || z != 4 => {
                Err(Bad::new(format!("{prop}/argument/sub-opts"), format!("options byte {a:#04x}, accessors {b:#04x}, entry {c:02x?}, expected {want:#04x}  {}", d())))
            }
            Ok(_) => Ok(want as u64),
        });
    });
}

pub fn run(ctx: &mut Ctx, prop: &str) {
    let q = ctx.quick();
    arguments(ctx, prop);
    without_id(ctx, prop, if q { 5 } else { 7 });
    with_id::<u16>(ctx, prop, if q { 5 } else { 7 });
    with_id::<u32>(ctx, prop, if q { 5 } else { 7 });
    transformers::<u16>(ctx, prop, if q { 4 } else { 5 });
    transformers::<u32>(ctx, prop, if q { 4 } else { 5 });
    ctx.bounds.push("builders as transition systems: all sequences of setter calls up to length 5 (thorough 7, at most 60M sequences per kind), any order, repetition and omission, all accepted argument types; transformers of a built v5.0 PUBLISH: all sequences up to 4 (thorough 5); subscription option setters from every legal byte".into());
}
