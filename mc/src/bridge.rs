//! Translation between the abstract packets of `refcodec` and the crate's packets,
//! through public builders and public accessors only.
use crate::refcodec::*;
use mqtt_protocol_core::mqtt;
use mqtt::packet as lp;
use mqtt::packet::{v3_1_1, v5_0, GenericPacket, IsPacketId, Property, Qos};
use mqtt::result_code::*;
use mqtt::result_code as rc;

pub trait Pid: IsPacketId + Send + Sync {
    fn to_u32x(self) -> u32;
    fn from_u32x(x: u32) -> Self;
    const W: u8;
}
impl Pid for u16 {
    fn to_u32x(self) -> u32 {
        self as u32
    }
    fn from_u32x(x: u32) -> u16 {
        x as u16
    }
    const W: u8 = 2;
}
impl Pid for u32 {
    fn to_u32x(self) -> u32 {
        self
    }
    fn from_u32x(x: u32) -> u32 {
        x
    }
    const W: u8 = 4;
}

type E = MqttError;

pub fn prop_to_lib(p: &Prop) -> Result<Property, E> {
    use PV::*;
    Ok(match (p.id, &p.v) {
        (P_PAYLOAD_FORMAT, U8(x)) => Property::PayloadFormatIndicator(lp::PayloadFormatIndicator::new(match x {
            0 => lp::PayloadFormat::Binary,
            1 => lp::PayloadFormat::String,
            _ => return Err(MqttError::MalformedPacket),
        })?),
        (P_MSG_EXPIRY, U32(x)) => Property::MessageExpiryInterval(lp::MessageExpiryInterval::new(*x)?),
        (P_CONTENT_TYPE, Str(s)) => Property::ContentType(lp::ContentType::new(s.as_str())?),
        (P_RESPONSE_TOPIC, Str(s)) => Property::ResponseTopic(lp::ResponseTopic::new(s.as_str())?),
        (P_CORRELATION, Bin(b)) => Property::CorrelationData(lp::CorrelationData::new(b.clone())?),
        (P_SUB_ID, Vbi(x)) => Property::SubscriptionIdentifier(lp::SubscriptionIdentifier::new(*x)?),
        (P_SESSION_EXPIRY, U32(x)) => Property::SessionExpiryInterval(lp::SessionExpiryInterval::new(*x)?),
        (P_ASSIGNED_CID, Str(s)) => Property::AssignedClientIdentifier(lp::AssignedClientIdentifier::new(s.as_str())?),
        (P_SERVER_KEEP_ALIVE, U16(x)) => Property::ServerKeepAlive(lp::ServerKeepAlive::new(*x)?),
        (P_AUTH_METHOD, Str(s)) => Property::AuthenticationMethod(lp::AuthenticationMethod::new(s.as_str())?),
        (P_AUTH_DATA, Bin(b)) => Property::AuthenticationData(lp::AuthenticationData::new(b.clone())?),
        (P_REQ_PROBLEM, U8(x)) => Property::RequestProblemInformation(lp::RequestProblemInformation::new(*x)?),
        (P_WILL_DELAY, U32(x)) => Property::WillDelayInterval(lp::WillDelayInterval::new(*x)?),
        (P_REQ_RESPONSE, U8(x)) => Property::RequestResponseInformation(lp::RequestResponseInformation::new(*x)?),
        (P_RESPONSE_INFO, Str(s)) => Property::ResponseInformation(lp::ResponseInformation::new(s.as_str())?),
        (P_SERVER_REF, Str(s)) => Property::ServerReference(lp::ServerReference::new(s.as_str())?),
        (P_REASON, Str(s)) => Property::ReasonString(lp::ReasonString::new(s.as_str())?),
        (P_RECEIVE_MAX, U16(x)) => Property::ReceiveMaximum(lp::ReceiveMaximum::new(*x)?),
        (P_TOPIC_ALIAS_MAX, U16(x)) => Property::TopicAliasMaximum(lp::TopicAliasMaximum::new(*x)?),
        (P_TOPIC_ALIAS, U16(x)) => Property::TopicAlias(lp::TopicAlias::new(*x)?),
        (P_MAX_QOS, U8(x)) => Property::MaximumQos(lp::MaximumQos::new(*x)?),
        (P_RETAIN_AVAIL, U8(x)) => Property::RetainAvailable(lp::RetainAvailable::new(*x)?),
        (P_USER, Pair(k, v)) => Property::UserProperty(lp::UserProperty::new(k.as_str(), v.as_str())?),
        (P_MAX_PACKET, U32(x)) => Property::MaximumPacketSize(lp::MaximumPacketSize::new(*x)?),
        (P_WILDCARD, U8(x)) => Property::WildcardSubscriptionAvailable(lp::WildcardSubscriptionAvailable::new(*x)?),
        (P_SUBID_AVAIL, U8(x)) => Property::SubscriptionIdentifierAvailable(lp::SubscriptionIdentifierAvailable::new(*x)?),
        (P_SHARED, U8(x)) => Property::SharedSubscriptionAvailable(lp::SharedSubscriptionAvailable::new(*x)?),
        _ => panic!("harness: property type mismatch {p:?}"),
    })
}
pub fn props_to_lib(ps: &[Prop]) -> Result<Vec<Property>, E> {
    ps.iter().map(prop_to_lib).collect()
}

pub fn prop_from_lib(p: &Property) -> Prop {
    use PV::*;
    let s = |x: &str| Str(x.to_string());
    let b = |x: &[u8]| Bin(x.to_vec());
    let (id, v) = match p {
        Property::PayloadFormatIndicator(p) => (P_PAYLOAD_FORMAT, U8(p.val())),
        Property::MessageExpiryInterval(p) => (P_MSG_EXPIRY, U32(p.val())),
        Property::ContentType(p) => (P_CONTENT_TYPE, s(p.val())),
        Property::ResponseTopic(p) => (P_RESPONSE_TOPIC, s(p.val())),
        Property::CorrelationData(p) => (P_CORRELATION, b(p.val())),
        Property::SubscriptionIdentifier(p) => (P_SUB_ID, Vbi(p.val())),
        Property::SessionExpiryInterval(p) => (P_SESSION_EXPIRY, U32(p.val())),
        Property::AssignedClientIdentifier(p) => (P_ASSIGNED_CID, s(p.val())),
        Property::ServerKeepAlive(p) => (P_SERVER_KEEP_ALIVE, U16(p.val())),
        Property::AuthenticationMethod(p) => (P_AUTH_METHOD, s(p.val())),
        Property::AuthenticationData(p) => (P_AUTH_DATA, b(p.val())),
        Property::RequestProblemInformation(p) => (P_REQ_PROBLEM, U8(p.val())),
        Property::WillDelayInterval(p) => (P_WILL_DELAY, U32(p.val())),
        Property::RequestResponseInformation(p) => (P_REQ_RESPONSE, U8(p.val())),
        Property::ResponseInformation(p) => (P_RESPONSE_INFO, s(p.val())),
        Property::ServerReference(p) => (P_SERVER_REF, s(p.val())),
        Property::ReasonString(p) => (P_REASON, s(p.val())),
        Property::ReceiveMaximum(p) => (P_RECEIVE_MAX, U16(p.val())),
        Property::TopicAliasMaximum(p) => (P_TOPIC_ALIAS_MAX, U16(p.val())),
        Property::TopicAlias(p) => (P_TOPIC_ALIAS, U16(p.val())),
        Property::MaximumQos(p) => (P_MAX_QOS, U8(p.val())),
        Property::RetainAvailable(p) => (P_RETAIN_AVAIL, U8(p.val())),
        Property::UserProperty(p) => (P_USER, Pair(p.key().to_string(), p.val().to_string())),
        Property::MaximumPacketSize(p) => (P_MAX_PACKET, U32(p.val())),
        Property::WildcardSubscriptionAvailable(p) => (P_WILDCARD, U8(p.val())),
        Property::SubscriptionIdentifierAvailable(p) => (P_SUBID_AVAIL, U8(p.val())),
        Property::SharedSubscriptionAvailable(p) => (P_SHARED, U8(p.val())),
    };
    Prop { id, v }
}
pub fn props_from_lib(ps: &[Property]) -> Vec<Prop> {
    ps.iter().map(prop_from_lib).collect()
}

fn q(x: u8) -> Result<Qos, E> {
    Ok(match x {
        0 => Qos::AtMostOnce,
        1 => Qos::AtLeastOnce,
        2 => Qos::ExactlyOnce,
        _ => return Err(MqttError::InvalidQos),
    })
}
fn code<T: TryFrom<u8>>(c: u8) -> Result<T, E> {
    T::try_from(c).map_err(|_| MqttError::MalformedPacket)
}
fn codes<T: TryFrom<u8>>(c: &[u8]) -> Result<Vec<T>, E> {
    c.iter().map(|x| code(*x)).collect()
}
fn entries(es: &[(String, u8)]) -> Result<Vec<lp::SubEntry>, E> {
    es.iter()
        .map(|(t, o)| {
            let opts = lp::SubOpts::new()
                .set_qos(q(o & 3)?)
                .set_nl(o & 4 != 0)
                .set_rap(o & 8 != 0)
                .set_rh(match (o >> 4) & 3 {
                    0 => lp::RetainHandling::SendRetained,
                    1 => lp::RetainHandling::SendRetainedIfNotExists,
                    2 => lp::RetainHandling::DoNotSendRetained,
                    _ => return Err(MqttError::MalformedPacket),
                });
            lp::SubEntry::new(t.as_str(), opts)
        })
        .collect()
}
fn entries_from(es: &[lp::SubEntry]) -> Vec<(String, u8)> {
    es.iter()
        .map(|e| {
            let o = e.sub_opts();
            let rh = match o.rh() {
                lp::RetainHandling::SendRetained => 0,
                lp::RetainHandling::SendRetainedIfNotExists => 1,
                lp::RetainHandling::DoNotSendRetained => 2,
            };
            (
                e.topic_filter().to_string(),
                o.qos() as u8 | (o.nl() as u8) << 2 | (o.rap() as u8) << 3 | rh << 4,
            )
        })
        .collect()
}

macro_rules! ack3 {
    ($ty:ident, $var:ident, $id:expr, $code:expr) => {{
        let mut b = v3_1_1::$ty::<P>::builder().packet_id(P::from_u32x($id));
        if let Some(c) = $code {
            b = b.reason_code(code(*c)?);
        }
        GenericPacket::$var(b.build()?)
    }};
}
macro_rules! ack5 {
    ($ty:ident, $var:ident, $id:expr, $code:expr, $props:expr) => {{
        let mut b = v5_0::$ty::<P>::builder().packet_id(P::from_u32x($id));
        if let Some(c) = $code {
            b = b.reason_code(code(*c)?);
        }
        if let Some(p) = $props {
            b = b.props(props_to_lib(p)?);
        }
        GenericPacket::$var(b.build()?)
    }};
}

/// Build the crate's packet through its public builder.
pub fn to_lib<P: Pid>(p: &Pkt) -> Result<GenericPacket<P>, E>
where
    P: lp::IntoPacketId<P>,
{
    Ok(match (&p.ver, &p.b) {
        (Ver::V3, Body::Connect { clean, keep_alive, client_id, will, user, pass, .. }) => {
            let mut b = v3_1_1::Connect::builder().client_id(client_id.as_str())?.clean_session(*clean).keep_alive(*keep_alive);
            if let Some(w) = will {
                b = b.will_message(w.topic.as_str(), w.payload.clone(), q(w.qos)?, w.retain)?;
            }
            if let Some(u) = user {
                b = b.user_name(u.as_str())?;
            }
            if let Some(x) = pass {
                b = b.password(x.clone())?;
            }
            GenericPacket::V3_1_1Connect(b.build()?)
        }
        (Ver::V5, Body::Connect { clean, keep_alive, client_id, will, user, pass, props }) => {
            let mut b = v5_0::Connect::builder().client_id(client_id.as_str())?.clean_start(*clean).keep_alive(*keep_alive);
            if let Some(w) = will {
                b = b.will_message(w.topic.as_str(), w.payload.clone(), q(w.qos)?, w.retain)?;
                b = b.will_props(props_to_lib(&w.props)?);
            }
            if let Some(u) = user {
                b = b.user_name(u.as_str())?;
            }
            if let Some(x) = pass {
                b = b.password(x.clone())?;
            }
            b = b.props(props_to_lib(props)?);
            GenericPacket::V5_0Connect(b.build()?)
        }
        (Ver::V3, Body::Connack { sp, code: c, .. }) => GenericPacket::V3_1_1Connack(
            v3_1_1::Connack::builder().session_present(*sp).return_code(code::<ConnectReturnCode>(*c)?).build()?,
        ),
        (Ver::V5, Body::Connack { sp, code: c, props }) => GenericPacket::V5_0Connack(
            v5_0::Connack::builder()
                .session_present(*sp)
                .reason_code(code::<ConnectReasonCode>(*c)?)
                .props(props_to_lib(props)?)
                .build()?,
        ),
        (Ver::V3, Body::Publish { dup, qos, retain, topic, id, payload, .. }) => {
            let mut b = v3_1_1::GenericPublish::<P>::builder().topic_name(topic.as_str())?.qos(q(*qos)?).dup(*dup).retain(*retain);
            if let Some(i) = id {
                b = b.packet_id(P::from_u32x(*i));
            }
            b = b.payload(payload.clone());
            GenericPacket::V3_1_1Publish(b.build()?)
        }
        (Ver::V5, Body::Publish { dup, qos, retain, topic, id, payload, props }) => {
            let mut b = v5_0::GenericPublish::<P>::builder().topic_name(topic.as_str())?.qos(q(*qos)?).dup(*dup).retain(*retain);
            if let Some(i) = id {
                b = b.packet_id(P::from_u32x(*i));
            }
            b = b.payload(payload.clone()).props(props_to_lib(props)?);
            GenericPacket::V5_0Publish(b.build()?)
        }
        (Ver::V3, Body::Ack { kind, id, code: c, .. }) => match kind {
            4 => ack3!(GenericPuback, V3_1_1Puback, *id, c),
            5 => ack3!(GenericPubrec, V3_1_1Pubrec, *id, c),
            6 => ack3!(GenericPubrel, V3_1_1Pubrel, *id, c),
            _ => ack3!(GenericPubcomp, V3_1_1Pubcomp, *id, c),
        },
        (Ver::V5, Body::Ack { kind, id, code: c, props }) => match kind {
            4 => ack5!(GenericPuback, V5_0Puback, *id, c, props),
            5 => ack5!(GenericPubrec, V5_0Pubrec, *id, c, props),
            6 => ack5!(GenericPubrel, V5_0Pubrel, *id, c, props),
            _ => ack5!(GenericPubcomp, V5_0Pubcomp, *id, c, props),
        },
        (Ver::V3, Body::Subscribe { id, entries: es, .. }) => GenericPacket::V3_1_1Subscribe(
            v3_1_1::GenericSubscribe::<P>::builder().packet_id(P::from_u32x(*id)).entries(entries(es)?).build()?,
        ),
        (Ver::V5, Body::Subscribe { id, entries: es, props }) => GenericPacket::V5_0Subscribe(
            v5_0::GenericSubscribe::<P>::builder()
                .packet_id(P::from_u32x(*id))
                .entries(entries(es)?)
                .props(props_to_lib(props)?)
                .build()?,
        ),
        (Ver::V3, Body::Suback { id, codes: c, .. }) => GenericPacket::V3_1_1Suback(
            v3_1_1::GenericSuback::<P>::builder()
                .packet_id(P::from_u32x(*id))
                .return_codes(codes::<rc::SubackReturnCode>(c)?)
                .build()?,
        ),
        (Ver::V5, Body::Suback { id, codes: c, props }) => GenericPacket::V5_0Suback(
            v5_0::GenericSuback::<P>::builder()
                .packet_id(P::from_u32x(*id))
                .reason_codes(codes::<rc::SubackReasonCode>(c)?)
                .props(props_to_lib(props)?)
                .build()?,
        ),
        (Ver::V3, Body::Unsubscribe { id, topics, .. }) => GenericPacket::V3_1_1Unsubscribe(
            v3_1_1::GenericUnsubscribe::<P>::builder()
                .packet_id(P::from_u32x(*id))
                .entries(topics.iter().map(|s| s.as_str()).collect::<Vec<_>>())?
                .build()?,
        ),
        (Ver::V5, Body::Unsubscribe { id, topics, props }) => GenericPacket::V5_0Unsubscribe(
            v5_0::GenericUnsubscribe::<P>::builder()
                .packet_id(P::from_u32x(*id))
                .entries(topics.iter().map(|s| s.as_str()).collect::<Vec<_>>())?
                .props(props_to_lib(props)?)
                .build()?,
        ),
        (Ver::V3, Body::Unsuback { id, .. }) => GenericPacket::V3_1_1Unsuback(
            v3_1_1::GenericUnsuback::<P>::builder().packet_id(P::from_u32x(*id)).build()?,
        ),
        (Ver::V5, Body::Unsuback { id, codes: c, props }) => GenericPacket::V5_0Unsuback(
            v5_0::GenericUnsuback::<P>::builder()
                .packet_id(P::from_u32x(*id))
                .reason_codes(codes::<rc::UnsubackReasonCode>(c)?)
                .props(props_to_lib(props)?)
                .build()?,
        ),
        (Ver::V3, Body::Pingreq) => GenericPacket::V3_1_1Pingreq(v3_1_1::Pingreq::builder().build()?),
        (Ver::V5, Body::Pingreq) => GenericPacket::V5_0Pingreq(v5_0::Pingreq::builder().build()?),
        (Ver::V3, Body::Pingresp) => GenericPacket::V3_1_1Pingresp(v3_1_1::Pingresp::builder().build()?),
        (Ver::V5, Body::Pingresp) => GenericPacket::V5_0Pingresp(v5_0::Pingresp::builder().build()?),
        (Ver::V3, Body::Disconnect { .. }) => GenericPacket::V3_1_1Disconnect(v3_1_1::Disconnect::builder().build()?),
        (Ver::V5, Body::Disconnect { code: c, props }) => {
            let mut b = v5_0::Disconnect::builder();
            if let Some(c) = c {
                b = b.reason_code(code::<DisconnectReasonCode>(*c)?);
            }
            if let Some(p) = props {
                b = b.props(props_to_lib(p)?);
            }
            GenericPacket::V5_0Disconnect(b.build()?)
        }
        (Ver::V5, Body::Auth { code: c, props }) => {
            let mut b = v5_0::Auth::builder();
            if let Some(c) = c {
                b = b.reason_code(code::<AuthReasonCode>(*c)?);
            }
            if let Some(p) = props {
                b = b.props(props_to_lib(p)?);
            }
            GenericPacket::V5_0Auth(b.build()?)
        }
        (Ver::V3, Body::Auth { .. }) => return Err(MqttError::MalformedPacket),
    })
}

macro_rules! af3 {
    ($p:expr, $k:expr) => {
        (Ver::V3, Body::Ack { kind: $k, id: $p.packet_id().to_u32x(), code: $p.reason_code().map(|c| c as u8), props: None })
    };
}
macro_rules! af5 {
    ($p:expr, $k:expr) => {
        (
            Ver::V5,
            Body::Ack {
                kind: $k,
                id: $p.packet_id().to_u32x(),
                code: $p.reason_code().map(|c| c as u8),
                props: $p.props().as_ref().map(|v| props_from_lib(v)),
            },
        )
    };
}

/// Read the crate's packet through its public accessors.
pub fn from_lib<P: Pid>(g: &GenericPacket<P>) -> Pkt {
    let (ver, b) = match g {
        GenericPacket::V3_1_1Connect(c) => (
            Ver::V3,
            Body::Connect {
                clean: c.clean_session(),
                keep_alive: c.keep_alive(),
                client_id: c.client_id().to_string(),
                will: if c.will_flag() {
                    Some(Will {
                        topic: c.will_topic().unwrap_or("<none>").to_string(),
                        payload: c.will_payload().unwrap_or(b"<none>").to_vec(),
                        qos: c.will_qos() as u8,
                        retain: c.will_retain(),
                        props: vec![],
                    })
                } else {
                    None
                },
                user: c.user_name().map(|s| s.to_string()),
                pass: c.password().map(|s| s.to_vec()),
                props: vec![],
            },
        ),
        GenericPacket::V5_0Connect(c) => (
            Ver::V5,
            Body::Connect {
                clean: c.clean_start(),
                keep_alive: c.keep_alive(),
                client_id: c.client_id().to_string(),
                will: if c.will_flag() {
                    Some(Will {
                        topic: c.will_topic().unwrap_or("<none>").to_string(),
                        payload: c.will_payload().unwrap_or(b"<none>").to_vec(),
                        qos: c.will_qos() as u8,
                        retain: c.will_retain(),
                        props: props_from_lib(c.will_props()),
                    })
                } else {
                    None
                },
                user: c.user_name().map(|s| s.to_string()),
                pass: c.password().map(|s| s.to_vec()),
                props: props_from_lib(c.props()),
            },
        ),
        GenericPacket::V3_1_1Connack(c) => {
            (Ver::V3, Body::Connack { sp: c.session_present(), code: c.return_code() as u8, props: vec![] })
        }
        GenericPacket::V5_0Connack(c) => (
            Ver::V5,
            Body::Connack { sp: c.session_present(), code: c.reason_code() as u8, props: props_from_lib(c.props()) },
        ),
        GenericPacket::V3_1_1Publish(p) => (
            Ver::V3,
            Body::Publish {
                dup: p.dup(),
                qos: p.qos() as u8,
                retain: p.retain(),
                topic: p.topic_name().to_string(),
                id: p.packet_id().map(|i| i.to_u32x()),
                props: vec![],
                payload: p.payload().as_slice().to_vec(),
            },
        ),
        GenericPacket::V5_0Publish(p) => (
            Ver::V5,
            Body::Publish {
                dup: p.dup(),
                qos: p.qos() as u8,
                retain: p.retain(),
                topic: p.topic_name().to_string(),
                id: p.packet_id().map(|i| i.to_u32x()),
                props: props_from_lib(p.props()),
                payload: p.payload().as_slice().to_vec(),
            },
        ),
        GenericPacket::V3_1_1Puback(p) => af3!(p, 4),
        GenericPacket::V3_1_1Pubrec(p) => af3!(p, 5),
        GenericPacket::V3_1_1Pubrel(p) => af3!(p, 6),
        GenericPacket::V3_1_1Pubcomp(p) => af3!(p, 7),
        GenericPacket::V5_0Puback(p) => af5!(p, 4),
        GenericPacket::V5_0Pubrec(p) => af5!(p, 5),
        GenericPacket::V5_0Pubrel(p) => af5!(p, 6),
        GenericPacket::V5_0Pubcomp(p) => af5!(p, 7),
        GenericPacket::V3_1_1Subscribe(p) => (
            Ver::V3,
            Body::Subscribe { id: p.packet_id().to_u32x(), props: vec![], entries: entries_from(p.entries()) },
        ),
        GenericPacket::V5_0Subscribe(p) => (
            Ver::V5,
            Body::Subscribe {
                id: p.packet_id().to_u32x(),
                props: props_from_lib(p.props()),
                entries: entries_from(p.entries()),
            },
        ),
        GenericPacket::V3_1_1Suback(p) => (
            Ver::V3,
            Body::Suback {
                id: p.packet_id().to_u32x(),
                props: vec![],
                codes: p.return_codes().iter().map(|c| *c as u8).collect(),
            },
        ),
        GenericPacket::V5_0Suback(p) => (
            Ver::V5,
            Body::Suback {
                id: p.packet_id().to_u32x(),
                props: props_from_lib(p.props()),
                codes: p.reason_codes().iter().map(|c| *c as u8).collect(),
            },
        ),
        GenericPacket::V3_1_1Unsubscribe(p) => (
            Ver::V3,
            Body::Unsubscribe {
                id: p.packet_id().to_u32x(),
                props: vec![],
                topics: p.entries().iter().map(|s| s.as_str().to_string()).collect(),
            },
        ),
        GenericPacket::V5_0Unsubscribe(p) => (
            Ver::V5,
            Body::Unsubscribe {
                id: p.packet_id().to_u32x(),
                props: props_from_lib(p.props()),
                topics: p.entries().iter().map(|s| s.as_str().to_string()).collect(),
            },
        ),
        GenericPacket::V3_1_1Unsuback(p) => {
            (Ver::V3, Body::Unsuback { id: p.packet_id().to_u32x(), props: vec![], codes: vec![] })
        }
        GenericPacket::V5_0Unsuback(p) => (
            Ver::V5,
            Body::Unsuback {
                id: p.packet_id().to_u32x(),
                props: props_from_lib(p.props()),
                codes: p.reason_codes().iter().map(|c| *c as u8).collect(),
            },
        ),
        GenericPacket::V3_1_1Pingreq(_) => (Ver::V3, Body::Pingreq),
        GenericPacket::V5_0Pingreq(_) => (Ver::V5, Body::Pingreq),
        GenericPacket::V3_1_1Pingresp(_) => (Ver::V3, Body::Pingresp),
        GenericPacket::V5_0Pingresp(_) => (Ver::V5, Body::Pingresp),
        GenericPacket::V3_1_1Disconnect(_) => (Ver::V3, Body::Disconnect { code: None, props: None }),
        GenericPacket::V5_0Disconnect(p) => (
            Ver::V5,
            Body::Disconnect {
                code: p.reason_code().map(|c| c as u8),
                props: p.props().as_ref().map(|v| props_from_lib(v)),
            },
        ),
        GenericPacket::V5_0Auth(p) => (
            Ver::V5,
            Body::Auth {
                code: p.reason_code().map(|c| c as u8),
                props: p.props().as_ref().map(|v| props_from_lib(v)),
            },
        ),
    };
    Pkt { ver, idw: P::W, b }
}

/// The crate's parser for (version, packet type). `first` is the fixed header byte.
pub fn parse_lib<P: Pid>(ver: Ver, first: u8, body: &[u8]) -> Option<Result<(GenericPacket<P>, usize), E>> {
    macro_rules! pp {
        ($t:ty, $v:ident) => {
            <$t>::parse(body).map(|(p, n)| (GenericPacket::$v(p), n))
        };
    }
    use std::sync::Arc;
    Some(match (ver, first >> 4) {
        (Ver::V3, 1) => pp!(v3_1_1::Connect, V3_1_1Connect),
        (Ver::V3, 2) => pp!(v3_1_1::Connack, V3_1_1Connack),
        (Ver::V3, 3) => v3_1_1::GenericPublish::<P>::parse(first & 15, Arc::from(body)).map(|(p, n)| (GenericPacket::V3_1_1Publish(p), n)),
        (Ver::V3, 4) => pp!(v3_1_1::GenericPuback<P>, V3_1_1Puback),
        (Ver::V3, 5) => pp!(v3_1_1::GenericPubrec<P>, V3_1_1Pubrec),
        (Ver::V3, 6) => pp!(v3_1_1::GenericPubrel<P>, V3_1_1Pubrel),
        (Ver::V3, 7) => pp!(v3_1_1::GenericPubcomp<P>, V3_1_1Pubcomp),
        (Ver::V3, 8) => pp!(v3_1_1::GenericSubscribe<P>, V3_1_1Subscribe),
        (Ver::V3, 9) => pp!(v3_1_1::GenericSuback<P>, V3_1_1Suback),
        (Ver::V3, 10) => pp!(v3_1_1::GenericUnsubscribe<P>, V3_1_1Unsubscribe),
        (Ver::V3, 11) => pp!(v3_1_1::GenericUnsuback<P>, V3_1_1Unsuback),
        (Ver::V3, 12) => pp!(v3_1_1::Pingreq, V3_1_1Pingreq),
        (Ver::V3, 13) => pp!(v3_1_1::Pingresp, V3_1_1Pingresp),
        (Ver::V3, 14) => pp!(v3_1_1::Disconnect, V3_1_1Disconnect),
        (Ver::V5, 1) => pp!(v5_0::Connect, V5_0Connect),
        (Ver::V5, 2) => pp!(v5_0::Connack, V5_0Connack),
        (Ver::V5, 3) => v5_0::GenericPublish::<P>::parse(first & 15, Arc::from(body)).map(|(p, n)| (GenericPacket::V5_0Publish(p), n)),
        (Ver::V5, 4) => pp!(v5_0::GenericPuback<P>, V5_0Puback),
        (Ver::V5, 5) => pp!(v5_0::GenericPubrec<P>, V5_0Pubrec),
        (Ver::V5, 6) => pp!(v5_0::GenericPubrel<P>, V5_0Pubrel),
        (Ver::V5, 7) => pp!(v5_0::GenericPubcomp<P>, V5_0Pubcomp),
        (Ver::V5, 8) => pp!(v5_0::GenericSubscribe<P>, V5_0Subscribe),
        (Ver::V5, 9) => pp!(v5_0::GenericSuback<P>, V5_0Suback),
        (Ver::V5, 10) => pp!(v5_0::GenericUnsubscribe<P>, V5_0Unsubscribe),
        (Ver::V5, 11) => pp!(v5_0::GenericUnsuback<P>, V5_0Unsuback),
        (Ver::V5, 12) => pp!(v5_0::Pingreq, V5_0Pingreq),
        (Ver::V5, 13) => pp!(v5_0::Pingresp, V5_0Pingresp),
        (Ver::V5, 14) => pp!(v5_0::Disconnect, V5_0Disconnect),
        (Ver::V5, 15) => pp!(v5_0::Auth, V5_0Auth),
        _ => return None,
    })
}
