//! Tables transcribed from the OASIS MQTT 5.0 / 3.1.1 standards and MQTT 3.1; the harness's own,
//! not taken from the code under test.
use mqtt_packet_3_5::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Place {
    Connect,
    Will,
    Connack,
    Publish,
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
    Subscribe,
    Suback,
    Unsubscribe,
    Unsuback,
    Disconnect,
    Auth,
}
pub const PLACES: [Place; 14] = [
    Place::Connect,
    Place::Will,
    Place::Connack,
    Place::Publish,
    Place::Puback,
    Place::Pubrec,
    Place::Pubrel,
    Place::Pubcomp,
    Place::Subscribe,
    Place::Suback,
    Place::Unsubscribe,
    Place::Unsuback,
    Place::Disconnect,
    Place::Auth,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum WT {
    Bool,
    U8,
    U16,
    U32,
    Var,
    Str,
    /// binary data in the standard, a String in this crate's types
    TextBin,
    Bin,
    Pair,
}

/// MQTT 5, table 2-4
pub fn wire_type(id: u8) -> Option<WT> {
    Some(match id {
        0x01 => WT::Bool,
        0x02 => WT::U32,
        0x03 => WT::Str,
        0x08 => WT::Str,
        0x09 => WT::Bin,
        0x0B => WT::Var,
        0x11 => WT::U32,
        0x12 => WT::Str,
        0x13 => WT::U16,
        0x15 => WT::Str,
        0x16 => WT::TextBin,
        0x17 => WT::Bool,
        0x18 => WT::U32,
        0x19 => WT::Bool,
        0x1A => WT::Str,
        0x1C => WT::Str,
        0x1F => WT::Str,
        0x21 => WT::U16,
        0x22 => WT::U16,
        0x23 => WT::U16,
        0x24 => WT::U8,
        0x25 => WT::Bool,
        0x26 => WT::Pair,
        0x27 => WT::U32,
        0x28 => WT::Bool,
        0x29 => WT::Bool,
        0x2A => WT::Bool,
        _ => return None,
    })
}

pub const ALL_IDS: [u8; 27] = [
    0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C, 0x1F,
    0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A,
];

/// MQTT 5, table 2-4, column "Packet / Will Properties"
pub fn allowed(p: Place) -> &'static [u8] {
    match p {
        Place::Connect => &[0x11, 0x15, 0x16, 0x17, 0x19, 0x21, 0x22, 0x26, 0x27],
        Place::Will => &[0x01, 0x02, 0x03, 0x08, 0x09, 0x18, 0x26],
        Place::Connack => &[
            0x11, 0x12, 0x13, 0x15, 0x16, 0x1A, 0x1C, 0x1F, 0x21, 0x22, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29,
            0x2A,
        ],
        Place::Publish => &[0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x23, 0x26],
        Place::Subscribe => &[0x0B, 0x26],
        Place::Unsubscribe => &[0x26],
        Place::Disconnect => &[0x11, 0x1C, 0x1F, 0x26],
        Place::Auth => &[0x15, 0x16, 0x1F, 0x26],
        _ => &[0x1F, 0x26],
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    /// boolean property: the byte on the wire
    Bool(u8),
    U8(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Str(String),
    Bin(Vec<u8>),
    Pair(String, String),
}

/// the default the standard gives an absent property, where the crate's types have no "absent"
pub fn default_of(p: Place, id: u8) -> Option<Val> {
    Some(match (p, id) {
        (Place::Connect, 0x11) => Val::U32(0),
        (Place::Connect, 0x21) => Val::U16(65535),
        (Place::Connect, 0x22) => Val::U16(0),
        (Place::Connect, 0x19) => Val::Bool(0),
        (Place::Connect, 0x17) => Val::Bool(1),
        (Place::Connack, 0x11) => Val::U32(0),
        (Place::Connack, 0x21) => Val::U16(65535),
        (Place::Connack, 0x22) => Val::U16(0),
        (Place::Connack, 0x24) => Val::U8(2),
        (Place::Connack, 0x25) => Val::Bool(1),
        (Place::Connack, 0x28) => Val::Bool(1),
        (Place::Connack, 0x29) => Val::Bool(1),
        (Place::Connack, 0x2A) => Val::Bool(1),
        (Place::Publish, 0x01) | (Place::Will, 0x01) => Val::Bool(0),
        (Place::Will, 0x18) => Val::U32(0),
        _ => return None,
    })
}

pub static PUBACK_CODES: &[(u8, PubackPubrecCode)] = &[
    (0x00, PubackPubrecCode::Success),
    (0x10, PubackPubrecCode::NoMatchingSubscribers),
    (0x80, PubackPubrecCode::UnspecifiedError),
    (0x83, PubackPubrecCode::ImplementationSpecificError),
    (0x87, PubackPubrecCode::NotAuthorized),
    (0x90, PubackPubrecCode::TopicNameInvalid),
    (0x91, PubackPubrecCode::PacketIdentifierInUse),
    (0x97, PubackPubrecCode::QuotaExceeded),
    (0x99, PubackPubrecCode::PayloadFormatInvalid),
];
pub static PUBREL_CODES: &[(u8, PubcompPubrelCode)] = &[
    (0x00, PubcompPubrelCode::Success),
    (0x92, PubcompPubrelCode::PacketIdentifierNotFound),
];
pub static SUBACK_CODES: &[(u8, SubscriptionReasonCode)] = &[
    (0x00, SubscriptionReasonCode::GrantedQoS0),
    (0x01, SubscriptionReasonCode::GrantedQoS1),
    (0x02, SubscriptionReasonCode::GrantedQoS2),
    (0x80, SubscriptionReasonCode::UnspecifiedError),
    (0x83, SubscriptionReasonCode::ImplementationSpecificError),
    (0x87, SubscriptionReasonCode::NotAuthorized),
    (0x8F, SubscriptionReasonCode::TopicFilterInvalid),
    (0x91, SubscriptionReasonCode::PacketIdentifierInUse),
    (0x97, SubscriptionReasonCode::QuotaExceeded),
    (0x9E, SubscriptionReasonCode::SharedSubscriptionsNotSupported),
    (0xA1, SubscriptionReasonCode::SubscriptionIdentifiersNotSupported),
    (0xA2, SubscriptionReasonCode::WildcardSubscriptionsNotSupported),
];
pub static UNSUBACK_CODES: &[(u8, UnsubackCode)] = &[
    (0x00, UnsubackCode::Success),
    (0x11, UnsubackCode::NoSubscriptionExisted),
    (0x80, UnsubackCode::UnspecifiedError),
    (0x83, UnsubackCode::ImplementationSpecificError),
    (0x87, UnsubackCode::NotAuthorized),
    (0x8F, UnsubackCode::TopicFilterInvalid),
    (0x91, UnsubackCode::PacketIdentifierInUse),
];
pub static AUTH_CODES: &[(u8, AuthCode)] = &[
    (0x00, AuthCode::Success),
    (0x18, AuthCode::ContinueAuthentication),
    (0x19, AuthCode::ReAuthenticate),
];
pub static DISCONNECT_CODES: &[(u8, DisconnectCode)] = &[
    (0x00, DisconnectCode::NormalDisconnection),
    (0x04, DisconnectCode::DisconnectWithWillMessage),
    (0x80, DisconnectCode::UnspecifiedError),
    (0x81, DisconnectCode::MalformedPacket),
    (0x82, DisconnectCode::ProtocolError),
    (0x83, DisconnectCode::ImplementationSpecificError),
    (0x87, DisconnectCode::NotAuthorized),
    (0x89, DisconnectCode::ServerBusy),
    (0x8B, DisconnectCode::ServerShuttingDown),
    (0x8D, DisconnectCode::KeepAliveTimeout),
    (0x8E, DisconnectCode::SessionTakenVver),
    (0x8F, DisconnectCode::TopicFilterInvalid),
    (0x90, DisconnectCode::TopicNameInvalid),
    (0x93, DisconnectCode::ReceiveMaximumExceeded),
    (0x94, DisconnectCode::TopicAliasInvalid),
    (0x95, DisconnectCode::PacketTooLarge),
    (0x96, DisconnectCode::MessageRateTooHigh),
    (0x97, DisconnectCode::QuotaExceeded),
    (0x98, DisconnectCode::AdministrativeAction),
    (0x99, DisconnectCode::PayloadFormatInvalid),
    (0x9A, DisconnectCode::RetainNotSupported),
    (0x9B, DisconnectCode::QoSNotSupported),
    (0x9C, DisconnectCode::UseAnotherServer),
    (0x9D, DisconnectCode::ServerMoved),
    (0x9E, DisconnectCode::SharedSubscriptionsNotSupported),
    (0x9F, DisconnectCode::ConnectionRateExceeded),
    (0xA0, DisconnectCode::MaximumConnectTime),
    (0xA1, DisconnectCode::SubscriptionIdentifiersNotSupported),
    (0xA2, DisconnectCode::WildcardSubscriptionsNotSupported),
];
pub static GRANTED: &[(u8, Granted)] = &[
    (0, Granted::QoS0),
    (1, Granted::QoS1),
    (2, Granted::QoS2),
    (0x80, Granted::Failure),
];
pub static QOS: &[(u8, QoS)] = &[(0, QoS::QoS0), (1, QoS::QoS1), (2, QoS::QoS2)];
/// MQTT 5, table 3-1 (3.2.2.2)
pub static CONNACK_CODES_V5: &[u8] = &[
    0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A,
    0x9B, 0x9C, 0x9D, 0x9F,
];

pub fn by_byte<T: Clone>(t: &[(u8, T)], b: u8) -> Option<T> {
    t.iter().find(|(x, _)| *x == b).map(|(_, v)| v.clone())
}
pub fn by_val<T: PartialEq>(t: &[(u8, T)], v: &T) -> u8 {
    t.iter().find(|(_, x)| x == v).map(|(b, _)| *b).expect("spec table covers every variant")
}

/// packet type number on the wire
pub fn type_no(p: &MqttPacket) -> u8 {
    match p {
        MqttPacket::Connect(_) => 1,
        MqttPacket::Connack(_) => 2,
        MqttPacket::Publish(_) => 3,
        MqttPacket::Puback(_) => 4,
        MqttPacket::Pubrec(_) => 5,
        MqttPacket::Pubrel(_) => 6,
        MqttPacket::Pubcomp(_) => 7,
        MqttPacket::Subscribe(_) => 8,
        MqttPacket::Suback(_) => 9,
        MqttPacket::Unsubscribe(_) => 10,
        MqttPacket::Unsuback(_) => 11,
        MqttPacket::Pingreq => 12,
        MqttPacket::Pingresp => 13,
        MqttPacket::Disconnect(_) => 14,
        MqttPacket::Auth(_) => 15,
    }
}
pub const TYPE_NAMES: [&str; 16] = [
    "reserved", "connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback",
    "unsubscribe", "unsuback", "pingreq", "pingresp", "disconnect", "auth",
];
/// flags the standard fixes for the first byte (PUBLISH is variable)
pub fn fixed_flags(t: u8) -> u8 {
    match t {
        6 | 8 | 10 => 2,
        _ => 0,
    }
}
pub const VARINT_MAX: u32 = 268_435_455;
pub fn varint(mut n: u32) -> Vec<u8> {
    assert!(n <= VARINT_MAX);
    let mut v = vec![];
    loop {
        let d = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(d);
            return v;
        }
        v.push(d | 0x80);
    }
}
/// non-minimal encoding of n in exactly `width` bytes
pub fn varint_padded(n: u32, width: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..width {
        let d = ((n >> (7 * i)) & 0x7f) as u8;
        v.push(if i + 1 < width { d | 0x80 } else { d });
    }
    v
}
