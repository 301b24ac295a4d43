//! The contents of packets as a flat list of (path, value), taken field by field and without the
//! crate's own comparison, cloning or printing.
use mqtt_packet_3_5::connect::ConnectFlags;
use mqtt_packet_3_5::*;

pub type Flat = Vec<(String, Vec<u8>)>;

pub trait Canon {
    fn put(&self, path: &str, o: &mut Flat);
    fn flat(&self) -> Flat {
        let mut o = vec![];
        self.put("", &mut o);
        o
    }
}

macro_rules! plain {
    ($($t:ty => |$x:ident| $e:expr;)*) => { $(impl Canon for $t {
        fn put(&self, path: &str, o: &mut Flat) {
            let $x = self;
            o.push((path.to_string(), $e));
        }
    })* };
}
fn tag<T>(x: &T) -> Vec<u8> {
    format!("{:?}", std::mem::discriminant(x)).into_bytes()
}
plain! {
    bool => |x| vec![*x as u8];
    u8 => |x| vec![*x];
    u16 => |x| x.to_be_bytes().to_vec();
    u32 => |x| x.to_be_bytes().to_vec();
    String => |x| x.as_bytes().to_vec();
    Vec<u8> => |x| x.clone();
    Protocol => |x| tag(x);
    QoS => |x| tag(x);
    Granted => |x| tag(x);
    PacketType => |x| tag(x);
    SubscriptionReasonCode => |x| tag(x);
    DisconnectCode => |x| tag(x);
    UnsubackCode => |x| tag(x);
    AuthCode => |x| tag(x);
    PubcompPubrelCode => |x| tag(x);
    PubackPubrecCode => |x| tag(x);
}
impl<T: Canon> Canon for Option<T> {
    fn put(&self, path: &str, o: &mut Flat) {
        match self {
            None => o.push((path.to_string(), b"absent".to_vec())),
            Some(x) => {
                o.push((path.to_string(), b"present".to_vec()));
                x.put(&format!("{}?", path), o);
            }
        }
    }
}
macro_rules! list {
    ($($t:ty),*) => { $(impl Canon for Vec<$t> {
        fn put(&self, path: &str, o: &mut Flat) {
            o.push((path.to_string(), (self.len() as u64).to_be_bytes().to_vec()));
            for x in self {
                x.put(&format!("{}[]", path), o);
            }
        }
    })* };
}
list!(String, u32, Granted, SubscriptionReasonCode, UnsubackCode, Subscription);
impl Canon for UserProperties {
    fn put(&self, path: &str, o: &mut Flat) {
        let mut keys: Vec<&String> = self.keys().collect();
        keys.sort();
        o.push((path.to_string(), (self.len() as u64).to_be_bytes().to_vec()));
        for k in keys {
            k.put(&format!("{}[]", path), o);
            self[k].put(&format!("{}[]", path), o);
        }
    }
}
macro_rules! fields {
    ($($t:ident { $($f:ident),* })*) => { $(impl Canon for $t {
        fn put(&self, path: &str, o: &mut Flat) {
            let $t { $($f),* } = self;
            $($f.put(&format!("{}.{}", path, stringify!($f)), o);)*
        }
    })* };
}
fields! {
    FixedHeader { cmd, dup, qos, retain }
    ConnectFlags { user_name, password, will_retain, will_qos, will, clean_session }
    AuthPacket { reason_code, properties }
    LastWill { topic, payload, qos, retain, properties }
    ConnectPacket { client_id, protocol_version, protocol_id, clean_session, keep_alive, user_name, password, will, properties }
    ConnackPacket { return_code, reason_code, session_present, properties }
    DisconnectPacket { reason_code, properties }
    PublishPacket { dup, qos, retain, topic, message_id, payload, properties }
    Subscription { topic, qos, nl, rap, rh }
    SubscribePacket { qos, subscriptions, properties, message_id }
    SubackPacket { reason_code, message_id, properties, granted_reason_codes, granted }
    UnsubscribePacket { qos, message_id, properties, unsubscriptions }
    UnsubackPacket { message_id, granted, properties }
    ConfirmationPacket { cmd, puback_reason_code, pubcomp_reason_code, properties, message_id }
    AuthProperties { authentication_method, authentication_data, reason_string, user_properties }
    PublishProperties { payload_format_indicator, message_expiry_interval, content_type, response_topic, correlation_data, subscription_identifiers, topic_alias, user_properties }
    SubscribeProperties { subscription_identifier, user_properties }
    DisconnectProperties { session_expiry_interval, server_reference, reason_string, user_properties }
    ConfirmationProperties { reason_string, user_properties }
    UnsubscribeProperties { user_properties }
    WillProperties { payload_format_indicator, message_expiry_interval, content_type, response_topic, correlation_data, will_delay_interval, user_properties }
    ConnackProperties { session_expiry_interval, assigned_client_identifier, server_keep_alive, authentication_method, authentication_data, response_information, server_reference, reason_string, receive_maximum, topic_alias_maximum, maximum_qos, retain_available, user_properties, maximum_packet_size, wildcard_subscription_available, subscription_identifiers_available, shared_subscription_available, is_default }
    ConnectProperties { session_expiry_interval, receive_maximum, maximum_packet_size, topic_alias_maximum, request_response_information, request_problem_information, user_properties, authentication_method, authentication_data }
}
impl Canon for MqttPacket {
    fn put(&self, path: &str, o: &mut Flat) {
        macro_rules! kinds {
            ($($k:ident),*) => { match self {
                $(MqttPacket::$k(p) => {
                    o.push((path.to_string(), stringify!($k).into()));
                    p.put(&format!("{}{}", path, stringify!($k)), o);
                })*
                MqttPacket::Pingreq => o.push((path.to_string(), "Pingreq".into())),
                MqttPacket::Pingresp => o.push((path.to_string(), "Pingresp".into())),
            } };
        }
        kinds!(Connect, Connack, Subscribe, Suback, Publish, Puback, Pubrec, Pubrel, Pubcomp, Unsubscribe, Unsuback, Disconnect, Auth)
    }
}

/// If two packets of one kind differ within a single field: its path.
pub fn only_difference(a: &Flat, b: &Flat) -> Option<String> {
    if a[0] != b[0] {
        return None;
    }
    // fields are listed in the same order, an optional or repeated one by a varying number of entries
    let pre = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let mut i = pre;
    if i == a.len() || i == b.len() || a[i].0 != b[i].0 {
        // a list whose length differs shows at its length, so this is not reached for those
        return None;
    }
    let path = &a[i].0;
    let mut j = i;
    let within = |p: &String| p.starts_with(path.as_str()) && (p.len() == path.len() || matches!(p.as_bytes()[path.len()], b'?' | b'[' | b'.'));
    while i < a.len() && within(&a[i].0) {
        i += 1;
    }
    while j < b.len() && within(&b[j].0) {
        j += 1;
    }
    if a[i..] == b[j..] {
        Some(path.clone())
    } else {
        None
    }
}
