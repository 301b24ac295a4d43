//! Property structs <-> flat (identifier, value) lists, written against the standard.
use crate::spec::{Place, Val};
use mqtt_packet_3_5::*;

pub type PList = Vec<(u8, Val)>;

pub trait RefProps: Sized {
    /// every property the struct denotes, defaults made explicit
    fn to_list(&self) -> PList;
    /// a struct with exactly these properties, everything else at the standard's default;
    /// later occurrences of a single-valued property win
    fn from_list(l: &[(u8, Val)]) -> Self;
}

pub fn push_user(l: &mut PList, u: &UserProperties) {
    // sorted, so that runs are reproducible although HashMap order is not
    let mut keys: Vec<&String> = u.keys().collect();
    keys.sort();
    for k in keys {
        for v in &u[k] {
            l.push((0x26, Val::Pair(k.clone(), v.clone())));
        }
    }
}
pub fn add_user(u: &mut UserProperties, k: &str, v: &str) {
    u.entry(k.to_string()).or_default().push(v.to_string());
}
fn s(l: &mut PList, id: u8, o: &Option<String>) {
    if let Some(v) = o {
        l.push((id, Val::Str(v.clone())));
    }
}
/// binary data in the standard, String in the crate
fn b(l: &mut PList, id: u8, o: &Option<String>) {
    if let Some(v) = o {
        l.push((id, Val::Bin(v.clone().into_bytes())));
    }
}
fn w(l: &mut PList, id: u8, o: Option<u32>) {
    if let Some(v) = o {
        l.push((id, Val::U32(v)));
    }
}
/// only called for data already known to be UTF-8
fn txt(v: &[u8]) -> String {
    String::from_utf8(v.to_vec()).unwrap_or_default()
}

impl RefProps for ConnectProperties {
    fn to_list(&self) -> PList {
        let mut l = vec![
            (0x11, Val::U32(self.session_expiry_interval)),
            (0x21, Val::U16(self.receive_maximum)),
            (0x22, Val::U16(self.topic_alias_maximum)),
            (0x19, Val::Bool(self.request_response_information as u8)),
            (0x17, Val::Bool(self.request_problem_information as u8)),
        ];
        w(&mut l, 0x27, self.maximum_packet_size);
        s(&mut l, 0x15, &self.authentication_method);
        b(&mut l, 0x16, &self.authentication_data);
        push_user(&mut l, &self.user_properties);
        l
    }
    fn from_list(l: &[(u8, Val)]) -> Self {
        let mut p = ConnectProperties {
            session_expiry_interval: 0,
            receive_maximum: 65535,
            maximum_packet_size: None,
            topic_alias_maximum: 0,
            request_response_information: false,
            request_problem_information: true,
            user_properties: UserProperties::new(),
            authentication_method: None,
            authentication_data: None,
        };
        for x in l {
            match x {
                (0x11, Val::U32(v)) => p.session_expiry_interval = *v,
                (0x21, Val::U16(v)) => p.receive_maximum = *v,
                (0x22, Val::U16(v)) => p.topic_alias_maximum = *v,
                (0x19, Val::Bool(v)) => p.request_response_information = *v != 0,
                (0x17, Val::Bool(v)) => p.request_problem_information = *v != 0,
                (0x27, Val::U32(v)) => p.maximum_packet_size = Some(*v),
                (0x15, Val::Str(v)) => p.authentication_method = Some(v.clone()),
                (0x16, Val::Bin(v)) => p.authentication_data = Some(txt(v)),
                (0x26, Val::Pair(k, v)) => add_user(&mut p.user_properties, k, v),
                o => unreachable!("{:?}", o),
            }
        }
        p
    }
}

impl RefProps for WillProperties {
    fn to_list(&self) -> PList {
        let mut l = vec![
            (0x18, Val::U32(self.will_delay_interval)),
            (0x01, Val::Bool(self.payload_format_indicator as u8)),
        ];
        w(&mut l, 0x02, self.message_expiry_interval);
        s(&mut l, 0x03, &self.content_type);
        s(&mut l, 0x08, &self.response_topic);
        if !self.correlation_data.is_empty() {
            l.push((0x09, Val::Bin(self.correlation_data.clone())));
        }
        push_user(&mut l, &self.user_properties);
        l
    }
    fn from_list(l: &[(u8, Val)]) -> Self {
        let mut p = WillProperties {
            payload_format_indicator: false,
            message_expiry_interval: None,
            content_type: None,
            response_topic: None,
            correlation_data: vec![],
            will_delay_interval: 0,
            user_properties: UserProperties::new(),
        };
        for x in l {
            match x {
                (0x18, Val::U32(v)) => p.will_delay_interval = *v,
                (0x01, Val::Bool(v)) => p.payload_format_indicator = *v != 0,
                (0x02, Val::U32(v)) => p.message_expiry_interval = Some(*v),
                (0x03, Val::Str(v)) => p.content_type = Some(v.clone()),
                (0x08, Val::Str(v)) => p.response_topic = Some(v.clone()),
                (0x09, Val::Bin(v)) => p.correlation_data = v.clone(),
                (0x26, Val::Pair(k, v)) => add_user(&mut p.user_properties, k, v),
                o => unreachable!("{:?}", o),
            }
        }
        p
    }
}

impl RefProps for ConnackProperties {
    fn to_list(&self) -> PList {
        let mut l = vec![
            (0x11, Val::U32(self.session_expiry_interval)),
            (0x21, Val::U16(self.receive_maximum)),
            (0x22, Val::U16(self.topic_alias_maximum)),
            (0x24, Val::U8(self.maximum_qos)),
            (0x25, Val::Bool(self.retain_available as u8)),
            (0x28, Val::Bool(self.wildcard_subscription_available as u8)),
            (0x29, Val::Bool(self.subscription_identifiers_available as u8)),
            (0x2A, Val::Bool(self.shared_subscription_available as u8)),
        ];
        s(&mut l, 0x12, &self.assigned_client_identifier);
        if let Some(v) = self.server_keep_alive {
            l.push((0x13, Val::U16(v)));
        }
        s(&mut l, 0x15, &self.authentication_method);
        b(&mut l, 0x16, &self.authentication_data);
        s(&mut l, 0x1A, &self.response_information);
        s(&mut l, 0x1C, &self.server_reference);
        s(&mut l, 0x1F, &self.reason_string);
        w(&mut l, 0x27, self.maximum_packet_size);
        push_user(&mut l, &self.user_properties);
        l
    }
    fn from_list(l: &[(u8, Val)]) -> Self {
        let mut p = ConnackProperties {
            session_expiry_interval: 0,
            assigned_client_identifier: None,
            server_keep_alive: None,
            authentication_method: None,
            authentication_data: None,
            response_information: None,
            server_reference: None,
            reason_string: None,
            receive_maximum: 65535,
            topic_alias_maximum: 0,
            maximum_qos: 2,
            retain_available: true,
            user_properties: UserProperties::new(),
            maximum_packet_size: None,
            wildcard_subscription_available: true,
            subscription_identifiers_available: true,
            shared_subscription_available: true,
            is_default: false,
        };
        for x in l {
            match x {
                (0x11, Val::U32(v)) => p.session_expiry_interval = *v,
                (0x21, Val::U16(v)) => p.receive_maximum = *v,
                (0x22, Val::U16(v)) => p.topic_alias_maximum = *v,
                (0x24, Val::U8(v)) => p.maximum_qos = *v,
                (0x25, Val::Bool(v)) => p.retain_available = *v != 0,
                (0x28, Val::Bool(v)) => p.wildcard_subscription_available = *v != 0,
                (0x29, Val::Bool(v)) => p.subscription_identifiers_available = *v != 0,
                (0x2A, Val::Bool(v)) => p.shared_subscription_available = *v != 0,
                (0x12, Val::Str(v)) => p.assigned_client_identifier = Some(v.clone()),
                (0x13, Val::U16(v)) => p.server_keep_alive = Some(*v),
                (0x15, Val::Str(v)) => p.authentication_method = Some(v.clone()),
                (0x16, Val::Bin(v)) => p.authentication_data = Some(txt(v)),
                (0x1A, Val::Str(v)) => p.response_information = Some(v.clone()),
                (0x1C, Val::Str(v)) => p.server_reference = Some(v.clone()),
                (0x1F, Val::Str(v)) => p.reason_string = Some(v.clone()),
                (0x27, Val::U32(v)) => p.maximum_packet_size = Some(*v),
                (0x26, Val::Pair(k, v)) => add_user(&mut p.user_properties, k, v),
                o => unreachable!("{:?}", o),
            }
        }
        p
    }
}

impl RefProps for PublishProperties {
    fn to_list(&self) -> PList {
        let mut l = vec![(0x01, Val::Bool(self.payload_format_indicator as u8))];
        w(&mut l, 0x02, self.message_expiry_interval);
        if let Some(v) = self.topic_alias {
            l.push((0x23, Val::U16(v)));
        }
        s(&mut l, 0x08, &self.response_topic);
        if !self.correlation_data.is_empty() {
            l.push((0x09, Val::Bin(self.correlation_data.clone())));
        }
        for i in &self.subscription_identifiers {
            l.push((0x0B, Val::Var(*i)));
        }
        s(&mut l, 0x03, &self.content_type);
        push_user(&mut l, &self.user_properties);
        l
    }
    fn from_list(l: &[(u8, Val)]) -> Self {
        let mut p = PublishProperties {
            payload_format_indicator: false,
            message_expiry_interval: None,
            content_type: None,
            response_topic: None,
            correlation_data: vec![],
            subscription_identifiers: vec![],
            topic_alias: None,
            user_properties: UserProperties::new(),
        };
        for x in l {
            match x {
                (0x01, Val::Bool(v)) => p.payload_format_indicator = *v != 0,
                (0x02, Val::U32(v)) => p.message_expiry_interval = Some(*v),
                (0x23, Val::U16(v)) => p.topic_alias = Some(*v),
                (0x08, Val::Str(v)) => p.response_topic = Some(v.clone()),
                (0x09, Val::Bin(v)) => p.correlation_data = v.clone(),
                (0x0B, Val::Var(v)) => p.subscription_identifiers.push(*v),
                (0x03, Val::Str(v)) => p.content_type = Some(v.clone()),
                (0x26, Val::Pair(k, v)) => add_user(&mut p.user_properties, k, v),
                o => unreachable!("{:?}", o),
            }
        }
        p
    }
}

impl RefProps for ConfirmationProperties {
    fn to_list(&self) -> PList {
        let mut l = vec![];
        s(&mut l, 0x1F, &self.reason_string);
        push_user(&mut l, &self.user_properties);
        l
    }
    fn from_list(l: &[(u8, Val)]) -> Self {
        let mut p = ConfirmationProperties { reason_string: None, user_properties: UserProperties::new() };
        for x in l {
            match x {
                (0x1F, Val::Str(v)) => p.reason_string = Some(v.clone()),
                (0x26, Val::Pair(k, v)) => add_user(&mut p.user_properties, k, v),
                o => unreachable!("{:?}", o),
            }
        }
        p
    }
}

impl RefProps for SubscribeProperties {
    fn to_list(&self) -> PList {
        let mut l = vec![];
        // the crate documents 0 as "absent"
        if self.subscription_identifier > 0 {
            l.push((0x0B, Val::Var(self.subscription_identifier)));
        }
        push_user(&mut l, &self.user_properties);
        l
    }
    fn from_list(l: &[(u8, Val)]) -> Self {
        let mut p = SubscribeProperties { subscription_identifier: 0, user_properties: UserProperties::new() };
        for x in l {
            match x {
                (0x0B, Val::Var(v)) => p.subscription_identifier = *v,
                (0x26, Val::Pair(k, v)) => add_user(&mut p.user_properties, k, v),
                o => unreachable!("{:?}", o),
            }
        }
        p
    }
}

impl RefProps for UnsubscribeProperties {
    fn to_list(&self) -> PList {
        let mut l = vec![];
        push_user(&mut l, &self.user_properties);
        l
    }
    fn from_list(l: &[(u8, Val)]) -> Self {
        let mut p = UnsubscribeProperties { user_properties: UserProperties::new() };
        for x in l {
            match x {
                (0x26, Val::Pair(k, v)) => add_user(&mut p.user_properties, k, v),
                o => unreachable!("{:?}", o),
            }
        }
        p
    }
}

impl RefProps for DisconnectProperties {
    fn to_list(&self) -> PList {
        let mut l = vec![];
        w(&mut l, 0x11, self.session_expiry_interval);
        s(&mut l, 0x1F, &self.reason_string);
        s(&mut l, 0x1C, &self.server_reference);
        push_user(&mut l, &self.user_properties);
        l
    }
    fn from_list(l: &[(u8, Val)]) -> Self {
        let mut p = DisconnectProperties {
            session_expiry_interval: None,
            server_reference: None,
            reason_string: None,
            user_properties: UserProperties::new(),
        };
        for x in l {
            match x {
                (0x11, Val::U32(v)) => p.session_expiry_interval = Some(*v),
                (0x1F, Val::Str(v)) => p.reason_string = Some(v.clone()),
                (0x1C, Val::Str(v)) => p.server_reference = Some(v.clone()),
                (0x26, Val::Pair(k, v)) => add_user(&mut p.user_properties, k, v),
                o => unreachable!("{:?}", o),
            }
        }
        p
    }
}

impl RefProps for AuthProperties {
    fn to_list(&self) -> PList {
        let mut l = vec![(0x15, Val::Str(self.authentication_method.clone()))];
        b(&mut l, 0x16, &self.authentication_data);
        s(&mut l, 0x1F, &self.reason_string);
        push_user(&mut l, &self.user_properties);
        l
    }
    fn from_list(l: &[(u8, Val)]) -> Self {
        let mut p = AuthProperties {
            authentication_method: String::new(),
            authentication_data: None,
            reason_string: None,
            user_properties: UserProperties::new(),
        };
        for x in l {
            match x {
                (0x15, Val::Str(v)) => p.authentication_method = v.clone(),
                (0x16, Val::Bin(v)) => p.authentication_data = Some(txt(v)),
                (0x1F, Val::Str(v)) => p.reason_string = Some(v.clone()),
                (0x26, Val::Pair(k, v)) => add_user(&mut p.user_properties, k, v),
                o => unreachable!("{:?}", o),
            }
        }
        p
    }
}

fn clean_user(u: &UserProperties) -> UserProperties {
    u.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (k.clone(), v.clone())).collect()
}

/// what a property set means on the wire: None when it denotes no property at all
pub fn norm_props<T: RefProps>(p: &Option<T>, v: u8) -> Option<T> {
    if v != 5 {
        return None;
    }
    let l = p.as_ref()?.to_list();
    if l.is_empty() {
        None
    } else {
        Some(T::from_list(&l))
    }
}

/// the packet a correct peer sees after `p` was encoded at version `v`
pub fn norm(p: &MqttPacket, v: u8) -> MqttPacket {
    match p {
        MqttPacket::Connect(c) => {
            let v = c.protocol_version;
            MqttPacket::Connect(ConnectPacket {
                client_id: c.client_id.clone(),
                protocol_version: v,
                protocol_id: c.protocol_id.clone(),
                clean_session: c.clean_session,
                keep_alive: c.keep_alive,
                user_name: c.user_name.clone(),
                password: c.password.clone(),
                will: c.will.as_ref().map(|w| LastWill {
                    topic: Some(w.topic.clone().unwrap_or_default()),
                    payload: Some(w.payload.clone().unwrap_or_default()),
                    qos: w.qos,
                    retain: w.retain,
                    properties: norm_props(&w.properties, v),
                }),
                properties: norm_props(&c.properties, v),
            })
        }
        MqttPacket::Connack(c) => MqttPacket::Connack(ConnackPacket {
            return_code: if v == 5 { None } else { c.return_code },
            reason_code: if v == 5 { c.reason_code } else { None },
            session_present: c.session_present,
            properties: norm_props(&c.properties, v),
        }),
        MqttPacket::Publish(c) => MqttPacket::Publish(PublishPacket {
            message_id: if c.qos > 0 { c.message_id } else { None },
            properties: norm_props(&c.properties, v),
            ..c.clone()
        }),
        MqttPacket::Puback(c) => MqttPacket::Puback(norm_conf(c, v, PacketType::Puback)),
        MqttPacket::Pubrec(c) => MqttPacket::Pubrec(norm_conf(c, v, PacketType::Pubrec)),
        MqttPacket::Pubrel(c) => MqttPacket::Pubrel(norm_conf(c, v, PacketType::Pubrel)),
        MqttPacket::Pubcomp(c) => MqttPacket::Pubcomp(norm_conf(c, v, PacketType::Pubcomp)),
        MqttPacket::Subscribe(c) => MqttPacket::Subscribe(SubscribePacket {
            qos: 1,
            message_id: c.message_id,
            properties: norm_props(&c.properties, v),
            subscriptions: c
                .subscriptions
                .iter()
                .map(|s| {
                    if v == 5 {
                        s.clone()
                    } else {
                        Subscription { topic: s.topic.clone(), qos: s.qos.clone(), nl: false, rap: false, rh: None }
                    }
                })
                .collect(),
        }),
        MqttPacket::Suback(c) => MqttPacket::Suback(SubackPacket {
            reason_code: None,
            message_id: c.message_id,
            properties: norm_props(&c.properties, v),
            granted_reason_codes: if v == 5 { c.granted_reason_codes.clone() } else { vec![] },
            granted: if v == 5 { vec![] } else { c.granted.clone() },
        }),
        MqttPacket::Unsubscribe(c) => MqttPacket::Unsubscribe(UnsubscribePacket {
            qos: 1,
            message_id: c.message_id,
            properties: norm_props(&c.properties, v),
            unsubscriptions: c.unsubscriptions.clone(),
        }),
        MqttPacket::Unsuback(c) => MqttPacket::Unsuback(UnsubackPacket {
            message_id: c.message_id,
            granted: if v == 5 { c.granted.clone() } else { vec![] },
            properties: norm_props(&c.properties, v),
        }),
        MqttPacket::Pingreq => MqttPacket::Pingreq,
        MqttPacket::Pingresp => MqttPacket::Pingresp,
        MqttPacket::Disconnect(c) => MqttPacket::Disconnect(DisconnectPacket {
            reason_code: if v == 5 {
                Some(c.reason_code.clone().unwrap_or(DisconnectCode::NormalDisconnection))
            } else {
                None
            },
            properties: norm_props(&c.properties, v),
        }),
        MqttPacket::Auth(c) => MqttPacket::Auth(AuthPacket {
            reason_code: c.reason_code.clone(),
            properties: norm_props(&c.properties, v),
        }),
    }
}

fn norm_conf(c: &ConfirmationPacket, v: u8, cmd: PacketType) -> ConfirmationPacket {
    ConfirmationPacket {
        cmd,
        message_id: c.message_id,
        puback_reason_code: if v == 5 { c.puback_reason_code.clone() } else { None },
        pubcomp_reason_code: if v == 5 { c.pubcomp_reason_code.clone() } else { None },
        properties: norm_props(&c.properties, v),
    }
}

/// user properties of any packet (and of its will)
pub fn all_user_props(p: &MqttPacket) -> Vec<(Place, &UserProperties)> {
    let mut out = vec![];
    match p {
        MqttPacket::Connect(c) => {
            if let Some(x) = &c.properties {
                out.push((Place::Connect, &x.user_properties));
            }
            if let Some(x) = c.will.as_ref().and_then(|w| w.properties.as_ref()) {
                out.push((Place::Will, &x.user_properties));
            }
        }
        MqttPacket::Connack(c) => out.extend(c.properties.as_ref().map(|x| (Place::Connack, &x.user_properties))),
        MqttPacket::Publish(c) => out.extend(c.properties.as_ref().map(|x| (Place::Publish, &x.user_properties))),
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => {
            out.extend(c.properties.as_ref().map(|x| (Place::Puback, &x.user_properties)))
        }
        MqttPacket::Subscribe(c) => out.extend(c.properties.as_ref().map(|x| (Place::Subscribe, &x.user_properties))),
        MqttPacket::Suback(c) => out.extend(c.properties.as_ref().map(|x| (Place::Suback, &x.user_properties))),
        MqttPacket::Unsubscribe(c) => {
            out.extend(c.properties.as_ref().map(|x| (Place::Unsubscribe, &x.user_properties)))
        }
        MqttPacket::Unsuback(c) => out.extend(c.properties.as_ref().map(|x| (Place::Unsuback, &x.user_properties))),
        MqttPacket::Disconnect(c) => {
            out.extend(c.properties.as_ref().map(|x| (Place::Disconnect, &x.user_properties)))
        }
        MqttPacket::Auth(c) => out.extend(c.properties.as_ref().map(|x| (Place::Auth, &x.user_properties))),
        MqttPacket::Pingreq | MqttPacket::Pingresp => {}
    }
    out
}

#[allow(dead_code)]
pub fn cleaned(u: &UserProperties) -> UserProperties {
    clean_user(u)
}
