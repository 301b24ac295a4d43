//! Systematic and random sources of legal packets, shared by the checks.
use crate::conv::{add_user, PList, RefProps};
use crate::gen::*;
use crate::rng::Rng;
use crate::run::Env;
use crate::spec::*;
use mqtt_packet_3_5::*;

type Make = Box<dyn Fn(&mut Rng, u64) -> (MqttPacket, u8) + Sync>;

pub struct Source {
    pub name: &'static str,
    pub count: u64,
    pub make: Make,
}

fn src(name: &'static str, count: u64, make: impl Fn(&mut Rng, u64) -> (MqttPacket, u8) + Sync + 'static) -> Source {
    Source { name, count, make: Box::new(make) }
}

/// smallest legal packet of the type, v5 with the given property list at `place`
pub fn base_with(place: Place, l: &[(u8, Val)]) -> MqttPacket {
    let o = |x: &[(u8, Val)]| -> bool { !x.is_empty() };
    fn p<T: RefProps>(l: &[(u8, Val)]) -> Option<T> {
        if l.is_empty() { None } else { Some(T::from_list(l)) }
    }
    let _ = o;
    match place {
        Place::Connect => MqttPacket::Connect(ConnectPacket { properties: p(l), ..min_connect(5) }),
        Place::Will => MqttPacket::Connect(ConnectPacket {
            will: Some(LastWill { topic: Some("w".into()), payload: Some("p".into()), qos: 1, retain: false, properties: p(l) }),
            ..min_connect(5)
        }),
        Place::Connack => MqttPacket::Connack(ConnackPacket { return_code: None, reason_code: Some(0), session_present: false, properties: p(l) }),
        Place::Publish => MqttPacket::Publish(PublishPacket { properties: p(l), ..min_publish() }),
        Place::Puback => MqttPacket::Puback(conf(4, PubackPubrecCode::Success, PubcompPubrelCode::Success, p(l))),
        Place::Pubrec => MqttPacket::Pubrec(conf(5, PubackPubrecCode::Success, PubcompPubrelCode::Success, p(l))),
        Place::Pubrel => MqttPacket::Pubrel(conf(6, PubackPubrecCode::Success, PubcompPubrelCode::Success, p(l))),
        Place::Pubcomp => MqttPacket::Pubcomp(conf(7, PubackPubrecCode::Success, PubcompPubrelCode::Success, p(l))),
        Place::Subscribe => MqttPacket::Subscribe(SubscribePacket { qos: 1, subscriptions: vec![sub("f")], properties: p(l), message_id: 7 }),
        Place::Suback => MqttPacket::Suback(SubackPacket {
            reason_code: None,
            message_id: 7,
            properties: p(l),
            granted_reason_codes: vec![SubscriptionReasonCode::GrantedQoS1],
            granted: vec![],
        }),
        Place::Unsubscribe => MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, message_id: 7, properties: p(l), unsubscriptions: vec!["f".into()] }),
        Place::Unsuback => MqttPacket::Unsuback(UnsubackPacket { message_id: 7, granted: vec![UnsubackCode::Success], properties: p(l) }),
        Place::Disconnect => MqttPacket::Disconnect(DisconnectPacket { reason_code: Some(DisconnectCode::NormalDisconnection), properties: p(l) }),
        Place::Auth => MqttPacket::Auth(AuthPacket {
            reason_code: AuthCode::ContinueAuthentication,
            properties: {
                let mut l = l.to_vec();
                if !l.iter().any(|x| x.0 == 0x15) {
                    l.push((0x15, Val::Str("m".into())));
                }
                p(&l)
            },
        }),
    }
}
pub fn min_connect(v: u8) -> ConnectPacket {
    ConnectPacket {
        client_id: "c".into(),
        protocol_version: v,
        protocol_id: if v == 3 { Protocol::MQIsdp } else { Protocol::Mqtt },
        clean_session: true,
        keep_alive: 60,
        user_name: None,
        password: None,
        will: None,
        properties: None,
    }
}
pub fn min_publish() -> PublishPacket {
    PublishPacket { dup: false, qos: 1, retain: false, topic: "t".into(), message_id: Some(7), payload: vec![1, 2, 3], properties: None }
}
pub fn sub(f: &str) -> Subscription {
    Subscription { topic: f.into(), qos: QoS::QoS1, nl: false, rap: false, rh: Some(0) }
}
pub fn conf(t: u8, a: PubackPubrecCode, c: PubcompPubrelCode, properties: Option<ConfirmationProperties>) -> ConfirmationPacket {
    ConfirmationPacket {
        cmd: CONF_CMD[t as usize - 4],
        message_id: 7,
        puback_reason_code: if t <= 5 { Some(a) } else { None },
        pubcomp_reason_code: if t > 5 { Some(c) } else { None },
        properties,
    }
}

/// authentication data needs a method
fn with_method(id: u8, mut l: PList) -> PList {
    if id == 0x16 {
        l.push((0x15, Val::Str("m".into())));
    }
    l
}

/// sets one identifier-like field to `x`
fn mid_packet(slot: u64, x: u16) -> (MqttPacket, u8) {
    let v = [3u8, 4, 5][(slot % 3) as usize];
    let p = match slot / 3 {
        0 => MqttPacket::Publish(PublishPacket { message_id: Some(x), qos: 1, ..min_publish() }),
        1 => MqttPacket::Publish(PublishPacket { message_id: Some(x), qos: 2, dup: true, ..min_publish() }),
        s @ 2..=5 => {
            let t = (s + 2) as u8;
            let mut k = conf(t, PubackPubrecCode::NoMatchingSubscribers, PubcompPubrelCode::PacketIdentifierNotFound, None);
            if x & 1 == 1 {
                k = conf(t, PubackPubrecCode::Success, PubcompPubrelCode::Success, None);
            }
            if v != 5 {
                k.puback_reason_code = None;
                k.pubcomp_reason_code = None;
            }
            k.message_id = x;
            wrap_conf(t, k)
        }
        6 => MqttPacket::Subscribe(SubscribePacket { qos: 1, message_id: x, subscriptions: vec![sub("f")], properties: None }),
        7 => MqttPacket::Suback(SubackPacket {
            reason_code: None,
            message_id: x,
            properties: None,
            granted_reason_codes: vec![SubscriptionReasonCode::GrantedQoS2],
            granted: vec![Granted::Failure],
        }),
        8 => MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, message_id: x, properties: None, unsubscriptions: vec!["f".into()] }),
        9 => MqttPacket::Unsuback(UnsubackPacket { message_id: x, granted: vec![UnsubackCode::NotAuthorized], properties: None }),
        _ => MqttPacket::Connect(ConnectPacket { keep_alive: x, ..min_connect(v) }),
    };
    (p, v)
}
const MID_SLOTS: u64 = 33;

/// every text/binary field outside property blocks
pub fn field_packet(slot: usize, s: String, v: u8) -> MqttPacket {
    let c = min_connect(v);
    match slot {
        0 => MqttPacket::Publish(PublishPacket { topic: s, ..min_publish() }),
        1 => MqttPacket::Connect(ConnectPacket { client_id: s, ..c }),
        2 => MqttPacket::Connect(ConnectPacket { user_name: Some(s), ..c }),
        3 => MqttPacket::Connect(ConnectPacket { user_name: Some("u".into()), password: Some(s), ..c }),
        4 => MqttPacket::Connect(ConnectPacket {
            will: Some(LastWill { topic: Some(s), payload: Some("p".into()), qos: 2, retain: true, properties: None }),
            ..c
        }),
        5 => MqttPacket::Connect(ConnectPacket {
            will: Some(LastWill { topic: Some("w".into()), payload: Some(s), qos: 0, retain: false, properties: None }),
            user_name: Some("u".into()),
            ..c
        }),
        6 => MqttPacket::Subscribe(SubscribePacket { qos: 1, message_id: 9, subscriptions: vec![sub("a"), sub(&s), sub("b")], properties: None }),
        _ => MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, message_id: 9, properties: None, unsubscriptions: vec!["a".into(), s, "b".into()] }),
    }
}
const FIELD_SLOTS: usize = 8;
/// fields that must not be empty (or not below a version) to be clearly legal
fn field_min(slot: usize) -> usize {
    match slot {
        0 | 1 | 4 | 6 | 7 => 1,
        _ => 0,
    }
}

/// (place, id, which) of every text/binary property; which=0 value or user key, 1 user value
pub fn text_props() -> Vec<(Place, u8, u8)> {
    let mut o = vec![];
    for p in PLACES {
        for id in allowed(p) {
            match wire_type(*id).unwrap() {
                WT::Str | WT::TextBin | WT::Bin => o.push((p, *id, 0)),
                WT::Pair => {
                    o.push((p, *id, 0));
                    o.push((p, *id, 1));
                }
                _ => {}
            }
        }
    }
    o
}
pub fn text_prop_packet(slot: (Place, u8, u8), s: String) -> MqttPacket {
    let (p, id, w) = slot;
    let l = match wire_type(id).unwrap() {
        WT::Pair if w == 0 => vec![(id, Val::Pair(s, "v".into()))],
        WT::Pair => vec![(id, Val::Pair("k".into(), s))],
        WT::Str => vec![(id, Val::Str(s))],
        _ => vec![(id, Val::Bin(s.into_bytes()))],
    };
    base_with(p, &with_method(id, l))
}

/// interesting lengths for a text field: all small ones, all protocol edges, dictionary values
pub fn length_list() -> Vec<usize> {
    if small() {
        return (0..=40).collect();
    }
    let mut v: Vec<usize> = (0..=300).collect();
    for c in [512usize, 1024, 2048, 4096, 8192, 16384, 32768] {
        v.extend(c - 8..=c + 8);
    }
    v.extend(16120..=16140); // remaining-length edge for packets with ~250 bytes around the field
    v.extend(65520..=65535);
    v.extend(dict().nums.iter().map(|n| *n as usize).filter(|n| *n <= 65535));
    v.sort();
    v.dedup();
    v
}

fn no_wild(place: Place, id: u8) -> bool {
    let _ = place;
    id == 0x08
}

pub fn sources(env: &Env) -> Vec<Source> {
    let mut out = vec![];
    out.push(src("random", env.rn(1_200_000, 40_000_000), |r, _| any_legal(r)));

    // one field at a time: all identifiers, all keep-alives
    out.push(src("every_u16_field", MID_SLOTS * 65536, |_, i| {
        let (slot, x) = (i / 65536, (i % 65536) as u16);
        // identifier 0 is not legal: use 1 there; keep-alive 0 is
        mid_packet(slot, if slot / 3 < 10 { x.max(1) } else { x })
    }));

    // all 16-bit property values
    let p16: Vec<(Place, u8)> = PLACES
        .iter()
        .flat_map(|p| allowed(*p).iter().filter(|i| wire_type(**i) == Some(WT::U16)).map(move |i| (*p, *i)))
        .collect();
    out.push(src("every_u16_property", p16.len() as u64 * 65536, move |_, i| {
        let (p, id) = p16[(i / 65536) as usize];
        let mut x = (i % 65536) as u16;
        if id == 0x21 || id == 0x23 {
            x = x.max(1);
        }
        (base_with(p, &[(id, Val::U16(x))]), 5)
    }));

    // 32-bit and variable-length property values
    let p32: Vec<(Place, u8)> = PLACES
        .iter()
        .flat_map(|p| allowed(*p).iter().filter(|i| matches!(wire_type(**i), Some(WT::U32) | Some(WT::Var))).map(move |i| (*p, *i)))
        .collect();
    let mut vals: Vec<u32> = (0..if small() { 20 } else { 2000 }).collect();
    for k in 0..32 {
        for d in -3i64..=3 {
            vals.push(((1i64 << k) + d) as u32);
        }
    }
    vals.extend(dict().nums.iter().map(|n| *n as u32));
    vals.extend([u32::MAX, u32::MAX - 1, 0x01020304, 0xfffefdfc, VARINT_MAX, VARINT_MAX - 1]);
    vals.extend(16380..16390);
    vals.extend(2097148..2097156);
    vals.sort();
    vals.dedup();
    let nv = vals.len() as u64 + 400;
    out.push(src("u32_properties", p32.len() as u64 * nv, move |r, i| {
        let (p, id) = p32[(i / nv) as usize];
        let k = (i % nv) as usize;
        let x = if k < vals.len() { vals[k] } else { r.next() as u32 };
        let v = match wire_type(id) {
            Some(WT::Var) => Val::Var((x % (VARINT_MAX + 1)).max(1)),
            _ => Val::U32(if id == 0x27 { x.max(1) } else { x }),
        };
        (base_with(p, &[(id, v)]), 5)
    }));

    // presence: every subset of the properties of each place
    let mut offs: Vec<(Place, u64, u64)> = vec![];
    let mut n = 0;
    for p in PLACES {
        let c = 1u64 << allowed(p).len();
        offs.push((p, n, c));
        n += c;
    }
    out.push(src("every_property_subset", n, move |r, i| {
        let (p, o, _) = *offs.iter().find(|(_, o, c)| i >= *o && i < o + c).unwrap();
        let l = props_mask(r, p, (i - o) as u32);
        (base_with(p, &l), 5)
    }));
    // CONNECT: every combination of optional parts and flags
    out.push(src("every_connect_shape", 3 * 2 * 2 * 2 * 3 * 2 * 2 * 2 * 2 * 2 * 2 * 2, |r, i| {
        let mut k = i;
        let mut d = |n: u64| {
            let x = k % n;
            k /= n;
            x
        };
        let v = [3, 4, 5][d(3) as usize];
        let (will, user, pass, qos, ret, clean, props, wprops, empty_id, empty_u, empty_p) =
            (d(2) == 1, d(2) == 1, d(2) == 1, d(3) as u8, d(2) == 1, d(2) == 1, d(2) == 1, d(2) == 1, d(2) == 1, d(2) == 1, d(2) == 1);
        let mut c = min_connect(v);
        c.clean_session = clean;
        if empty_id && clean && v != 3 {
            c.client_id.clear();
        }
        if user {
            c.user_name = Some(if empty_u { "".into() } else { text(r) });
            if pass {
                c.password = Some(if empty_p { "".into() } else { bintext(r) });
            }
        }
        let m = mask_for(r, Place::Connect) | 1;
        if props {
            c.properties = Some(ConnectProperties::from_list(&props_mask(r, Place::Connect, m)));
        }
        if will {
            let m = mask_for(r, Place::Will) | 1;
            c.will = Some(LastWill {
                topic: Some(topic(r)),
                payload: if empty_p { None } else { Some(bintext(r)) },
                qos,
                retain: ret,
                properties: if wprops { Some(WillProperties::from_list(&props_mask(r, Place::Will, m))) } else { None },
            });
        }
        (MqttPacket::Connect(c), v)
    }));

    // lengths of every text field
    let lens = length_list();
    let nl = lens.len() as u64;
    out.push(src("field_lengths", FIELD_SLOTS as u64 * 3 * nl, move |r, i| {
        let (slot, rest) = ((i / (3 * nl)) as usize, i % (3 * nl));
        let v = [3u8, 4, 5][(rest / nl) as usize];
        let n = lens[(rest % nl) as usize].max(field_min(slot));
        let s: String = (0..n).map(|k| char::from(b'a' + ((k as u64 * 7 + i) % 26) as u8)).collect();
        let _ = r;
        (field_packet(slot, s, v), v)
    }));
    let lens = length_list();
    let tps = text_props();
    out.push(src("property_text_lengths", tps.len() as u64 * nl, move |_, i| {
        let slot = tps[(i / nl) as usize];
        let mut n = lens[(i % nl) as usize];
        if no_wild(slot.0, slot.1) || slot.1 == 0x09 {
            n = n.max(1);
        }
        let s: String = (0..n).map(|k| char::from(b'a' + ((k as u64 * 5 + i) % 26) as u8)).collect();
        (text_prop_packet(slot, s), 5)
    }));

    // every legal code point, sixteen at a time, rotating through the text fields
    let tps = text_props();
    out.push(src("code_points", 0x110000 / 16, move |_, i| {
        let s: String = (0..16)
            .filter_map(|k| char::from_u32((i * 16 + k) as u32))
            .filter(|c| {
                let mut b = [0; 4];
                !crate::refdec::suspicious(c.encode_utf8(&mut b)) && *c != '+' && *c != '#'
            })
            .collect();
        let s = if s.is_empty() { "e".to_string() } else { s };
        let k = (i as usize) % (FIELD_SLOTS + tps.len());
        if k < FIELD_SLOTS {
            (field_packet(k, s, [3, 4, 5][(i / 7 % 3) as usize]), [3, 4, 5][(i / 7 % 3) as usize])
        } else {
            (text_prop_packet(tps[k - FIELD_SLOTS], s), 5)
        }
    }));

    // remaining lengths: PUBLISH payload of every size, edges of the length encoding
    let mut pl: Vec<usize> = (0..=if small() { 20 } else { 17000 }).collect();
    pl.extend(65500..=65560);
    pl.extend(2097110..=2097160);
    pl.extend(dict().nums.iter().map(|n| *n as usize).filter(|n| *n < 3_000_000));
    pl.sort();
    pl.dedup();
    let np = pl.len() as u64;
    out.push(src("payload_sizes", 2 * np, move |_, i| {
        let v = if i < np { 5 } else { 4 };
        let n = pl[(i % np) as usize];
        let payload = (0..n).map(|k| (k % 251) as u8).collect();
        (
            MqttPacket::Publish(PublishPacket {
                payload,
                qos: (i % 3) as u8,
                message_id: if i % 3 == 0 { None } else { Some(77) },
                ..min_publish()
            }),
            v,
        )
    }));

    // element counts: lists and repeated properties
    let mut cs: Vec<usize> = (1..=if small() { 9 } else { 600 }).collect();
    cs.extend([1000, 1023, 1024, 1025, 4096, 5000, 16383, 16384, 20000, 65534, 65535, 65536, 65537, 70000]);
    cs.extend(dict().nums.iter().map(|n| *n as usize).filter(|n| *n >= 1 && *n <= 70000));
    cs.sort();
    cs.dedup();
    let nc = cs.len() as u64;
    out.push(src("element_counts", 9 * nc, move |r, i| {
        let n = cs[(i % nc) as usize];
        let v = if r.pct(70) { 5 } else { 4 };
        let p = match i / nc {
            0 => MqttPacket::Subscribe(SubscribePacket {
                qos: 1,
                message_id: 5,
                properties: None,
                subscriptions: (0..n)
                    .map(|k| Subscription {
                        topic: format!("{}", k),
                        qos: QOS[k % 3].1.clone(),
                        nl: k % 2 == 0,
                        rap: k % 5 == 0,
                        rh: Some((k % 3) as u8),
                    })
                    .collect(),
            }),
            1 => MqttPacket::Unsubscribe(UnsubscribePacket {
                qos: 1,
                message_id: 5,
                properties: None,
                unsubscriptions: (0..n).map(|k| format!("{}", k)).collect(),
            }),
            2 => MqttPacket::Suback(SubackPacket {
                reason_code: None,
                message_id: 5,
                properties: None,
                granted_reason_codes: (0..n).map(|k| SUBACK_CODES[k * 7 % SUBACK_CODES.len()].1.clone()).collect(),
                granted: (0..n).map(|k| GRANTED[k * 3 % GRANTED.len()].1.clone()).collect(),
            }),
            3 => MqttPacket::Unsuback(UnsubackPacket {
                message_id: 5,
                granted: (0..n).map(|k| UNSUBACK_CODES[k * 3 % UNSUBACK_CODES.len()].1.clone()).collect(),
                properties: None,
            }),
            4 => {
                let l: PList = (0..n).map(|k| (0x0B, Val::Var((k as u32 * 37) % VARINT_MAX + 1))).collect();
                base_with(Place::Publish, &l)
            }
            k @ 5..=6 => {
                // distinct keys / one key with many values, in a rotating place
                let place = PLACES[r.us(14)];
                let mut u = UserProperties::new();
                for j in 0..n {
                    if k == 5 {
                        add_user(&mut u, &format!("k{}", j), &format!("v{}", j));
                    } else {
                        add_user(&mut u, "k", &format!("v{}", j));
                    }
                }
                let mut l = PList::new();
                crate::conv::push_user(&mut l, &u);
                base_with(place, &l)
            }
            7 => {
                // repeated values must not be merged
                let l: PList = (0..n).map(|k| (0x26, Val::Pair(format!("k{}", k % 3), format!("v{}", k % 2)))).collect();
                base_with(PLACES[r.us(14)], &l)
            }
            _ => MqttPacket::Subscribe(SubscribePacket {
                qos: 1,
                message_id: 5,
                properties: None,
                subscriptions: (0..n).map(|k| sub(["a", "b", "a"][k % 3])).collect(),
            }),
        };
        let v5only = matches!(i / nc, 4..=7);
        (p, if v5only { 5 } else { v })
    }));

    // every code in every packet, with and without properties
    let mut codes: Vec<(u8, usize)> = vec![];
    for (t, n) in [(2u8, CONNACK_CODES_V5.len()), (4, 9), (5, 9), (6, 2), (7, 2), (9, 12), (11, 7), (14, DISCONNECT_CODES.len()), (15, 3)] {
        for i in 0..n {
            codes.push((t, i));
        }
    }
    let nc = codes.len() as u64;
    out.push(src("every_code", nc * 64, move |r, i| {
        let (t, k) = codes[(i % nc) as usize];
        let shape = i / nc;
        let mut p = loop {
            let p = legal(r, 5, t);
            if t != 15 || shape % 4 != 0 {
                break p;
            }
            if let MqttPacket::Auth(a) = &p {
                if a.properties.is_some() {
                    break p;
                }
            }
        };
        match &mut p {
            MqttPacket::Connack(c) => {
                c.reason_code = Some(CONNACK_CODES_V5[k]);
                c.session_present = k == 0 && shape & 1 == 1;
                if shape % 4 == 0 {
                    c.properties = None;
                }
            }
            MqttPacket::Puback(c) | MqttPacket::Pubrec(c) => {
                c.puback_reason_code = Some(PUBACK_CODES[k].1.clone());
                if shape % 4 == 0 {
                    c.properties = None;
                }
            }
            MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => {
                c.pubcomp_reason_code = Some(PUBREL_CODES[k].1.clone());
                if shape % 4 == 0 {
                    c.properties = None;
                }
            }
            MqttPacket::Suback(c) => c.granted_reason_codes = vec![SUBACK_CODES[k].1.clone(); 1 + shape as usize % 3],
            MqttPacket::Unsuback(c) => c.granted = vec![UNSUBACK_CODES[k].1.clone(); 1 + shape as usize % 3],
            MqttPacket::Disconnect(c) => {
                c.reason_code = Some(DISCONNECT_CODES[k].1.clone());
                if shape % 4 == 0 {
                    c.properties = None;
                }
            }
            MqttPacket::Auth(c) => {
                if c.properties.is_some() {
                    c.reason_code = AUTH_CODES[k].1.clone();
                }
            }
            _ => unreachable!(),
        }
        (p, 5)
    }));

    // pairs of interesting values: two fields that are each ordinary but special together
    out.push(src("special_pairs", env.rn(300_000, 6_000_000), |r, _| {
        let v = version(r);
        let t = 1 + r.below(types_for(v) as u64) as u8;
        let mut p = legal(r, v, t);
        // boundary-align the whole frame where a payload makes that possible
        if let MqttPacket::Publish(c) = &mut p {
            let target = *r.pick(&[126usize, 127, 128, 129, 16382, 16383, 16384, 16385, 8191, 8192, 8193]);
            let fixed = c.topic.len() + 8;
            if target > fixed {
                let n = target - fixed + r.us(8);
                c.payload = vec![0x30; n.saturating_sub(4)];
            }
        }
        (p, v)
    }));
    out
}
