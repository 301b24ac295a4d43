//! Independent MQTT writer with layout freedom: every legal way to lay a packet out.
//! Shares no code with the library. Returns the frame and the packet a decoder must report for it.
use crate::conv::{norm, PList, RefProps};
use crate::rng::Rng;
use crate::spec::*;
use mqtt_packet_3_5::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    /// properties in list order, everything explicit, no short forms
    Full,
    /// any legal choice
    Free,
}

fn s16(b: &mut Vec<u8>, s: &[u8]) {
    assert!(s.len() <= 65535, "harness: over-long field in a legal packet");
    b.extend_from_slice(&(s.len() as u16).to_be_bytes());
    b.extend_from_slice(s);
}

pub fn put_prop(b: &mut Vec<u8>, id: u8, v: &Val) {
    b.push(id);
    match v {
        Val::Bool(x) | Val::U8(x) => b.push(*x),
        Val::U16(x) => b.extend_from_slice(&x.to_be_bytes()),
        Val::U32(x) => b.extend_from_slice(&x.to_be_bytes()),
        Val::Var(x) => b.extend_from_slice(&varint(*x)),
        Val::Str(x) => s16(b, x.as_bytes()),
        Val::Bin(x) => s16(b, x),
        Val::Pair(k, x) => {
            s16(b, k.as_bytes());
            s16(b, x.as_bytes());
        }
    }
}

/// random order, but values that share a key (and subscription identifiers) keep their order
pub fn shuffle_props(r: &mut Rng, l: &mut PList) {
    fn group(x: &(u8, Val)) -> Option<(u8, String)> {
        match x {
            (0x26, Val::Pair(k, _)) => Some((0x26, k.clone())),
            (0x0B, _) => Some((0x0B, String::new())),
            _ => None,
        }
    }
    if l.len() < 2 {
        return;
    }
    let orig = l.clone();
    let mut idx: Vec<usize> = (0..orig.len()).collect();
    r.shuffle(&mut idx);
    // per group, put the original members back in ascending order into the shuffled positions
    use std::collections::HashMap;
    let mut pos: HashMap<(u8, String), Vec<usize>> = HashMap::new();
    for (p, i) in idx.iter().enumerate() {
        if let Some(g) = group(&orig[*i]) {
            pos.entry(g).or_default().push(p);
        }
    }
    for (_, ps) in pos {
        let mut members: Vec<usize> = ps.iter().map(|p| idx[*p]).collect();
        members.sort();
        for (p, m) in ps.iter().zip(members) {
            idx[*p] = m;
        }
    }
    *l = idx.into_iter().map(|i| orig[i].clone()).collect();
}

/// lays out a property set; returns wire list and the struct a decoder must produce
fn lay<T: RefProps>(r: &mut Rng, p: &Option<T>, place: Place, st: Style) -> (PList, Option<T>) {
    let mut l = match p {
        None => vec![],
        Some(p) => p.to_list(),
    };
    if st == Style::Free {
        l.retain(|(id, v)| !(default_of(place, *id).as_ref() == Some(v) && r.pct(60)));
        shuffle_props(r, &mut l);
    }
    let t = if l.is_empty() { None } else { Some(T::from_list(&l)) };
    (l, t)
}

pub fn block(l: &[(u8, Val)]) -> Vec<u8> {
    let mut b = vec![];
    for (id, v) in l {
        put_prop(&mut b, *id, v);
    }
    let mut o = varint(b.len() as u32);
    o.append(&mut b);
    o
}

pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![first];
    o.extend_from_slice(&varint(body.len() as u32));
    o.extend_from_slice(body);
    o
}

pub fn encode(r: &mut Rng, p: &MqttPacket, v: u8, st: Style) -> (Vec<u8>, MqttPacket) {
    let v5 = v == 5;
    let mut want = norm(p, v);
    let mut b: Vec<u8> = vec![];
    let t = type_no(p);
    let mut first = t << 4 | fixed_flags(t);
    match (&mut want, p) {
        (MqttPacket::Connect(w), _) => {
            let v5 = w.protocol_version == 5;
            s16(&mut b, match w.protocol_id {
                Protocol::Mqtt => b"MQTT",
                Protocol::MQIsdp => b"MQIsdp",
            });
            b.push(w.protocol_version);
            let mut f = 0;
            if w.clean_session {
                f |= 2;
            }
            if let Some(x) = &w.will {
                f |= 4 | x.qos << 3;
                if x.retain {
                    f |= 0x20;
                }
            }
            if w.password.is_some() {
                f |= 0x40;
            }
            if w.user_name.is_some() {
                f |= 0x80;
            }
            b.push(f);
            b.extend_from_slice(&w.keep_alive.to_be_bytes());
            if v5 {
                let (l, np) = lay(r, &w.properties, Place::Connect, st);
                b.extend_from_slice(&block(&l));
                w.properties = np;
            }
            s16(&mut b, w.client_id.as_bytes());
            if let Some(x) = w.will.as_mut() {
                if v5 {
                    let (l, np) = lay(r, &x.properties, Place::Will, st);
                    b.extend_from_slice(&block(&l));
                    x.properties = np;
                }
                s16(&mut b, x.topic.as_deref().unwrap_or("").as_bytes());
                s16(&mut b, x.payload.as_deref().unwrap_or("").as_bytes());
            }
            if let Some(x) = &w.user_name {
                s16(&mut b, x.as_bytes());
            }
            if let Some(x) = &w.password {
                s16(&mut b, x.as_bytes());
            }
        }
        (MqttPacket::Connack(w), _) => {
            b.push(w.session_present as u8);
            if v5 {
                b.push(w.reason_code.unwrap());
                let (l, np) = lay(r, &w.properties, Place::Connack, st);
                b.extend_from_slice(&block(&l));
                w.properties = np;
            } else {
                b.push(w.return_code.unwrap());
            }
        }
        (MqttPacket::Publish(w), _) => {
            first = 0x30 | (w.dup as u8) << 3 | w.qos << 1 | w.retain as u8;
            s16(&mut b, w.topic.as_bytes());
            if w.qos > 0 {
                b.extend_from_slice(&w.message_id.unwrap().to_be_bytes());
            }
            if v5 {
                let (l, np) = lay(r, &w.properties, Place::Publish, st);
                b.extend_from_slice(&block(&l));
                w.properties = np;
            }
            b.extend_from_slice(&w.payload);
        }
        (MqttPacket::Puback(w) | MqttPacket::Pubrec(w) | MqttPacket::Pubrel(w) | MqttPacket::Pubcomp(w), _) => {
            b.extend_from_slice(&w.message_id.to_be_bytes());
            if v5 {
                let code = match (&w.puback_reason_code, &w.pubcomp_reason_code) {
                    (Some(c), None) => by_val(PUBACK_CODES, c),
                    (None, Some(c)) => by_val(PUBREL_CODES, c),
                    _ => panic!("harness: illegal confirmation"),
                };
                let (l, np) = lay(r, &w.properties, PLACES[t as usize], st);
                w.properties = np;
                let cut = if st == Style::Free && l.is_empty() { r.below(3) } else { 2 };
                if !(cut == 0 && code == 0) {
                    b.push(code);
                    if cut == 2 {
                        b.extend_from_slice(&block(&l));
                    }
                }
            }
        }
        (MqttPacket::Subscribe(w), _) => {
            b.extend_from_slice(&w.message_id.to_be_bytes());
            if v5 {
                let (l, np) = lay(r, &w.properties, Place::Subscribe, st);
                b.extend_from_slice(&block(&l));
                w.properties = np;
            }
            for x in &w.subscriptions {
                s16(&mut b, x.topic.as_bytes());
                let mut o = by_val(QOS, &x.qos);
                if v5 {
                    o |= (x.nl as u8) << 2 | (x.rap as u8) << 3 | x.rh.unwrap() << 4;
                }
                b.push(o);
            }
        }
        (MqttPacket::Suback(w), _) => {
            b.extend_from_slice(&w.message_id.to_be_bytes());
            if v5 {
                let (l, np) = lay(r, &w.properties, Place::Suback, st);
                b.extend_from_slice(&block(&l));
                w.properties = np;
                b.extend(w.granted_reason_codes.iter().map(|c| by_val(SUBACK_CODES, c)));
            } else {
                b.extend(w.granted.iter().map(|c| by_val(GRANTED, c)));
            }
        }
        (MqttPacket::Unsubscribe(w), _) => {
            b.extend_from_slice(&w.message_id.to_be_bytes());
            if v5 {
                let (l, np) = lay(r, &w.properties, Place::Unsubscribe, st);
                b.extend_from_slice(&block(&l));
                w.properties = np;
            }
            for x in &w.unsubscriptions {
                s16(&mut b, x.as_bytes());
            }
        }
        (MqttPacket::Unsuback(w), _) => {
            b.extend_from_slice(&w.message_id.to_be_bytes());
            if v5 {
                let (l, np) = lay(r, &w.properties, Place::Unsuback, st);
                b.extend_from_slice(&block(&l));
                w.properties = np;
                b.extend(w.granted.iter().map(|c| by_val(UNSUBACK_CODES, c)));
            }
        }
        (MqttPacket::Pingreq, _) | (MqttPacket::Pingresp, _) => {}
        (MqttPacket::Disconnect(w), _) => {
            if v5 {
                let code = by_val(DISCONNECT_CODES, w.reason_code.as_ref().unwrap());
                let (l, np) = lay(r, &w.properties, Place::Disconnect, st);
                w.properties = np;
                let cut = if st == Style::Free && l.is_empty() { r.below(3) } else { 2 };
                if !(cut == 0 && code == 0) {
                    b.push(code);
                    if cut == 2 {
                        b.extend_from_slice(&block(&l));
                    }
                }
            }
        }
        (MqttPacket::Auth(w), _) => {
            let code = by_val(AUTH_CODES, &w.reason_code);
            let (l, np) = lay(r, &w.properties, Place::Auth, st);
            w.properties = np;
            if l.is_empty() && code == 0 && (st == Style::Free || true) {
                // remaining length 0: the only legal form without a method
            } else {
                b.push(code);
                b.extend_from_slice(&block(&l));
            }
        }
    }
    (frame(first, &b), want)
}
