//! Properties of encoding: C01, C02, C03, C14, C16, C20.
use super::*;
use crate::conv::*;
use crate::gen;
use crate::refdec::{self, split, Split, Verdict};
use crate::rng::hash_bytes;
use crate::run::{hex, Phase};
use crate::source::*;
use crate::spec::*;
use crate::io::Chunks;
use std::collections::HashMap;
use std::io::{BufRead, Read};

pub type Oracle = fn(&mut Ctx, &MqttPacket, u8);

/// run an oracle over every source of legal packets
pub fn over_sources<'a>(env: &'a Env, skip: &'static [&'static str], o: Oracle) -> Vec<Phase<'a>> {
    let mut phases: Vec<Phase<'a>> = sources(env)
        .into_iter()
        .filter(|s| !skip.contains(&s.name))
        .map(|s| {
            let batch = if s.name == "payload_sizes" || s.name == "element_counts" { 16 } else { 256 };
            let make = s.make;
            Phase::new(s.name, s.count, move |c: &mut Ctx| {
                let idx = c.idx;
                let (p, v) = make(&mut c.rng, idx);
                o(c, &p, v);
            })
            .batch(batch)
        })
        .collect();
    if !skip.contains(&"large_packets") {
        phases.push(large_packets(env.n(240, 4000), o));
    }
    phases
}
/// packets of up to 17 MB: long payloads, many filters, codes, properties
pub fn large_packets<'a>(count: u64, o: Oracle) -> Phase<'a> {
    Phase::new("large_packets", count, move |c: &mut Ctx| {
        let v = *c.rng.pick(&[3u8, 4, 5, 5]);
        let p = super::streams::large_packet(&mut c.rng, v, 20_000_000);
        c.stat("large packets", 1);
        o(c, &p, v);
    })
    .batch(1)
}

pub fn note(c: &mut Ctx, p: &MqttPacket, v: u8, b: &[u8]) {
    c.eval(hash_bytes(b) ^ v as u64, b.len() > 2);
    c.stat("packets encoded", 1);
    c.stat("bytes encoded", b.len() as u64);
    c.stat_max("max frame size", b.len() as u64);
    c.stat(match type_no(p) {
        1 => "connect",
        2 => "connack",
        3 => "publish",
        4..=7 => "acknowledgements",
        8..=11 => "subscribe family",
        12 | 13 => "ping",
        14 => "disconnect",
        _ => "auth",
    }, 1);
    c.sample(|| format!("v{} {} -> {}", v, short(&format!("{:?}", p), 250), short(&hex(b), 200)));
}

/// encode a legal packet; reports anything but success
pub fn must_encode(c: &mut Ctx, p: &MqttPacket, v: u8) -> Option<Vec<u8>> {
    match enc(c, p, v) {
        Err(m) => {
            c.fail("encode-panic", || format!("encoding a legal v{} packet panicked: {} packet {}", v, m, pd(p)), &[]);
            None
        }
        Ok(Err(e)) => {
            c.fail("encode-refused", || format!("encoding a legal v{} packet failed: {} packet {}", v, e, pd(p)), &[]);
            None
        }
        Ok(Ok(b)) => Some(b),
    }
}

// ------------------------------------------------------------------ C01

fn o_c01(c: &mut Ctx, p: &MqttPacket, v: u8) {
    let Some(b) = must_encode(c, p, v) else { return };
    note(c, p, v, &b);
    let want = norm(p, v);
    match dec_tail(c, &b, v, 0) {
        Err(m) => c.fail("decode-panic", || format!("decoding the encoder's own v{} frame panicked: {}", v, m), &b),
        Ok((Err(e), _)) => c.fail("decode-refused", || format!("decoding the encoder's own v{} frame failed: {} packet {}", v, e, pd(p)), &b),
        Ok((Ok(q), rest)) => {
            if q != want {
                c.fail("round-trip", || format!("v{} round trip changed the packet: sent {} got {}", v, pd(&want), pd(&q)), &b);
            } else if !rest {
                c.fail("round-trip-rest", || format!("v{} round trip did not consume exactly the frame of {}", v, pd(p)), &b);
            } else {
                c.stat("round trips equal", 1);
            }
        }
    }
}
pub fn c01(env: &Env) -> Check<'_> {
    Check {
        id: "C01",
        level: "exploration",
        rule: "Legal packets from systematic sources (all 16-bit fields, all property subsets, length and count sweeps, every code, every code point) and a seeded random generator; each is encoded and decoded and compared. Non-trivial: a frame of more than two bytes; distinct by encoded bytes and version.",
        assumptions: vec!["legality of generated packets follows the OASIS standards as transcribed in harness/src/gen.rs", "the CONNACK is_default flag is bookkeeping of how the value was built and is false on every decoded packet"],
        phases: over_sources(env, &[], o_c01),
        need: vec!["round trips equal", "connect", "publish", "auth"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C02 / C03

/// encoder output must be one clean frame carrying exactly `want`
pub fn wellformed(c: &mut Ctx, p: &MqttPacket, v: u8, b: &[u8], legal: bool) {
    let show_p = |p: &MqttPacket| pd(p);
    match split(b) {
        Split::Frame(h, l) if h + l == b.len() => {}
        s => {
            c.fail("not-one-frame", || format!("v{} encoder output is not exactly one frame ({:?}, {} bytes): {}", v, s, b.len(), show_p(p)), b);
            return;
        }
    }
    let rv = match p {
        MqttPacket::Connect(_) => 5,
        _ => v,
    };
    let (verdict, layout) = refdec::decode_full(b, rv);
    let want = norm(p, v);
    match &verdict {
        Verdict::Reject(w) => c.fail("malformed-output", || format!("v{} encoder output is malformed ({}): {}", v, w, show_p(p)), b),
        Verdict::Gray(_, w) if layout => c.fail("unclean-output", || format!("v{} encoder output is not cleanly laid out ({}): {}", v, w, show_p(p)), b),
        Verdict::Gray(_, w) if legal => c.fail("illegal-output", || format!("v{} encoder turned a legal packet into an illegal frame ({}): {}", v, w, show_p(p)), b),
        _ => match verdict.packet() {
            Some(q) if *q == want => c.stat("frames read back by the reference reader", 1),
            Some(q) => c.fail("wrong-contents", || format!("v{} frame carries {} but the packet was {}", v, pd(q), pd(&want)), b),
            None => c.fail("opaque-output", || format!("v{} frame holds text that is not UTF-8: {}", v, show_p(p)), b),
        },
    }
}
fn o_c02(c: &mut Ctx, p: &MqttPacket, v: u8) {
    match enc(c, p, v) {
        Err(m) => c.fail("encode-panic", || format!("encoding panicked at v{}: {} packet {}", v, m, pd(p)), &[]),
        Ok(Err(_)) => {
            c.eval(hash_bytes(format!("{:?}", p).as_bytes()), true);
            c.stat("refused", 1);
        }
        Ok(Ok(b)) => {
            note(c, p, v, &b);
            wellformed(c, p, v, &b, false);
        }
    }
}
fn o_c03(c: &mut Ctx, p: &MqttPacket, v: u8) {
    let Some(b) = must_encode(c, p, v) else { return };
    note(c, p, v, &b);
    wellformed(c, p, v, &b, true);
}

/// packets around and beyond the largest encodable size
fn huge(c: &mut Ctx) {
    let max = VARINT_MAX as usize;
    let i = c.idx;
    let text = |n: usize| "t".repeat(n);
    let props = |total: usize| -> Vec<(u8, Val)> {
        let mut l = vec![];
        let mut left = total;
        let mut k = 0;
        while left > 0 {
            let n = left.min(60_000);
            l.push((0x26, Val::Pair(format!("{}", k % 97), text(n))));
            left -= n;
            k += 1;
        }
        l
    };
    let mut v = 5;
    let (p, fits) = match i {
        // topic "t": 2+1, no identifier, property length 1
        0 | 1 | 2 | 3 => {
            v = if i < 2 { 5 } else { 4 };
            let over = if v == 5 { 4 } else { 3 };
            let n = max - over + (i % 2) as usize;
            (MqttPacket::Publish(PublishPacket { qos: 0, message_id: None, payload: vec![0x5a; n], ..min_publish() }), i % 2 == 0)
        }
        4 => {
            crate::alloc_cap(20 << 30);
            // lengths that wrap a 32-bit counter back into range; never touched, so never resident
            let n = (1u64 << 32) as usize + 100;
            (MqttPacket::Publish(PublishPacket { qos: 0, message_id: None, payload: vec![0; n], ..min_publish() }), false)
        }
        5 => (
            MqttPacket::Subscribe(SubscribePacket { qos: 1, message_id: 3, properties: None, subscriptions: (0..4600).map(|_| sub(&text(60_000))).collect() }),
            false,
        ),
        6 => (
            MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, message_id: 3, properties: None, unsubscriptions: (0..4600).map(|_| text(60_000)).collect() }),
            false,
        ),
        7 => (
            MqttPacket::Suback(SubackPacket {
                reason_code: None,
                message_id: 3,
                properties: None,
                granted_reason_codes: vec![SubscriptionReasonCode::GrantedQoS1; max],
                granted: vec![],
            }),
            false,
        ),
        8 => (MqttPacket::Unsuback(UnsubackPacket { message_id: 3, properties: None, granted: vec![UnsubackCode::Success; max - 1] }), false),
        k => (base_with(PLACES[(k - 9) as usize], &props(max + 10)), false),
    };
    let r = c.guard(|| p.encode(v));
    crate::alloc_cap(3 << 30);
    c.stat("frames at or beyond the size limit", 1);
    c.eval(hash_bytes(&i.to_le_bytes()), true);
    match r {
        Err(m) => c.fail("encode-panic", || format!("encoding an over-long packet (case {}) panicked: {}", i, m), &[]),
        Ok(Err(e)) if fits => c.fail("encode-refused", || format!("a packet of exactly the largest size (case {}) was refused: {}", i, e), &[]),
        Ok(Err(_)) => {}
        Ok(Ok(b)) if fits => {
            let good = matches!(split(&b), Split::Frame(h, l) if h + l == b.len() && l == max);
            if !good {
                c.fail("not-one-frame", || format!("largest packet (case {}) is not one frame", i), &b[..b.len().min(64)]);
            }
        }
        Ok(Ok(b)) => c.fail("over-long-accepted", || format!("an over-long packet (case {}) was encoded to {} bytes", i, b.len()), &b[..b.len().min(64)]),
    }
}

pub fn c02(env: &Env) -> Check<'_> {
    let mut phases = over_sources(env, &["every_u16_field", "every_u16_property"], o_c02);
    phases.push(Phase::new("hostile", env.rn(800_000, 30_000_000), |c| {
        let (p, v) = gen::hostile(&mut c.rng);
        c.stat("hostile packets", 1);
        o_c02(c, &p, v);
    }));
    phases.push(Phase::new("one_over", 4 * text_fields() * 3, one_over).batch(8));
    if env.scale >= 1.0 {
        phases.push(Phase::new("huge", env.n(9, 23), huge).batch(1));
    }
    Check {
        id: "C02",
        level: "exploration",
        rule: "Legal sources plus hostile packets (over-long fields, out-of-range values, contradictory or missing parts, empty lists, frames around 268435455 bytes); every successful encoding is split and read by the independent reader and compared with the packet. Distinct by encoded bytes (or by packet when refused).",
        assumptions: vec!["values that MQTT forbids but that fit their field (identifier 0, wildcards in names, U+0000) may be encoded or refused", "Maximum QoS 2 in CONNACK is tolerated: an existing test pins it"],
        phases,
        need: vec!["frames read back by the reference reader", "refused", "hostile packets"],
        exhaustive: false,
    }
}
fn text_fields() -> u64 {
    (8 + text_props().len()) as u64
}
/// every text field, one at a time, just past what its length prefix can hold
fn one_over(c: &mut Ctx) {
    let n = text_fields();
    let (k, rest) = (c.idx % n, c.idx / n);
    let len = [65535usize, 65536, 65537, 65536 + 300][(rest % 4) as usize];
    let ch = ["a", "é", "漢"][(rest / 4) as usize];
    let s: String = ch.repeat(len / ch.len() + 1).chars().scan(0usize, |l, x| {
        *l += x.len_utf8();
        if *l <= len { Some(x) } else { None }
    }).collect();
    let s = s.clone() + &"z".repeat(len - s.len());
    let v = [3u8, 4, 5][(rest % 3) as usize];
    let (p, v) = over_packet(k as usize, s, v);
    c.stat("fields at the 16-bit limit", 1);
    match enc(c, &p, v) {
        Err(m) => c.fail("encode-panic", || format!("over-long field {} panicked: {}", k, m), &[]),
        Ok(Err(e)) => {
            c.eval(c.idx, true);
            if len <= 65535 {
                c.fail("encode-refused", || format!("field {} of 65535 bytes refused: {}", k, e), &[]);
            }
        }
        Ok(Ok(b)) => {
            c.eval(hash_bytes(&b), true);
            wellformed(c, &p, v, &b, false);
            if len > 65535 {
                c.fail("over-long-accepted", || format!("field {} of {} bytes was encoded at v{}", k, len, v), &b[..64.min(b.len())]);
            }
        }
    }
}
fn over_packet(k: usize, s: String, v: u8) -> (MqttPacket, u8) {
    if k < 8 {
        (crate::source::field_packet(k, s, v), v)
    } else {
        (crate::source::text_prop_packet(text_props()[k - 8], s), 5)
    }
}

pub fn c03(env: &Env) -> Check<'_> {
    Check {
        id: "C03",
        level: "exploration",
        rule: "Every legal source packet is encoded and read by an independent MQTT reader sharing no code with the library; all fields are compared. Non-trivial: more than two bytes; distinct by encoded bytes.",
        assumptions: vec!["the independent reader (harness/src/refdec.rs) transcribes the OASIS standards correctly"],
        phases: over_sources(env, &[], o_c03),
        need: vec!["frames read back by the reference reader", "connect", "publish", "auth"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C14

/// the packet with all v5-only content replaced by something else
fn scramble_v5(c: &mut Ctx, p: &MqttPacket) -> MqttPacket {
    let r = &mut c.rng;
    let mut q = p.clone();
    fn rp<T: RefProps>(r: &mut crate::rng::Rng, place: Place) -> Option<T> {
        if r.bool() {
            return None;
        }
        let m = gen::mask_for(r, place);
        Some(T::from_list(&gen::props_mask(r, place, m)))
    }
    match &mut q {
        MqttPacket::Connect(c) => {
            c.properties = rp(r, Place::Connect);
            if let Some(w) = c.will.as_mut() {
                w.properties = rp(r, Place::Will);
            }
        }
        MqttPacket::Connack(c) => {
            c.reason_code = if r.bool() { None } else { Some(r.u8()) };
            c.properties = rp(r, Place::Connack);
        }
        MqttPacket::Publish(c) => c.properties = rp(r, Place::Publish),
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) => {
            c.puback_reason_code = if r.bool() { None } else { Some(gen::puback_code(r)) };
            c.properties = rp(r, Place::Puback);
        }
        MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => {
            c.pubcomp_reason_code = if r.bool() { None } else { Some(gen::pubrel_code(r)) };
            c.properties = rp(r, Place::Pubrel);
        }
        MqttPacket::Subscribe(c) => {
            c.properties = rp(r, Place::Subscribe);
            for s in &mut c.subscriptions {
                s.nl = r.bool();
                s.rap = r.bool();
                s.rh = if r.bool() { None } else { Some(r.below(3) as u8) };
            }
        }
        MqttPacket::Suback(c) => {
            c.properties = rp(r, Place::Suback);
            c.granted_reason_codes = (0..r.us(5)).map(|_| r.pick(SUBACK_CODES).1.clone()).collect();
        }
        MqttPacket::Unsubscribe(c) => c.properties = rp(r, Place::Unsubscribe),
        MqttPacket::Unsuback(c) => {
            c.properties = rp(r, Place::Unsuback);
            c.granted = (0..r.us(5)).map(|_| r.pick(UNSUBACK_CODES).1.clone()).collect();
        }
        MqttPacket::Pingreq | MqttPacket::Pingresp => {}
        MqttPacket::Disconnect(c) => {
            c.reason_code = if r.bool() { None } else { Some(r.pick(DISCONNECT_CODES).1.clone()) };
            c.properties = rp(r, Place::Disconnect);
        }
        MqttPacket::Auth(_) => {}
    }
    q
}

/// v5-only content present?
pub fn has_v5(p: &MqttPacket) -> Option<&'static str> {
    match p {
        MqttPacket::Connect(c) if c.protocol_version != 5 => {
            if c.properties.is_some() || c.will.as_ref().map_or(false, |w| w.properties.is_some()) {
                return Some("CONNECT properties");
            }
        }
        MqttPacket::Connack(c) => {
            if c.properties.is_some() || c.reason_code.is_some() {
                return Some("CONNACK properties or reason code");
            }
        }
        MqttPacket::Publish(c) if c.properties.is_some() => return Some("PUBLISH properties"),
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => {
            if c.properties.is_some() || c.puback_reason_code.is_some() || c.pubcomp_reason_code.is_some() {
                return Some("acknowledgement reason code or properties");
            }
        }
        MqttPacket::Subscribe(c) => {
            if c.properties.is_some() || c.subscriptions.iter().any(|s| s.nl || s.rap || s.rh.is_some()) {
                return Some("SUBSCRIBE properties or options");
            }
        }
        MqttPacket::Suback(c) => {
            if c.properties.is_some() || !c.granted_reason_codes.is_empty() || c.reason_code.is_some() {
                return Some("SUBACK properties or codes");
            }
        }
        MqttPacket::Unsubscribe(c) if c.properties.is_some() => return Some("UNSUBSCRIBE properties"),
        MqttPacket::Unsuback(c) => {
            if c.properties.is_some() || !c.granted.is_empty() {
                return Some("UNSUBACK properties or codes");
            }
        }
        MqttPacket::Disconnect(c) => {
            if c.properties.is_some() || c.reason_code.is_some() {
                return Some("DISCONNECT properties or code");
            }
        }
        MqttPacket::Auth(_) => return Some("AUTH"),
        _ => {}
    }
    None
}

fn o_c14(c: &mut Ctx, p: &MqttPacket, v: u8) {
    match p {
        MqttPacket::Auth(_) => {
            for w in [3u8, 4] {
                if let Ok(Ok(b)) = enc(c, p, w) {
                    c.fail("auth-below-5", || format!("AUTH was encoded at v{}", w), &b);
                }
            }
            c.eval(hash_bytes(format!("{:?}", p).as_bytes()), true);
            c.stat("AUTH refused", 1);
            return;
        }
        MqttPacket::Connect(k) => {
            // the version argument is irrelevant in both directions
            let Ok(Ok(b)) = enc(c, p, k.protocol_version) else { return };
            note(c, p, v, &b);
            for w in [0u8, 3, 4, 5, 6, 255] {
                match enc(c, p, w) {
                    Ok(Ok(b2)) => {
                        if b2.len() != b.len() || refdec::decode(&b2, w).packet() != refdec::decode(&b, 5).packet() {
                            c.fail("connect-version-arg", || format!("CONNECT naming v{} encodes differently with argument {}: {}", k.protocol_version, w, pd(p)), &b2);
                        }
                    }
                    other => c.fail("connect-version-arg", || format!("CONNECT naming v{} not encoded with argument {}: {:?}", k.protocol_version, w, other.map(|x| x.map(|_| ()))), &b),
                }
            }
            let Ok((first, _)) = dec_tail(c, &b, 5, 0) else { return };
            for w in [0u8, 3, 4, 6, 255] {
                if let Ok((o, _)) = dec_tail(c, &b, w, 0) {
                    if !same(&o, &first) {
                        c.fail("connect-version-arg", || format!("CONNECT decodes differently with argument {}: {} vs {}", w, show(&o), show(&first)), &b);
                    }
                }
            }
            // nor does it matter when the packet type is used directly
            for w in [0u8, 3, 4, 5, 6, 255] {
                match c.guard(|| (decode_typed(&mut ByteReader::new(BufReader::new(Cursor::new(&b[..]))), w), k.encode(w))) {
                    Ok((o, e)) => {
                        if !same(&o, &first) {
                            c.fail("connect-version-arg", || format!("ConnectPacket::decode reads differently with argument {}: {} vs {}", w, show(&o), show(&first)), &b);
                        }
                        let ok = e.as_ref().map_or(false, |e| e.len() == b.len() && refdec::decode(e, 5).packet() == refdec::decode(&b, 5).packet());
                        if !ok {
                            c.fail("connect-version-arg", || format!("ConnectPacket::encode writes differently with argument {}: {:?} vs {}", w, e.map(|e| hex(&e)), hex(&b)), &b);
                        }
                    }
                    Err(m) => c.fail("connect-panic", || format!("panic {} with argument {}", m, w), &b),
                }
            }
            if k.protocol_version != 5 {
                let q = scramble_v5(c, p);
                for w in [3u8, 4, 5] {
                    if let Ok(Ok(b2)) = enc(c, &q, w) {
                        if b2 != b {
                            c.fail("v5-leak", || format!("v5 content changed the v{} CONNECT: {}", k.protocol_version, pd(&q)), &b2);
                        }
                    }
                }
            }
            c.stat("CONNECT under many version arguments", 1);
            return;
        }
        _ => {}
    }
    // packets built for v5 lack what v3 needs in two places: supply it
    let mut base = p.clone();
    match &mut base {
        MqttPacket::Connack(k) if k.return_code.is_none() => k.return_code = Some(0),
        MqttPacket::Suback(k) if k.granted.is_empty() => k.granted = vec![Granted::QoS1],
        MqttPacket::Publish(k) if k.topic.is_empty() => k.topic = "t".into(),
        _ => {}
    }
    let a = enc(c, &base, 3);
    let b = enc(c, &base, 4);
    let (a, b) = match (a, b) {
        (Ok(Ok(a)), Ok(Ok(b))) => (a, b),
        (a, b) => {
            c.fail("encode-refused", || format!("legal packet not encoded below v5: {:?} {:?} {}", a.map(|x| x.map(|_| ())), b.map(|x| x.map(|_| ())), pd(&base)), &[]);
            return;
        }
    };
    note(c, &base, 4, &a);
    if a != b {
        c.fail("v3-v4-differ", || format!("versions 3 and 4 encode differently: {} vs {} for {}", hex(&a), hex(&b), pd(&base)), &a);
        return;
    }
    for _ in 0..2 {
        let q = scramble_v5(c, &base);
        let w = if c.rng.bool() { 3 } else { 4 };
        match enc(c, &q, w) {
            Ok(Ok(x)) if x == a => c.stat("v5 content had no effect below v5", 1),
            Ok(Ok(x)) => c.fail("v5-leak", || format!("v5-only content changed the v{} frame: {} vs {} for {}", w, hex(&x), hex(&a), pd(&q)), &x),
            Ok(Err(e)) => c.fail("v5-leak-refused", || format!("v5-only content made the v{} encoding fail: {} for {}", w, e, pd(&q)), &[]),
            Err(m) => c.fail("encode-panic", || format!("panic {}", m), &[]),
        }
    }
    for w in [3u8, 4] {
        if let Ok((Ok(q), _)) = dec_tail(c, &a, w, 0) {
            if let Some(x) = has_v5(&q) {
                c.fail("v5-decoded", || format!("decoding at v{} produced {}: {}", w, x, pd(&q)), &a);
            }
        }
    }
}
pub fn c14(env: &Env) -> Check<'_> {
    let mut phases = over_sources(env, &["payload_sizes", "code_points", "u32_properties", "every_u16_property", "every_u16_field"], o_c14);
    // whatever bytes arrive, versions 3 and 4 never show v5 content
    phases.push(Phase::new("v5_bytes_at_v3_v4", env.rn(600_000, 20_000_000), |c| {
        let t = 1 + c.rng.below(15) as u8;
        let gv = if c.rng.bool() { 5 } else { 4 };
        let p = gen::legal(&mut c.rng, gv, if t == 15 { if gv == 5 { 15 } else { 14 } } else { t });
        let (mut f, _) = crate::refenc::encode(&mut c.rng, &p, gv, crate::refenc::Style::Free);
        if c.rng.pct(30) {
            f = crate::mutate::framed(&mut c.rng, &f);
        }
        c.eval(hash_bytes(&f), true);
        for w in [3u8, 4] {
            match dec_tail(c, &f, w, 0) {
                Err(m) => c.fail("decode-panic", || m.clone(), &f),
                Ok((Ok(q), _)) => {
                    c.stat("foreign frames accepted below v5", 1);
                    if let Some(x) = has_v5(&q) {
                        c.fail("v5-decoded", || format!("decoding at v{} produced {}: {}", w, x, pd(&q)), &f);
                    }
                }
                Ok((Err(_), _)) => {}
            }
            if f.len() % 4 == 0 {
                if let Ok(Ok(q)) = c.guard(|| decode_typed(&mut ByteReader::new(BufReader::new(Cursor::new(&f[..]))), w)) {
                    if let Some(x) = has_v5(&q) {
                        c.fail("v5-decoded", || format!("the packet type, decoding at v{}, produced {}: {}", w, x, pd(&q)), &f);
                    }
                }
            }
        }
    }));
    // packets that cannot be sent as they are: v5 content changes nothing about that either
    phases.push(Phase::new("unfit_below_v5", env.rn(500_000, 15_000_000), |c| {
        let mut p = if c.rng.bool() {
            gen::hostile(&mut c.rng).0
        } else {
            gen::any_legal(&mut c.rng).0
        };
        match &mut p {
            MqttPacket::Auth(_) => return,
            MqttPacket::Connect(k) if k.protocol_version == 5 => k.protocol_version = 4,
            MqttPacket::Connack(k) if c.rng.bool() => k.return_code = None,
            MqttPacket::Suback(k) if c.rng.bool() => k.granted.clear(),
            _ => {}
        }
        let outcome = |c: &mut Ctx, p: &MqttPacket, w: u8| match enc(c, p, w) {
            Ok(Ok(b)) => Some(Some(b)),
            Ok(Err(_)) => Some(None),
            Err(m) => {
                c.fail("encode-panic", || format!("panic {} for {}", m, pd(p)), &[]);
                None
            }
        };
        let (Some(a), Some(b)) = (outcome(c, &p, 3), outcome(c, &p, 4)) else { return };
        c.eval(hash_bytes(format!("{:?}", p).as_bytes()), true);
        if a != b {
            c.fail("v3-v4-differ", || format!("versions 3 and 4 treat the packet differently: {:?} vs {:?} for {}", a.as_ref().map(|x| hex(x)), b.as_ref().map(|x| hex(x)), pd(&p)), &[]);
            return;
        }
        for _ in 0..2 {
            let q = scramble_v5(c, &p);
            let w = if c.rng.bool() { 3 } else { 4 };
            let Some(x) = outcome(c, &q, w) else { return };
            if x != a {
                c.fail("v5-leak", || format!("v5-only content decides how the packet is encoded at v{}: {:?} vs {:?} for {} and {}", w, x.as_ref().map(|x| hex(x)), a.as_ref().map(|x| hex(x)), pd(&q), pd(&p)), &[]);
            } else if x.is_none() {
                c.stat("packets refused below v5 whatever their v5 content", 1);
            }
        }
    }));
    Check {
        id: "C14",
        level: "exploration",
        rule: "Packets encoded at versions 3 and 4 with and without (and with different) v5-only content, compared byte for byte; CONNECT under many version arguments in both directions; also through the packet type itself; packets that are refused below v5 must be refused whatever their v5 content; v5 frames (also damaged) decoded at 3 and 4 and inspected for v5-only content. Distinct by frame bytes.",
        assumptions: vec![],
        phases,
        need: vec!["v5 content had no effect below v5", "CONNECT under many version arguments", "AUTH refused", "foreign frames accepted below v5", "packets refused below v5 whatever their v5 content"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C16

/// sequences of repeated elements, per kind and key, in order
fn elements(p: &MqttPacket) -> HashMap<String, Vec<String>> {
    let mut m: HashMap<String, Vec<String>> = HashMap::new();
    for (pl, u) in all_user_props(p) {
        let pl = if matches!(pl, Place::Will) { "will" } else { "main" };
        for (k, v) in u {
            if !v.is_empty() {
                m.insert(format!("user/{}/{}", pl, k), v.clone());
            }
        }
    }
    match p {
        MqttPacket::Publish(c) => {
            if let Some(x) = &c.properties {
                m.insert("subids".into(), x.subscription_identifiers.iter().map(|i| i.to_string()).collect());
            }
        }
        MqttPacket::Subscribe(c) => {
            m.insert("filters".into(), c.subscriptions.iter().map(|s| format!("{:?}", s)).collect());
        }
        MqttPacket::Unsubscribe(c) => {
            m.insert("filters".into(), c.unsubscriptions.clone());
        }
        MqttPacket::Suback(c) => {
            m.insert("codes".into(), c.granted_reason_codes.iter().map(|s| format!("{:?}", s)).collect());
            m.insert("granted".into(), c.granted.iter().map(|s| format!("{:?}", s)).collect());
        }
        MqttPacket::Unsuback(c) => {
            m.insert("codes".into(), c.granted.iter().map(|s| format!("{:?}", s)).collect());
        }
        _ => {}
    }
    m.retain(|_, v| !v.is_empty());
    m
}
fn o_c16(c: &mut Ctx, p: &MqttPacket, v: u8) {
    let want = elements(&norm(p, v));
    let n: usize = want.values().map(|x| x.len()).sum();
    if n < 2 {
        return;
    }
    let Some(b) = must_encode(c, p, v) else { return };
    c.eval(hash_bytes(&b), true);
    c.stat("repeated elements sent", n as u64);
    c.stat_max("max elements in one packet", n as u64);
    c.sample(|| format!("v{} {} elements in {} sequences", v, n, want.len()));
    match refdec::decode(&b, v).packet() {
        Some(q) => {
            let got = elements(q);
            if got != want {
                c.fail("encode-elements", || diff("encoded bytes", &want, &got), &b);
            }
        }
        None => c.fail("encode-elements", || format!("the encoded frame cannot be read: {}", pd(p)), &b),
    }
    // decode both the library's own layout and a shuffled one
    let (f, w2) = crate::refenc::encode(&mut c.rng, p, v, crate::refenc::Style::Free);
    for (x, w) in [(&b, &want), (&f, &elements(&w2))] {
        match dec_tail(c, x, v, 0) {
            Err(m) => c.fail("decode-panic", || m.clone(), x),
            Ok((Ok(q), _)) => {
                let got = elements(&q);
                if got != *w {
                    c.fail("decode-elements", || diff("decoded packet", w, &got), x);
                } else {
                    c.stat("repeated elements received in order", n as u64);
                }
            }
            Ok((Err(e), _)) => c.fail("decode-elements", || format!("frame with {} elements refused: {}", n, e), x),
        }
    }
}
fn diff(what: &str, want: &HashMap<String, Vec<String>>, got: &HashMap<String, Vec<String>>) -> String {
    for (k, v) in want {
        match got.get(k) {
            None => return format!("{}: sequence {} lost", what, short(k, 80)),
            Some(g) if g != v => {
                let i = v.iter().zip(g).position(|(a, b)| a != b).unwrap_or(v.len().min(g.len()));
                return format!("{}: sequence {} differs at element {} ({} sent, {} seen): {:?} vs {:?}", what, short(k, 80), i, v.len(), g.len(), v.get(i), g.get(i));
            }
            _ => {}
        }
    }
    format!("{}: extra sequences {:?}", what, got.keys().filter(|k| !want.contains_key(*k)).map(|k| short(k, 60)).collect::<Vec<_>>())
}
/// packets made of repeated elements with few keys and many equal values
fn repeats(c: &mut Ctx) {
    let r = &mut c.rng;
    let v = if r.pct(80) { 5 } else { gen::version(r) };
    let n = match r.below(20) {
        0..=13 => r.range(2, 12),
        14..=18 => r.range(13, 120),
        _ => r.range(121, 2000),
    };
    let place = PLACES[r.us(14)];
    let nk = r.range(1, 6);
    let keys: Vec<String> = (0..nk).map(|i| match r.below(4) { 0 => String::new(), 1 => format!("k{}", i), 2 => gen::text_n(r, 3), _ => "k".into() }).collect();
    let vals = ["", "a", "b", "aa", "k"];
    let mut l: Vec<(u8, Val)> = (0..n).map(|_| (0x26, Val::Pair(r.pick(&keys).clone(), r.pick(&vals).to_string()))).collect();
    if place == Place::Publish {
        for _ in 0..r.range(0, n) {
            let at = r.us(l.len() + 1);
            let x = if r.bool() { r.range(1, 3) as u32 } else { gen::subid(r) };
            l.insert(at, (0x0B, Val::Var(x)));
        }
    }
    let mut p = base_with(place, &l);
    let fs = ["a", "b", "a/b", "#", "+"];
    match &mut p {
        MqttPacket::Subscribe(k) => {
            k.subscriptions = (0..n)
                .map(|_| Subscription { topic: r.pick(&fs).to_string(), qos: r.pick(QOS).1.clone(), nl: r.bool(), rap: r.bool(), rh: Some(r.below(3) as u8) })
                .collect()
        }
        MqttPacket::Unsubscribe(k) => k.unsubscriptions = (0..n).map(|_| r.pick(&fs).to_string()).collect(),
        MqttPacket::Suback(k) => {
            k.granted_reason_codes = (0..n).map(|_| r.pick(SUBACK_CODES).1.clone()).collect();
            k.granted = (0..n).map(|_| r.pick(GRANTED).1.clone()).collect();
        }
        MqttPacket::Unsuback(k) => k.granted = (0..n).map(|_| r.pick(UNSUBACK_CODES).1.clone()).collect(),
        MqttPacket::Connect(k) => {
            // user properties in both blocks, same keys, different values
            if k.will.is_none() {
                k.will = Some(LastWill { topic: Some("w".into()), payload: Some("".into()), qos: 0, retain: false, properties: None });
            }
            let l2: Vec<(u8, Val)> = (0..r.range(0, 8)).map(|_| (0x26, Val::Pair(r.pick(&keys).clone(), r.pick(&vals).to_string()))).collect();
            if place == Place::Connect && !l2.is_empty() {
                k.will.as_mut().unwrap().properties = Some(WillProperties::from_list(&l2));
            } else if !l2.is_empty() {
                k.properties = Some(ConnectProperties::from_list(&l2));
            }
        }
        _ => {}
    }
    let v = match &p {
        MqttPacket::Auth(_) => 5,
        MqttPacket::Connect(_) => 5,
        _ => v,
    };
    o_c16(c, &p, v);
}
pub fn c16(env: &Env) -> Check<'_> {
    let mut phases = over_sources(env, &["payload_sizes", "every_u16_field", "every_u16_property", "u32_properties", "code_points", "field_lengths", "property_text_lengths"], o_c16);
    phases.push(Phase::new("repeats", env.rn(400_000, 15_000_000), repeats));
    Check {
        id: "C16",
        level: "exploration",
        rule: "Packets with at least two repeated elements (user properties, subscription identifiers, filters, codes), few keys, equal values, counts up to 70000; sequences per key compared in the encoded bytes (independent reader) and in the decoded packet, for the library's layout and a shuffled layout. Distinct by encoded bytes.",
        assumptions: vec!["order between different user property keys is not representable in the crate's map type and not judged"],
        phases,
        need: vec!["repeated elements sent", "repeated elements received in order"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C20

/// encode through the individual packet type, without touching the enum's own entry point
pub fn encode_ref(p: &MqttPacket, v: u8) -> Res<Vec<u8>> {
    match p {
        MqttPacket::Connect(k) => k.encode(v),
        MqttPacket::Connack(k) => k.encode(v),
        MqttPacket::Publish(k) => k.encode(v),
        MqttPacket::Puback(k) | MqttPacket::Pubrec(k) | MqttPacket::Pubrel(k) | MqttPacket::Pubcomp(k) => k.encode(v),
        MqttPacket::Subscribe(k) => k.encode(v),
        MqttPacket::Suback(k) => k.encode(v),
        MqttPacket::Unsubscribe(k) => k.encode(v),
        MqttPacket::Unsuback(k) => k.encode(v),
        MqttPacket::Pingreq => PingreqPacket {}.encode(v),
        MqttPacket::Pingresp => PingrespPacket {}.encode(v),
        MqttPacket::Disconnect(k) => k.encode(v),
        MqttPacket::Auth(k) => k.encode(v),
    }
}
fn enc_inner(c: &mut Ctx, p: &MqttPacket, v: u8) -> Result<Res<Vec<u8>>, String> {
    c.guard(|| encode_ref(p, v))
}
fn dec_inner(b: &[u8], v: u8) -> Res<MqttPacket> {
    decode_typed(&mut ByteReader::new(BufReader::new(Cursor::new(b))), v)
}
/// decode through the individual packet type, without the decoder
pub fn decode_typed<R: std::io::Read>(rd: &mut ByteReader<R>, v: u8) -> Res<MqttPacket> {
    let (len, fh) = rd.read_header()?;
    Ok(match fh.cmd {
        PacketType::Connect => MqttPacket::Connect(ConnectPacket::decode(rd, fh, len, v)?),
        PacketType::Connack => MqttPacket::Connack(ConnackPacket::decode(rd, fh, len, v)?),
        PacketType::Publish => MqttPacket::Publish(PublishPacket::decode(rd, fh, len, v)?),
        PacketType::Puback => MqttPacket::Puback(ConfirmationPacket::decode(rd, fh, len, v)?),
        PacketType::Pubrec => MqttPacket::Pubrec(ConfirmationPacket::decode(rd, fh, len, v)?),
        PacketType::Pubrel => MqttPacket::Pubrel(ConfirmationPacket::decode(rd, fh, len, v)?),
        PacketType::Pubcomp => MqttPacket::Pubcomp(ConfirmationPacket::decode(rd, fh, len, v)?),
        PacketType::Subscribe => MqttPacket::Subscribe(SubscribePacket::decode(rd, fh, len, v)?),
        PacketType::Suback => MqttPacket::Suback(SubackPacket::decode(rd, fh, len, v)?),
        PacketType::Unsubscribe => MqttPacket::Unsubscribe(UnsubscribePacket::decode(rd, fh, len, v)?),
        PacketType::Unsuback => MqttPacket::Unsuback(UnsubackPacket::decode(rd, fh, len, v)?),
        PacketType::Pingreq => {
            PingreqPacket::decode(rd, fh, len, v)?;
            MqttPacket::Pingreq
        }
        PacketType::Pingresp => {
            PingrespPacket::decode(rd, fh, len, v)?;
            MqttPacket::Pingresp
        }
        PacketType::Disconnect => MqttPacket::Disconnect(DisconnectPacket::decode(rd, fh, len, v)?),
        PacketType::Auth => MqttPacket::Auth(AuthPacket::decode(rd, fh, len, v)?),
        PacketType::Reserved => return Err("reserved".into()),
    })
}

fn agree_enc(c: &mut Ctx, p: &MqttPacket, v: u8) -> Option<Vec<u8>> {
    // a confirmation wrapped in the wrong variant has no individual type to agree with
    let cmd_ok = match p {
        MqttPacket::Puback(k) => k.cmd == PacketType::Puback,
        MqttPacket::Pubrec(k) => k.cmd == PacketType::Pubrec,
        MqttPacket::Pubrel(k) => k.cmd == PacketType::Pubrel,
        MqttPacket::Pubcomp(k) => k.cmd == PacketType::Pubcomp,
        _ => true,
    };
    if !cmd_ok {
        return None;
    }
    let a = enc(c, p, v);
    let b = enc_inner(c, p, v);
    c.stat("encodings compared", 1);
    match (a, b) {
        (Ok(Ok(a)), Ok(Ok(b))) => {
            let same = a == b || (a.len() == b.len() && refdec::decode(&a, v).packet().is_some() && refdec::decode(&a, v).packet() == refdec::decode(&b, v).packet());
            if !same {
                c.fail("encode-disagree", || format!("enum and type encode differently at v{}: {} vs {}", v, hex(&a), hex(&b)), &a);
            }
            Some(a)
        }
        (Ok(Err(_)), Ok(Err(_))) | (Err(_), Err(_)) => None,
        (a, b) => {
            c.fail("encode-disagree", || format!("enum and type disagree at v{}: {:?} vs {:?} for {}", v, a.map(|x| x.map(|y| hex(&y))), b.map(|x| x.map(|y| hex(&y))), pd(p)), &[]);
            None
        }
    }
}
fn agree_dec(c: &mut Ctx, f: &[u8], v: u8) {
    let (pre, fill, cap, chunk) = (c.rng.us(20), c.rng.bool(), if c.rng.below(400) == 0 { super::streams::big_capacity(&mut c.rng) } else { *c.rng.pick(&[1usize, 2, 3, 7, 64, 512, 8192]) }, 1 + c.rng.us(64));
    if cap > 1_000_000 {
        c.stat("buffers of megabytes in use", 1);
    }
    let r = c.guard(|| {
        let a = PacketDecoder::from_stream(Cursor::new(f)).decode_packet(v);
        let b = PacketDecoder::from_bufreader(BufReader::new(Cursor::new(f))).decode_packet(v);
        let d = PacketDecoder::new(ByteReader::new(BufReader::new(Cursor::new(f)))).decode_packet(v);
        let e = PacketDecoder::from_bufreader(BufReader::with_capacity(3, Cursor::new(f))).decode_packet(v);
        let i = dec_inner(f, v);
        // a reader that has been used before: bytes wait in its buffer
        let mut used = vec![0xe0u8; pre];
        used.extend_from_slice(f);
        fn used_reader(src: Stream<'_>, cap: usize, pre: usize, fill: bool) -> BufReader<Stream<'_>> {
            let mut rd = BufReader::with_capacity(cap, src);
            let _ = rd.fill_buf();
            let mut skip = vec![0; pre];
            rd.read_exact(&mut skip).expect("own stream");
            if fill {
                let _ = rd.fill_buf();
            }
            rd
        }
        let j = PacketDecoder::from_bufreader(used_reader(Stream::new(&used), cap, pre, fill)).decode_packet(v);
        let k = PacketDecoder::new(ByteReader::new(used_reader(Stream::new(&used).chunks(Chunks::Fixed(chunk)), cap, pre, fill))).decode_packet(v);
        // and a decoder that looks for more data first
        let mut d2 = PacketDecoder::from_bufreader(used_reader(Stream::new(&used), cap, pre, fill));
        let l = (d2.has_more(), d2.decode_packet(v), d2.has_more(), d2.decode_packet(v));
        let mut d3 = PacketDecoder::from_stream(Stream::new(f));
        let m = (d3.has_more(), d3.decode_packet(v), d3.has_more(), d3.decode_packet(v));
        (a, b, d, e, i, j, k, l, m)
    });
    if c.rng.pct(15) {
        reader_in_use(c, f, v);
    }
    c.stat("decodings compared", 1);
    match r {
        Err(m) => c.fail("decode-panic", || m.clone(), f),
        Ok((a, b, d, e, i, j, k, l, m)) => {
            c.stat("decoders built on a buffered reader in use", 3);
            if (l.0, l.2) != (m.0, m.2) || !same(&l.1, &m.1) || !same(&l.3, &m.3) {
                c.fail("decode-disagree", || format!("from_bufreader on a used reader ({} bytes read before, capacity {}) and from_stream go on differently at v{}: {} {} {} {} vs {} {} {} {}", pre, cap, v, l.0, show(&l.1), l.2, show(&l.3), m.0, show(&m.1), m.2, show(&m.3)), f);
            }
            for (n, x) in [("from_bufreader", &b), ("new", &d), ("small buffer", &e), ("packet type", &i), ("from_bufreader on a used reader", &j), ("new on a used reader", &k)] {
                if !same(&a, x) {
                    c.fail("decode-disagree", || format!("from_stream and {} disagree at v{}: {} vs {}", n, v, show(&a), show(x)), f);
                }
            }
        }
    }
}
/// a byte reader with limits in force and bytes read, wrapped into a decoder: new() changes nothing about it
fn reader_in_use(c: &mut Ctx, f: &[u8], v: u8) {
    let pre = c.rng.us(6);
    let mut data = vec![0x11u8; pre];
    data.extend_from_slice(f);
    data.extend_from_slice(&[0xc0, 0, 0xd0, 0, 7, 8, 9]);
    let n = data.len();
    let cap = if c.rng.below(400) == 0 { super::streams::big_capacity(&mut c.rng) } else { *c.rng.pick(&[1usize, 2, 3, 7, 64, 8192]) };
    let limits: Vec<u32> = (0..c.rng.us(4))
        .map(|_| match c.rng.below(5) {
            0 => (pre + f.len()) as u32,
            1 => (n - 3) as u32,
            2 => c.rng.us(n + 1) as u32,
            3 => (pre + f.len()).saturating_sub(1) as u32,
            _ => u32::MAX,
        })
        .collect();
    let given = c.rng.us(limits.len() + 1);
    let (calls, early) = (1 + c.rng.us(3), c.rng.bool());
    let make = || {
        let mut rd = ByteReader::new(BufReader::with_capacity(cap, Stream::new(&data)));
        for l in &limits {
            rd.take(*l);
        }
        let first = rd.read_len(pre as u32).ok();
        for _ in given..limits.len() {
            rd.reset_limit();
        }
        if early {
            rd.has_more();
        }
        (rd, first)
    };
    let run = |mut d: PacketDecoder<Stream>| {
        let mut o = vec![];
        for _ in 0..calls {
            o.push((d.has_more(), d.decode_packet(v)));
        }
        // what is left of each limit
        let mut left = vec![];
        for _ in 0..given + 1 {
            left.push((d.has_more(), d.reader.read_u8().ok(), d.reader.consume().ok()));
            d.reader.reset_limit();
        }
        (o, left, rest_bytes(&mut d.reader))
    };
    let r = c.guard(|| {
        let (a, b) = (make(), make());
        (a.1 == b.1, run(PacketDecoder::new(a.0)), run(PacketDecoder { reader: b.0 }))
    });
    match r {
        Err(m) => c.stat(if m.is_empty() { "panics" } else { "panics of readers in use, see C08" }, 1),
        Ok((s, (a, al, ar), (b, bl, br))) => {
            c.stat("decoders built on a byte reader in use", 1);
            if !s || al != bl || ar != br || a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| x.0 != y.0 || !same(&x.1, &y.1)) {
                let sh = |l: &[(bool, Res<MqttPacket>)]| l.iter().map(|(m, r)| format!("{} {}", m, show(r))).collect::<Vec<_>>().join("; ");
                c.fail("new-disagree", || format!("a reader with limits {:?} of which {} are in force, {} bytes read: through new() at v{} {} then {:?}, the same reader otherwise {} then {:?}", limits, given, pre, v, sh(&a), al, sh(&b), bl), f);
            }
        }
    }
}
fn rest_bytes<R: Read>(rd: &mut ByteReader<R>) -> Vec<u8> {
    let mut o = vec![];
    while let Ok(b) = rd.read_u8() {
        o.push(b);
        if o.len() > 64 {
            break;
        }
    }
    o
}
fn o_c20(c: &mut Ctx, p: &MqttPacket, v: u8) {
    if let Some(b) = agree_enc(c, p, v) {
        note(c, p, v, &b);
        agree_dec(c, &b, v);
    }
}

/// constructors given more than a frame or a field can hold: they build, the encoder judges
fn constructors_large(c: &mut Ctx) {
    let id = c.rng.next() as u16 | 1;
    let n = *c.rng.pick(&[0usize, 127, 128, 255, 256, 257, 1000, 16_384, 32_768, 65_535, 65_536, 65_537, 70_001, 300_000]) + if c.rng.bool() { 0 } else { c.rng.us(40) };
    let r = &mut c.rng;
    let granted: Vec<Granted> = (0..n).map(|_| r.pick(GRANTED).1.clone()).collect();
    let mut u: UserProperties = Default::default();
    let keys = *r.pick(&[0usize, 1, 100, 70_000]).min(&n.max(1));
    for k in 0..keys {
        u.insert(format!("key {}", k), vec![format!("value {}", k % 7)]);
    }
    u.insert("many".into(), (0..n.min(70_000)).map(|k| format!("{}", k % 9)).collect());
    let text = if r.bool() { Some("é".repeat(n / 2)) } else { None };
    let props = Some(ConfirmationProperties { reason_string: text, user_properties: u });
    let a = PUBACK_CODES[r.us(PUBACK_CODES.len())].1.clone();
    let k = PUBREL_CODES[r.us(2)].1.clone();
    c.eval(crate::rng::mix(n as u64 ^ (id as u64) << 32), true);
    c.stat("constructors given long lists", 1);
    c.sample(|| format!("id {} with {} codes, {} keys", id, n, keys));
    let (ac, kc, pc, gc) = (a.clone(), k.clone(), props.clone(), granted.clone());
    let r = c.guard(move || {
        (
            SubackPacket::new_v3(id, gc),
            [
                ConfirmationPacket::puback_v5(id, ac.clone(), pc.clone()),
                ConfirmationPacket::pubrec_v5(id, ac, pc.clone()),
                ConfirmationPacket::pubrel_v5(id, kc.clone(), pc.clone()),
                ConfirmationPacket::pubcomp_v5(id, kc, pc),
            ],
        )
    });
    let Ok((sb, cs)) = r else { return c.fail("constructor-panic", || format!("constructor panicked for id {} and {} elements", id, n), &[]) };
    let w = SubackPacket { reason_code: None, granted, granted_reason_codes: vec![], message_id: id, properties: None };
    if sb != w {
        c.fail("constructor", || format!("SubackPacket::new_v3 with {} codes built one with {} codes, id {}", n, sb.granted.len(), sb.message_id), &[]);
    }
    for (j, x) in cs.iter().enumerate() {
        let t = [PacketType::Puback, PacketType::Pubrec, PacketType::Pubrel, PacketType::Pubcomp][j];
        let (pa, pk) = if j < 2 { (Some(a.clone()), None) } else { (None, Some(k.clone())) };
        if *x != (ConfirmationPacket { cmd: t, message_id: id, puback_reason_code: pa, pubcomp_reason_code: pk, properties: props.clone() }) {
            c.fail("constructor", || format!("{:?} with {} elements in its properties is not built as given", t, n), &[]);
        }
    }
    // and what the first one says is what the frame holds
    if n > 0 {
        let v = *c.rng.pick(&[3u8, 4]);
        match c.guard(move || sb.encode(v)) {
            Ok(Ok(b)) if refdec::decode(&b, v).packet() == Some(&MqttPacket::Suback(w.clone())) => {}
            Ok(o) => c.fail("constructor-frame", || format!("SUBACK new_v3 with {} codes encodes to {:?} bytes that do not hold them", n, o.map(|b| b.len())), &[]),
            Err(m) => c.fail("constructor-encode", || m, &[]),
        }
    }
}
/// expected packet of each convenience constructor, written by hand
fn constructors(c: &mut Ctx) {
    let i = c.idx;
    let id = (i % 65536) as u16;
    let r = &mut c.rng;
    let props = if r.bool() { None } else { Some(ConfirmationProperties { reason_string: if r.bool() { Some(gen::text(r)) } else { None }, user_properties: gen::user_map(r) }) };
    let a = PUBACK_CODES[r.us(PUBACK_CODES.len())].1.clone();
    let k = PUBREL_CODES[r.us(2)].1.clone();
    let granted: Vec<Granted> = (0..1 + r.us(5)).map(|_| r.pick(GRANTED).1.clone()).collect();
    let mk = |cmd, x: Option<PubackPubrecCode>, y: Option<PubcompPubrelCode>, p: &Option<ConfirmationProperties>| ConfirmationPacket {
        cmd,
        message_id: id,
        puback_reason_code: x,
        pubcomp_reason_code: y,
        properties: p.clone(),
    };
    let (ac, kc) = (a.clone(), k.clone());
    let pc = props.clone();
    let gc = granted.clone();
    let built = c.guard(move || {
        (
            [
                ConfirmationPacket::puback_v3(id),
                ConfirmationPacket::pubrec_v3(id),
                ConfirmationPacket::pubrel_v3(id),
                ConfirmationPacket::pubcomp_v3(id),
                ConfirmationPacket::puback_v5(id, ac.clone(), pc.clone()),
                ConfirmationPacket::pubrec_v5(id, ac, pc.clone()),
                ConfirmationPacket::pubrel_v5(id, kc.clone(), pc.clone()),
                ConfirmationPacket::pubcomp_v5(id, kc, pc),
            ],
            SubackPacket::new_v3(id, gc),
        )
    });
    let Ok((built, sb)) = built else {
        c.fail("constructor-panic", || format!("constructor panicked for id {}", id), &[]);
        return;
    };
    let want = [
        mk(PacketType::Puback, None, None, &None),
        mk(PacketType::Pubrec, None, None, &None),
        mk(PacketType::Pubrel, None, None, &None),
        mk(PacketType::Pubcomp, None, None, &None),
        mk(PacketType::Puback, Some(a.clone()), None, &props),
        mk(PacketType::Pubrec, Some(a), None, &props),
        mk(PacketType::Pubrel, None, Some(k.clone()), &props),
        mk(PacketType::Pubcomp, None, Some(k), &props),
    ];
    let names = ["puback_v3", "pubrec_v3", "pubrel_v3", "pubcomp_v3", "puback_v5", "pubrec_v5", "pubrel_v5", "pubcomp_v5"];
    for j in 0..8 {
        if built[j] != want[j] {
            c.fail("constructor", || format!("{} built {:?}, expected {:?}", names[j], built[j], want[j]), &[]);
        }
        let v = if j < 4 { [3, 4][(i % 2) as usize] } else { 5 };
        let t = 4 + (j % 4) as u8;
        let x = built[j].clone();
        match c.guard(move || x.encode(v)) {
            Ok(Ok(b)) => {
                c.eval(hash_bytes(&b) ^ v as u64, true);
                c.stat("constructed packets encoded", 1);
                if b[0] != t << 4 | fixed_flags(t) {
                    c.fail("constructor-type", || format!("{} encodes with first byte {:#04x}", names[j], b[0]), &b);
                }
                if id != 0 {
                    let w = norm(&gen::wrap_conf(t, want[j].clone()), v);
                    if refdec::decode(&b, v).packet() != Some(&w) {
                        c.fail("constructor-frame", || format!("{} encodes to a frame that does not hold {:?}", names[j], want[j]), &b);
                    }
                }
            }
            o => c.fail("constructor-encode", || format!("{} cannot be encoded at v{}: {:?}", names[j], v, o.map(|x| x.map(|_| ()))), &[]),
        }
    }
    let w = SubackPacket { reason_code: None, message_id: id, properties: None, granted_reason_codes: vec![], granted: granted.clone() };
    if sb != w {
        c.fail("constructor", || format!("SubackPacket::new_v3 built {:?}, expected {:?}", sb, w), &[]);
    }
    let v = [3, 4][(i % 2) as usize];
    match c.guard(move || sb.encode(v)) {
        Ok(Ok(b)) => {
            let mut e = vec![0x90, (2 + granted.len()) as u8, (id >> 8) as u8, id as u8];
            e.extend(granted.iter().map(|g| by_val(GRANTED, g)));
            if b != e {
                c.fail("constructor-frame", || format!("SUBACK new_v3 encodes to {}", hex(&b)), &b);
            }
        }
        o => c.fail("constructor-encode", || format!("SubackPacket::new_v3 cannot be encoded: {:?}", o.map(|x| x.map(|_| ()))), &[]),
    }
}
fn defaults(c: &mut Ctx) {
    c.stat("default values checked", 1);
    c.eval(0, true);
    let r = c.guard(|| (ConnectProperties::default(), ConnackProperties::default(), WillProperties::default(), ConnackPacket::default()));
    let Ok((a, b, w, k)) = r else {
        c.fail("default-panic", || "panic".into(), &[]);
        return;
    };
    if a != ConnectProperties::from_list(&[]) {
        c.fail("default", || format!("ConnectProperties::default() is {:?}", a), &[]);
    }
    let mut e = ConnackProperties::from_list(&[]);
    e.is_default = true;
    if b != e {
        c.fail("default", || format!("ConnackProperties::default() is {:?}, MQTT says {:?}", b, e), &[]);
    }
    if w != WillProperties::from_list(&[]) {
        c.fail("default", || format!("WillProperties::default() is {:?}", w), &[]);
    }
    if k != (ConnackPacket { return_code: None, reason_code: None, session_present: false, properties: None }) {
        c.fail("default", || format!("ConnackPacket::default() is {:?}", k), &[]);
    }
}
pub fn c20(env: &Env) -> Check<'_> {
    let mut phases = over_sources(env, &["payload_sizes", "code_points", "u32_properties", "every_u16_property", "every_u16_field", "element_counts"], o_c20);
    phases.push(Phase::new("hostile", env.rn(300_000, 10_000_000), |c| {
        let (p, v) = gen::hostile(&mut c.rng);
        if let Some(b) = agree_enc(c, &p, v) {
            c.eval(hash_bytes(&b), true);
        }
    }));
    phases.push(Phase::new("damaged_frames", env.rn(500_000, 20_000_000), |c| {
        let (p, v) = gen::any_legal(&mut c.rng);
        let (f, _) = crate::refenc::encode(&mut c.rng, &p, v, crate::refenc::Style::Free);
        let f = crate::mutate::framed(&mut c.rng, &f);
        c.eval(hash_bytes(&f) ^ v as u64, true);
        agree_dec(c, &f, v);
    }));
    phases.push(Phase::new("constructors", 65536 * 2, constructors));
    phases.push(Phase::new("constructors_large", env.n(200, 8_000), constructors_large).batch(4));
    phases.push(Phase::new("defaults", 1, defaults));
    Check {
        id: "C20",
        level: "exploration",
        rule: "Legal and hostile packets encoded through the enum and through their own type; legal and damaged frames decoded through all constructors of the decoder (also on buffered readers already in use and on byte readers with limits in force) and through read_header plus the packet type; every message id through every convenience constructor, compared with hand-written expectations. Distinct by frame bytes.",
        assumptions: vec![],
        phases,
        need: vec!["encodings compared", "decodings compared", "constructed packets encoded", "constructors given long lists", "default values checked", "decoders built on a buffered reader in use", "decoders built on a byte reader in use"],
        exhaustive: false,
    }
}
