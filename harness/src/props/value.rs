//! C24: comparison and cloning of packets. C25: the codec touches nothing but its arguments.
use super::codec::{decode_typed, encode_ref};
use super::prims::{random_ops, run_ops};
use super::streams::{any_frame, same_frame, types_of};
use super::*;
use crate::canon::{only_difference, Canon, Flat};
use crate::io::{Chunks, Fault, Stream};
use crate::rng::{hash_bytes, Rng};
use crate::run::{hex, Phase};
use crate::spec::*;
use crate::{gen, mutate, touch};
use mqtt_packet_3_5::connect::ConnectFlags;
use std::collections::BTreeSet;
use std::io::ErrorKind;
use std::sync::Mutex;

// ------------------------------------------------------------------ C24

static FIELDS: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
static APART: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());

fn hash_flat(f: &Flat) -> u64 {
    f.iter().fold(7, |a: u64, (p, v)| a.rotate_left(9).wrapping_mul(31) ^ hash_bytes(p.as_bytes()) ^ hash_bytes(v).rotate_left(17))
}
/// both directions of one comparison against the contents
fn compare(c: &mut Ctx, a: &MqttPacket, b: &MqttPacket) -> bool {
    let (x, y) = (a.flat(), b.flat());
    let want = x == y;
    let got = c.guard(|| (a == b, b == a, a != b));
    c.eval(hash_flat(&x).rotate_left(1) ^ hash_flat(&y), true);
    c.stat(if want { "equal pairs compared" } else { "different pairs compared" }, 1);
    if !want {
        if let Some(p) = only_difference(&x, &y) {
            let mut s = APART.lock().unwrap();
            if !s.contains(&p) {
                s.insert(p);
                let n = s.len() as u64;
                drop(s);
                c.stat_max("max fields seen as the only difference", n);
            }
            c.stat("pairs that differ in one field only", 1);
        }
    }
    match got {
        Err(m) => c.fail("compare-panic", || format!("comparing {} with {} panicked: {}", pd(a), pd(b), m), &[]),
        Ok(g) if g != (want, want, !want) => {
            let at = x.iter().zip(&y).find(|(p, q)| p != q).map(|(p, _)| p.0.clone()).unwrap_or_default();
            c.fail("compare", || format!("{} == {} is {:?} (both ways, and negated), but their contents are {} {}", pd(a), pd(b), g, if want { "the same" } else { "different at" }, at), &[])
        }
        _ => {}
    }
    want
}
/// a packet made twice from the same random draws, except for one of them
fn near_pairs(c: &mut Ctx) {
    let start = Rng::new(c.rng.next());
    let make = |r: &mut Rng, style: u64, v: u8, t: u8| match style {
        0..=5 => gen::legal(r, v, t),
        _ => gen::hostile(r).0,
    };
    let v = gen::version(&mut c.rng);
    let t = 1 + c.rng.below(types_of(v)) as u8;
    let style = c.rng.below(8);
    let far = 1 << 40;
    let mut r = start.twisted(far);
    let a = make(&mut r, style, v, t);
    let draws = far - r.until_twist();
    let fa = a.flat();
    {
        let mut f = FIELDS.lock().unwrap();
        for (p, _) in &fa {
            if !f.contains(p) {
                f.insert(p.clone());
            }
        }
    }
    c.sample(|| format!("v{} {} and its variations", v, pd(&a)));
    compare(c, &a, &make(&mut start.clone(), style, v, t));
    for _ in 0..6 {
        let k = 1 + c.rng.below(draws.max(1));
        let b = make(&mut start.twisted(k), style, v, t);
        compare(c, &a, &b);
    }
    // one field changed on purpose
    for _ in 0..2 {
        let mut b = a.clone();
        gen::spoil(&mut c.rng, &mut b);
        compare(c, &a, &b);
    }
    let mut b = a.clone();
    if poke(&mut c.rng, &mut b) {
        compare(c, &a, &b);
    }
}
/// change something that the generators always make the same way
fn poke(r: &mut Rng, p: &mut MqttPacket) -> bool {
    fn user(r: &mut Rng, u: &mut UserProperties) -> bool {
        let mut ks: Vec<String> = u.keys().cloned().collect();
        ks.sort();
        if ks.is_empty() {
            u.insert("k".into(), vec!["v".into()]);
            return true;
        }
        let k = r.pick(&ks).clone();
        match r.below(4) {
            0 => {
                let l = u.get_mut(&k).unwrap();
                l.reverse();
            }
            1 => u.get_mut(&k).unwrap().push("v".into()),
            2 => {
                u.get_mut(&k).unwrap().pop();
            }
            _ => {
                let l = u.remove(&k).unwrap();
                u.insert(format!("{}x", k), l);
            }
        }
        true
    }
    fn text(r: &mut Rng, s: &mut String) -> bool {
        *s = match r.below(5) {
            0 if s.to_uppercase() != *s => s.to_uppercase(),
            1 if s.to_lowercase() != *s => s.to_lowercase(),
            2 => format!("{} ", s),
            3 => format!("{}\0", s),
            _ => s.chars().rev().collect(),
        };
        true
    }
    // one optional property more or less
    fn toggle(r: &mut Rng, o: [&mut Option<String>; 2], n: &mut Option<u32>) -> bool {
        let [a, b] = o;
        match r.below(3) {
            0 => *n = if n.is_some() { None } else { Some(0) },
            1 => *a = if a.is_some() { None } else { Some(String::new()) },
            _ => *b = if b.is_some() { None } else { Some(String::new()) },
        }
        true
    }
    match p {
        MqttPacket::Connect(ConnectPacket { will: Some(LastWill { properties: Some(q), .. }), .. }) if r.pct(30) => {
            toggle(r, [&mut q.content_type, &mut q.response_topic], &mut q.message_expiry_interval)
        }
        MqttPacket::Publish(PublishPacket { properties: Some(q), .. }) if r.pct(30) => {
            if r.pct(30) {
                q.topic_alias = if q.topic_alias.is_some() { None } else { Some(0) };
                return true;
            }
            toggle(r, [&mut q.content_type, &mut q.response_topic], &mut q.message_expiry_interval)
        }
        MqttPacket::Connect(c) => match (r.below(5), c.properties.as_mut(), c.will.as_mut()) {
            (0, Some(q), _) => user(r, &mut q.user_properties),
            (1, _, Some(LastWill { properties: Some(q), .. })) => user(r, &mut q.user_properties),
            (2, _, Some(LastWill { topic: Some(t), .. })) => text(r, t),
            (3, _, Some(w)) => {
                w.retain = !w.retain;
                true
            }
            _ => text(r, &mut c.client_id),
        },
        MqttPacket::Connack(c) => match (r.below(4), c.properties.as_mut()) {
            (0, Some(q)) => user(r, &mut q.user_properties),
            (1, Some(q)) => {
                q.is_default = !q.is_default;
                true
            }
            (2, _) => {
                c.return_code = Some(c.return_code.map_or(0, |x| x ^ 1));
                true
            }
            _ => {
                c.session_present = !c.session_present;
                true
            }
        },
        MqttPacket::Subscribe(s) => match (r.below(4), s.properties.as_mut(), s.subscriptions.len()) {
            (0, Some(q), _) => user(r, &mut q.user_properties),
            (1, _, n) if n > 1 => {
                s.subscriptions.swap(0, n - 1);
                true
            }
            (2, _, _) => {
                s.qos ^= 1;
                true
            }
            (_, _, n) if n > 0 => {
                let k = r.us(n);
                text(r, &mut s.subscriptions[k].topic)
            }
            _ => false,
        },
        MqttPacket::Suback(s) => match (r.below(4), s.properties.as_mut()) {
            (0, Some(q)) => user(r, &mut q.user_properties),
            (1, _) => {
                s.granted.reverse();
                s.granted_reason_codes.reverse();
                true
            }
            (2, _) => {
                s.reason_code = Some(s.reason_code.map_or(0, |x| x ^ 1));
                true
            }
            _ => {
                s.granted.push(Granted::QoS0);
                true
            }
        },
        MqttPacket::Publish(s) => match (r.below(5), s.properties.as_mut()) {
            (0, Some(q)) => user(r, &mut q.user_properties),
            (1, Some(q)) => {
                q.subscription_identifiers.reverse();
                true
            }
            (2, Some(q)) => {
                q.correlation_data.push(0);
                true
            }
            (3, _) => {
                s.payload.push(0);
                true
            }
            _ => text(r, &mut s.topic),
        },
        MqttPacket::Puback(s) | MqttPacket::Pubrec(s) | MqttPacket::Pubrel(s) | MqttPacket::Pubcomp(s) => match (r.below(3), s.properties.as_mut()) {
            (0, Some(q)) => user(r, &mut q.user_properties),
            (1, _) => {
                s.cmd = if s.cmd == PacketType::Pubrel { PacketType::Pubcomp } else { PacketType::Pubrel };
                true
            }
            _ => {
                s.puback_reason_code = match s.puback_reason_code {
                    None => Some(PubackPubrecCode::Success),
                    Some(_) => None,
                };
                true
            }
        },
        MqttPacket::Unsubscribe(s) => match (r.below(3), s.properties.as_mut()) {
            (0, Some(q)) => user(r, &mut q.user_properties),
            (1, _) => {
                s.qos ^= 1;
                true
            }
            _ => {
                s.unsubscriptions.reverse();
                true
            }
        },
        MqttPacket::Unsuback(s) => match (r.below(2), s.properties.as_mut()) {
            (0, Some(q)) => user(r, &mut q.user_properties),
            _ => {
                s.granted.reverse();
                true
            }
        },
        MqttPacket::Disconnect(d) => d.properties.as_mut().map_or(false, |q| user(r, &mut q.user_properties)),
        MqttPacket::Auth(d) => d.properties.as_mut().map_or(false, |q| if r.bool() { user(r, &mut q.user_properties) } else { text(r, &mut q.authentication_method) }),
        _ => false,
    }
}
/// the packet with each optional part absent, and present but empty, zero or default
fn options(p: &MqttPacket) -> Vec<[MqttPacket; 2]> {
    let mut out = vec![];
    macro_rules! opt {
        ($k:ident, $d:expr, |$x:ident| $f:expr) => {{
            let (mut a, mut b) = (p.clone(), p.clone());
            let mut hit = false;
            if let (MqttPacket::$k(y), MqttPacket::$k(z)) = (&mut a, &mut b) {
                let mut n = {
                    let $x = y;
                    $f
                };
                if let Some(n) = n.as_mut() {
                    **n = None;
                    hit = true;
                }
                let mut n = {
                    let $x = z;
                    $f
                };
                if let Some(n) = n.as_mut() {
                    **n = Some($d);
                }
            }
            if hit {
                out.push([a, b]);
            }
        }};
    }
    macro_rules! texts {
        ($k:ident: $($f:ident)*) => { $(opt!($k, String::new(), |x| x.properties.as_mut().map(|q| &mut q.$f));)* };
    }
    macro_rules! acks {
        ($($k:ident)*) => { $(
            texts!($k: reason_string);
            opt!($k, PubackPubrecCode::Success, |x| Some(&mut x.puback_reason_code));
            opt!($k, PubcompPubrelCode::Success, |x| Some(&mut x.pubcomp_reason_code));
            opt!($k, ConfirmationProperties { reason_string: None, user_properties: UserProperties::new() }, |x| Some(&mut x.properties));
        )* };
    }
    let none = UserProperties::new();
    acks!(Puback Pubrec Pubrel Pubcomp);
    opt!(Connect, String::new(), |x| Some(&mut x.user_name));
    opt!(Connect, String::new(), |x| Some(&mut x.password));
    opt!(Connect, LastWill { topic: None, payload: None, qos: 0, retain: false, properties: None }, |x| Some(&mut x.will));
    opt!(Connect, ConnectProperties::default(), |x| Some(&mut x.properties));
    opt!(Connect, 0, |x| x.properties.as_mut().map(|q| &mut q.maximum_packet_size));
    texts!(Connect: authentication_method authentication_data);
    opt!(Connect, String::new(), |x| x.will.as_mut().map(|w| &mut w.topic));
    opt!(Connect, String::new(), |x| x.will.as_mut().map(|w| &mut w.payload));
    opt!(Connect, WillProperties::default(), |x| x.will.as_mut().map(|w| &mut w.properties));
    opt!(Connect, 0, |x| x.will.as_mut().and_then(|w| w.properties.as_mut()).map(|q| &mut q.message_expiry_interval));
    opt!(Connect, String::new(), |x| x.will.as_mut().and_then(|w| w.properties.as_mut()).map(|q| &mut q.content_type));
    opt!(Connect, String::new(), |x| x.will.as_mut().and_then(|w| w.properties.as_mut()).map(|q| &mut q.response_topic));
    opt!(Connack, 0, |x| Some(&mut x.return_code));
    opt!(Connack, 0, |x| Some(&mut x.reason_code));
    opt!(Connack, ConnackProperties::default(), |x| Some(&mut x.properties));
    opt!(Connack, 0, |x| x.properties.as_mut().map(|q| &mut q.server_keep_alive));
    opt!(Connack, 0, |x| x.properties.as_mut().map(|q| &mut q.maximum_packet_size));
    texts!(Connack: assigned_client_identifier authentication_method authentication_data response_information server_reference reason_string);
    opt!(Publish, 0, |x| Some(&mut x.message_id));
    opt!(
        Publish,
        PublishProperties {
            payload_format_indicator: false,
            message_expiry_interval: None,
            content_type: None,
            response_topic: None,
            correlation_data: vec![],
            subscription_identifiers: vec![],
            topic_alias: None,
            user_properties: none.clone()
        },
        |x| Some(&mut x.properties)
    );
    opt!(Publish, 0, |x| x.properties.as_mut().map(|q| &mut q.message_expiry_interval));
    opt!(Publish, 0, |x| x.properties.as_mut().map(|q| &mut q.topic_alias));
    texts!(Publish: content_type response_topic);
    opt!(Subscribe, 0, |x| x.subscriptions.last_mut().map(|s| &mut s.rh));
    opt!(Subscribe, SubscribeProperties { subscription_identifier: 0, user_properties: none.clone() }, |x| Some(&mut x.properties));
    opt!(Suback, 0, |x| Some(&mut x.reason_code));
    opt!(Suback, ConfirmationProperties { reason_string: None, user_properties: none.clone() }, |x| Some(&mut x.properties));
    texts!(Suback: reason_string);
    opt!(Unsubscribe, UnsubscribeProperties { user_properties: none.clone() }, |x| Some(&mut x.properties));
    opt!(Unsuback, ConfirmationProperties { reason_string: None, user_properties: none.clone() }, |x| Some(&mut x.properties));
    texts!(Unsuback: reason_string);
    opt!(Disconnect, DisconnectCode::NormalDisconnection, |x| Some(&mut x.reason_code));
    opt!(
        Disconnect,
        DisconnectProperties { session_expiry_interval: None, reason_string: None, user_properties: none.clone(), server_reference: None },
        |x| Some(&mut x.properties)
    );
    opt!(Disconnect, 0, |x| x.properties.as_mut().map(|q| &mut q.session_expiry_interval));
    texts!(Disconnect: reason_string server_reference);
    opt!(
        Auth,
        AuthProperties { authentication_method: String::new(), authentication_data: None, reason_string: None, user_properties: none.clone() },
        |x| Some(&mut x.properties)
    );
    texts!(Auth: authentication_data reason_string);
    out
}
/// absent is not the same as empty, zero or default
fn optional_parts(c: &mut Ctx) {
    let p = if c.rng.pct(80) { gen::any_legal(&mut c.rng).0 } else { gen::hostile(&mut c.rng).0 };
    for [a, b] in options(&p) {
        c.stat("optional parts absent and empty", 1);
        if compare(c, &a, &b) {
            c.stat("optional parts where this makes no difference", 1);
        }
        compare(c, &p, &a);
        compare(c, &p, &b);
        if a.clone() != a || b.clone() != b {
            c.fail("clone", || format!("a clone differs from {} or {}", pd(&a), pd(&b)), &[]);
        }
    }
}
/// any two of a group of small packets, many of which share their contents
fn all_pairs(c: &mut Ctx) {
    let n = c.rng.range(8, 16);
    let mut ps = vec![];
    for _ in 0..n {
        let p = match c.rng.below(4) {
            0 if !ps.is_empty() => {
                let p: &MqttPacket = c.rng.pick(&ps);
                p.clone()
            }
            1 => {
                let v = gen::version(&mut c.rng);
                match PacketDecoder::from_stream(Cursor::new(any_frame(&mut c.rng, v))).decode_packet(v) {
                    Ok(p) => p,
                    Err(_) => continue,
                }
            }
            _ => gen::any_legal(&mut c.rng).0,
        };
        ps.push(p);
    }
    for a in &ps {
        for b in &ps {
            compare(c, a, b);
        }
    }
}
/// a clone holds the same and encodes to the same frame; the clone made into an existing value too
fn clones(c: &mut Ctx) {
    let (p, v) = if c.rng.pct(70) { gen::any_legal(&mut c.rng) } else { gen::hostile(&mut c.rng) };
    let (other, _) = gen::any_legal(&mut c.rng);
    let f = p.flat();
    c.eval(hash_flat(&f), true);
    let r = c.guard(|| {
        let q = p.clone();
        let mut z = other.clone();
        z.clone_from(&p);
        (q, z)
    });
    let (q, z) = match r {
        Ok(x) => x,
        Err(m) => return c.fail("clone-panic", || format!("cloning {} panicked: {}", pd(&p), m), &[]),
    };
    c.stat("clones compared", 2);
    for (k, how) in [(&q, "clone"), (&z, "clone_from")] {
        if k.flat() != f {
            c.fail("clone", || format!("{} of {} holds something else: {}", how, pd(&p), pd(k)), &[]);
        }
    }
    if p.flat() != f {
        c.fail("clone-source", || format!("cloning changed its source: {}", pd(&p)), &[]);
    }
    let e = c.guard(|| (encode_ref(&p, v), encode_ref(&q, v)));
    if let Ok((a, b)) = e {
        let ok = match (&a, &b) {
            (Ok(a), Ok(b)) => same_frame(a, b, v),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !ok {
            c.fail("clone-encode", || format!("v{} {} and its clone encode to {:?} and {:?}", v, pd(&p), a.as_ref().map(|x| hex(x)), b.as_ref().map(|x| hex(x))), &[]);
        }
    }
}
/// packets of megabytes and their clones, equal and with one difference far inside
fn large_pairs(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let mut a = super::streams::large_packet(&mut c.rng, v, 4_000_000);
    let fa = a.flat();
    let mut b = a.clone();
    if b.flat() != fa || a != b || b != a {
        c.fail("clone", || format!("the clone of {} holds something else or compares different", pd(&a)), &[]);
        return;
    }
    c.stat("large packets compared", 1);
    for _ in 0..4 {
        if !alter(&mut c.rng, &mut b) {
            break;
        }
        compare(c, &a, &b);
        if a.flat() != fa {
            c.fail("clone-source", || format!("changing its clone changed {}", pd(&a)), &[]);
        }
        if c.rng.bool() {
            b.clone_from(&a);
        } else {
            a.clone_from(&b);
            if a != b || a.flat() != b.flat() {
                c.fail("clone", || format!("clone_from of {} holds something else", pd(&b)), &[]);
            }
            return;
        }
    }
}
/// one small change anywhere in the large parts of a packet
fn alter(r: &mut Rng, p: &mut MqttPacket) -> bool {
    fn text(r: &mut Rng, s: &mut String) -> bool {
        if s.is_empty() {
            s.push('x');
            return true;
        }
        let mut b = std::mem::take(s).into_bytes();
        let i = r.us(b.len());
        if b[i].is_ascii() {
            b[i] = if b[i] == b'z' { b'y' } else { b'z' };
        } else {
            b.push(b'x');
        }
        *s = String::from_utf8(b).unwrap_or_default();
        true
    }
    fn list<T>(r: &mut Rng, x: &mut Vec<T>, mut one: impl FnMut(&mut Rng, &mut T) -> bool) -> bool {
        if x.is_empty() {
            return false;
        }
        let i = r.us(x.len());
        match r.below(4) {
            0 => {
                x.pop();
                true
            }
            1 => {
                let j = r.us(x.len());
                x.swap(i, j);
                true
            }
            _ => one(r, &mut x[i]),
        }
    }
    fn users(r: &mut Rng, m: &mut UserProperties) -> bool {
        let mut keys: Vec<&String> = m.keys().collect();
        keys.sort();
        if keys.is_empty() {
            return false;
        }
        let k = keys[r.us(keys.len())].clone();
        match m.get_mut(&k) {
            Some(x) => list(r, x, |r, s| text(r, s)),
            None => false,
        }
    }
    macro_rules! up {
        ($x:expr) => {
            if let Some(q) = $x.properties.as_mut() {
                if !q.user_properties.is_empty() && r.bool() {
                    return users(r, &mut q.user_properties);
                }
            }
        };
    }
    match p {
        MqttPacket::Publish(x) => {
            up!(x);
            if r.bool() && !x.topic.is_empty() {
                return text(r, &mut x.topic);
            }
            list(r, &mut x.payload, |_, b| {
                *b ^= 0x10;
                true
            })
        }
        MqttPacket::Subscribe(x) => {
            up!(x);
            list(r, &mut x.subscriptions, |r, s| text(r, &mut s.topic))
        }
        MqttPacket::Unsubscribe(x) => {
            up!(x);
            list(r, &mut x.unsubscriptions, |r, s| text(r, s))
        }
        MqttPacket::Suback(x) => {
            up!(x);
            list(r, &mut x.granted, |r, g| {
                *g = r.pick(GRANTED).1.clone();
                true
            }) || list(r, &mut x.granted_reason_codes, |r, g| {
                *g = r.pick(SUBACK_CODES).1.clone();
                true
            })
        }
        MqttPacket::Unsuback(x) => {
            up!(x);
            list(r, &mut x.granted, |r, g| {
                *g = r.pick(UNSUBACK_CODES).1.clone();
                true
            })
        }
        MqttPacket::Connect(x) => {
            up!(x);
            text(r, &mut x.client_id)
        }
        MqttPacket::Connack(x) => {
            up!(x);
            x.session_present = !x.session_present;
            true
        }
        MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => {
            up!(x);
            x.message_id ^= 0x0101;
            true
        }
        MqttPacket::Disconnect(x) => {
            up!(x);
            false
        }
        MqttPacket::Auth(x) => {
            up!(x);
            false
        }
        _ => false,
    }
}
/// every value of the small types against every other
fn small_types(c: &mut Ctx) {
    fn square<T: PartialEq + Clone + Canon + std::fmt::Debug>(c: &mut Ctx, xs: &[T]) {
        let fs: Vec<Flat> = xs.iter().map(|x| x.flat()).collect();
        for (a, fa) in xs.iter().zip(&fs) {
            if a.clone().flat() != *fa {
                c.fail("clone", || format!("the clone of {:?} is {:?}", a, a.clone()), &[]);
            }
            for (b, fb) in xs.iter().zip(&fs) {
                let want = fa == fb;
                c.eval(hash_flat(fa).rotate_left(1) ^ hash_flat(fb), true);
                c.stat("comparisons of small types", 1);
                if (a == b) != want || (a != b) == want {
                    c.fail("compare", || format!("{:?} == {:?} should be {}", a, b, want), &[]);
                }
            }
        }
    }
    fn seconds<T: Clone>(t: &[(u8, T)]) -> Vec<T> {
        t.iter().map(|x| x.1.clone()).collect()
    }
    let types: Vec<PacketType> = (0..=15).map(PacketType::from_bits).collect();
    match c.idx {
        0 => {
            square(c, &types);
            square(c, &[Protocol::Mqtt, Protocol::MQIsdp]);
            square(c, &seconds(QOS));
            square(c, &seconds(GRANTED));
            square(c, &seconds(PUBACK_CODES));
            square(c, &seconds(PUBREL_CODES));
            square(c, &seconds(SUBACK_CODES));
            square(c, &seconds(UNSUBACK_CODES));
            square(c, &seconds(AUTH_CODES));
            square(c, &seconds(DISCONNECT_CODES));
        }
        1 => {
            let mut hs = vec![];
            for t in &types {
                for k in 0..20u8 {
                    hs.push(FixedHeader { cmd: *t, dup: k & 1 == 1, retain: k & 2 == 2, qos: k / 4 });
                }
            }
            square(c, &hs);
        }
        _ => {
            let fs: Vec<ConnectFlags> = (0..=255)
                .map(|k: u8| ConnectFlags { user_name: k & 1 > 0, password: k & 2 > 0, will_retain: k & 4 > 0, will: k & 8 > 0, clean_session: k & 16 > 0, will_qos: k >> 5 })
                .collect();
            square(c, &fs);
        }
    }
}
/// which fields have not yet been the only difference of two packets; runs last
fn field_report(c: &mut Ctx) {
    let (f, a) = (FIELDS.lock().unwrap(), APART.lock().unwrap());
    // the presence or length of a field stands for itself, its parts have longer paths
    let left: Vec<&String> = f.iter().filter(|p| !a.contains(*p) && p.contains('.')).collect();
    c.eval(1, true);
    c.stat_max("max fields met", f.len() as u64);
    c.stat("fields never the only difference", left.len() as u64);
    c.sample(|| format!("{} fields met; never the only difference between two packets: {:?}", f.len(), left));
}
pub fn c24(env: &Env) -> Check<'_> {
    Check {
        id: "C24",
        level: "exploration",
        rule: "Pairs of packets made from the same random draws except for one, so that most differ in a single field; packets with one part changed on purpose; each optional part absent against empty, zero or default; groups compared each with each; all pairs of the small types. Each comparison, in both directions and negated, is judged by the contents of the two, listed field by field without the crate's own comparison. Clones are judged the same way and by what they encode to. Distinct by the contents of both.",
        assumptions: vec!["the order of different user property keys is not part of the contents: the map does not keep it"],
        phases: vec![
            Phase::new("near_pairs", env.rn(150_000, 4_000_000), near_pairs),
            Phase::new("optional_parts", env.rn(12_000, 400_000), optional_parts),
            Phase::new("all_pairs", env.rn(6_000, 200_000), all_pairs),
            Phase::new("clones", env.rn(100_000, 3_000_000), clones),
            Phase::new("large_pairs", env.n(160, 3_000), large_pairs).batch(1),
            Phase::new("small_types", 3, small_types).batch(1),
            Phase::new("fields", 1, field_report).batch(1),
        ],
        need: vec!["optional parts absent and empty", "equal pairs compared", "different pairs compared", "pairs that differ in one field only", "clones compared", "large packets compared", "comparisons of small types", "max fields seen as the only difference"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C25

/// A system call filter for one thread: what memory management and the end of a thread need passes,
/// everything else is refused and noted.
mod fence {
    use crate::atomic64::AtomicU64;
    use std::sync::atomic::Ordering::SeqCst;
    thread_local! {
        static HITS: std::cell::Cell<[u32; 8]> = const { std::cell::Cell::new([0; 8]) };
    }
    static HANDLER: std::sync::Once = std::sync::Once::new();
    pub static TRAPS: AtomicU64 = AtomicU64::new(0);
    #[repr(C)]
    struct Insn {
        code: u16,
        jt: u8,
        jf: u8,
        k: u32,
    }
    #[repr(C)]
    struct Prog {
        len: u16,
        filter: *const Insn,
    }
    #[repr(C)]
    struct Act {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn prctl(op: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
        fn sigaction(sig: i32, new: *const Act, old: *mut Act) -> i32;
    }
    /// brk mmap munmap mprotect mremap madvise futex getrandom rt_sigreturn rt_sigprocmask sigaltstack exit
    /// and reading the time: clock_gettime gettimeofday time getcpu
    const PASS: [u32; 16] = [12, 9, 11, 10, 25, 28, 202, 318, 15, 14, 131, 60, 228, 96, 201, 309];

    extern "C" fn trapped(_sig: i32, info: *const u8, ctx: *mut u8) {
        unsafe {
            let nr = *(info.add(24) as *const i32);
            // the refused call returns EPERM
            *(ctx.add(40 + 13 * 8) as *mut i64) = -1;
            TRAPS.fetch_add(1, SeqCst);
            HITS.with(|h| {
                let mut v = h.get();
                let n = v[0] as usize;
                if n < 7 {
                    v[1 + n] = nr as u32;
                }
                v[0] += 1;
                h.set(v);
            });
        }
    }
    /// from here on this thread is watched; false if the kernel does not allow it
    pub fn raise() -> bool {
        if !cfg!(all(target_arch = "x86_64", target_os = "linux")) {
            return false;
        }
        HANDLER.call_once(|| unsafe {
            let a = Act { handler: trapped as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
            sigaction(31, &a, std::ptr::null_mut());
        });
        let mut f = vec![Insn { code: 0x20, jt: 0, jf: 0, k: 0 }];
        for nr in PASS {
            f.push(Insn { code: 0x15, jt: 0, jf: 1, k: nr });
            f.push(Insn { code: 0x06, jt: 0, jf: 0, k: 0x7fff_0000 });
        }
        f.push(Insn { code: 0x06, jt: 0, jf: 0, k: 0x0003_0000 });
        let p = Prog { len: f.len() as u16, filter: f.as_ptr() };
        unsafe { prctl(38, 1, 0, 0, 0) == 0 && prctl(22, 2, &p as *const Prog as usize, 0, 0) == 0 }
    }
    /// number of refused calls on this thread and the first few of them, forgetting them
    pub fn take() -> (u32, Vec<u32>) {
        let v = HITS.with(|h| h.replace([0; 8]));
        (v[0], v[1..].iter().copied().take(v[0] as usize).collect())
    }
    pub fn name(nr: u32) -> String {
        match nr {
            0 => "read".into(),
            1 => "write".into(),
            2 | 257 => "open".into(),
            20 => "writev".into(),
            24 => "sched_yield".into(),
            35 | 230 => "sleep".into(),
            41 => "socket".into(),
            42 => "connect".into(),
            56 | 435 => "new thread or process".into(),
            59 => "exec".into(),
            80 => "chdir".into(),
            231 => "exit of the process".into(),
            n => format!("system call {}", n),
        }
    }
}

enum Job {
    Stream(Vec<u8>, u8),
    /// read in pieces, with interruptions (permille) and perhaps a failure
    Pieces(Vec<u8>, u8, u64, u64, Fault, (usize, u32)),
    Typed(Vec<u8>, u8),
    Encode(Box<MqttPacket>, u8),
    EncodeOnce(Box<MqttPacket>, u8),
    Ops(Vec<u8>, Vec<super::prims::Op>),
}
fn job(r: &mut Rng) -> Job {
    match r.below(12) {
        k @ (0..=3 | 10 | 11) => {
            let v = gen::version(r);
            let n = 1 + r.us(5);
            let mut b = vec![];
            for _ in 0..n {
                b.extend(any_frame(r, v));
            }
            if r.pct(20) {
                mutate::damage(r, &mut b);
            }
            if r.pct(15) {
                b.truncate(r.us(b.len() + 1));
            }
            let v = if r.pct(95) { v } else { r.u8() };
            if k < 10 {
                return Job::Stream(b, v);
            }
            let at = r.us(b.len() + 1);
            let kinds = [ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::Other, ErrorKind::UnexpectedEof];
            let f = match r.below(4) {
                0 => Fault::Once(at, *r.pick(&kinds)),
                1 => Fault::Forever(at, *r.pick(&kinds)),
                _ => Fault::None,
            };
            let often = *r.pick(&[0, 50, 500, 900]);
            let burst = if r.pct(40) { (r.us(b.len() + 1), *r.pick(&[5u32, 30, 130, 300, 1_100, 5_000, 70_000])) } else { (0, 0) };
            Job::Pieces(b, v, r.next(), often, f, burst)
        }
        4 => {
            let n = r.us(40);
            Job::Stream((0..n).map(|_| r.u8()).collect(), gen::version(r))
        }
        5 => {
            let v = gen::version(r);
            Job::Typed(any_frame(r, v), v)
        }
        6 | 7 => {
            let (p, v) = gen::any_legal(r);
            Job::Encode(Box::new(p), v)
        }
        8 => {
            let (p, v) = gen::hostile(r);
            Job::Encode(Box::new(p), if r.pct(95) { v } else { r.u8() })
        }
        _ => {
            let (b, ops) = random_ops(r);
            Job::Ops(b, ops)
        }
    }
}
fn describe(j: &Job) -> (String, Vec<u8>) {
    match j {
        Job::Stream(b, v) => (format!("decoding at version {} the stream {}", v, hex(b)), b.clone()),
        Job::Pieces(b, v, s, i, f, u) => (format!("decoding at version {} in pieces ({}), interrupted {} permille and (after, times) {:?}, fault {:?}, the stream {}", v, s, i, u, f, hex(b)), b.clone()),
        Job::Typed(b, v) => (format!("decoding by type at version {} the frame {}", v, hex(b)), b.clone()),
        Job::EncodeOnce(p, v) => (format!("encoding at version {} {}", v, short(&pd(p), 300)), vec![]),
        Job::Encode(p, v) => (format!("encoding at version {} {}", v, pd(p)), vec![]),
        Job::Ops(b, o) => (format!("reading {} by {:?}", hex(b), o), b.clone()),
    }
}
fn perform(j: &Job) -> u64 {
    match j {
        Job::Stream(b, v) => {
            let mut d = PacketDecoder::from_stream(Cursor::new(&b[..]));
            dec_all(&mut d, *v, b.len().min(10_000) + 2).len() as u64
        }
        Job::Pieces(b, v, s, i, f, u) => {
            let io = Stream::new(b).chunks(Chunks::Random(*s, 9)).interrupt(*i, *s).burst(u.0, u.1).fault(*f);
            let mut d = PacketDecoder::from_bufreader(BufReader::with_capacity(1 + (*s % 40) as usize, io));
            let mut n = 0;
            while d.has_more() && n < b.len() as u64 + 5 {
                let _ = d.decode_packet(*v);
                n += 1;
            }
            n
        }
        Job::Typed(b, v) => {
            let _ = decode_typed(&mut ByteReader::new(BufReader::new(Cursor::new(&b[..]))), *v);
            1
        }
        Job::Encode(p, v) => {
            let _ = encode_ref(p, *v);
            let _ = (**p).clone().encode(*v);
            2
        }
        Job::EncodeOnce(p, v) => {
            let _ = encode_ref(p, *v);
            1
        }
        Job::Ops(b, o) => {
            let _ = run_ops(b, o, 16, Chunks::All, &mut [0; 8]);
            o.len() as u64
        }
    }
}
fn environment() -> u64 {
    let mut v: Vec<_> = std::env::vars_os().collect();
    v.sort();
    hash_bytes(format!("{:?}", v).as_bytes())
}
#[inline(never)]
fn c_probe() -> bool {
    true
}
fn fenced(c: &mut Ctx) {
    let jobs: Vec<Job> = (0..150).map(|_| job(&mut c.rng)).collect();
    for j in &jobs {
        let (d, b) = describe(j);
        c.eval(hash_bytes(d.as_bytes()) ^ hash_bytes(&b), true);
    }
    c.sample(|| describe(&jobs[0]).0);
    watched(c, jobs)
}
fn fenced_large(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let mut jobs = vec![];
    for _ in 0..4 {
        let f = if c.rng.pct(60) { super::streams::large_frame(&mut c.rng, v, usize::MAX) } else { super::streams::large_damaged(&mut c.rng, v, usize::MAX) };
        c.eval(hash_bytes(&f), true);
        c.stat("large frames decoded and encoded", 1);
        if let Ok(Ok(p)) = c.guard(|| PacketDecoder::from_stream(Cursor::new(&f[..])).decode_packet(v)) {
            jobs.push(Job::Encode(Box::new(p), v));
        }
        jobs.push(match c.rng.below(3) {
            0 if f.len() < 400_000 => Job::Pieces(f, v, c.rng.next(), 0, Fault::None, (0, 0)),
            1 => Job::Typed(f, v),
            _ => Job::Stream(f, v),
        });
    }
    match c.idx {
        // the largest packet there can be, and the ones just above it
        0 => jobs.extend([Job::Stream(maximal(268_435_455), 4), Job::Typed(maximal(268_435_455), 5)]),
        1..=3 => {
            let n = [268_435_455usize - 3, 268_435_456, 300_000_000][c.idx as usize - 1];
            c.stat("packets at the limit of the length field", 1);
            let p = MqttPacket::Publish(PublishPacket { payload: vec![0; n], ..crate::source::min_publish() });
            jobs.extend([3u8, 4, 5].map(|v| Job::EncodeOnce(Box::new(p.clone()), v)));
        }
        _ => {}
    }
    watched(c, jobs)
}
/// a publish whose remaining length is `n`
fn maximal(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    b[1] = 1;
    b[2] = b't';
    crate::refenc::frame(0x30, &b)
}
fn watched(c: &mut Ctx, jobs: Vec<Job>) {
    let before = environment();
    // first use of the heap and of hash keys on this thread, then the fence
    let r = c.guard(|| {
        std::thread::scope(|s| {
            s.spawn(|| {
                crate::run::quiet(true);
                let _warm = (vec![0u8; 300_000], UserProperties::new());
                if !fence::raise() {
                    return Err("no system call filter".to_string());
                }
                // the fence itself: a refused call must be noticed
                let probe = std::env::current_dir().is_err();
                let (n, _) = fence::take();
                if !probe || n == 0 {
                    return Err("the system call filter does not work".into());
                }
                // and so must reads of the clock and of the environment
                touch::take();
                let _ = (std::time::Instant::now(), std::env::var_os("HOME"));
                let watched = touch::take() == [1, 1];
                let (mut hits, mut calls) = (vec![], 0);
                for (i, j) in jobs.iter().enumerate() {
                    calls += std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(j))).unwrap_or(1);
                    let (n, which) = fence::take();
                    let seen = touch::take();
                    if n > 0 || seen != [0, 0] {
                        hits.push((i, n, which, seen));
                    }
                }
                Ok((hits, calls, watched))
            })
            .join()
            .unwrap_or_else(|_| Err("the watched thread panicked".into()))
        })
    });
    match r {
        Ok(Ok((hits, calls, watched))) => {
            c.stat("codec calls under the system call filter", calls);
            c.stat("filters whose refusal was seen to work", 1);
            c.stat("threads whose reads of clock and environment were seen to be noticed", watched as u64);
            for (i, n, which, seen) in hits {
                let (d, b) = describe(&jobs[i]);
                if seen[touch::CLOCK] > 0 {
                    c.fail("clock", || format!("{} read the clock ({} times)", d, seen[touch::CLOCK]), &b);
                }
                if seen[touch::ENVIRONMENT] > 0 {
                    c.fail("environment-read", || format!("{} read environment variables ({} times)", d, seen[touch::ENVIRONMENT]), &b);
                }
                if n == 0 {
                    continue;
                }
                let names: Vec<String> = which.iter().map(|x| fence::name(*x)).collect();
                c.fail("side-effect", || format!("{} made {} system calls beyond memory management: {}", d, n, names.join(", ")), &b);
            }
        }
        Ok(Err(m)) | Err(m) => c.stat(if m.contains("filter") { "threads without a filter" } else { "threads lost" }, 1),
    }
    if environment() != before {
        c.fail("environment", || "the environment variables of the process have changed".into(), &[]);
    }
    c.stat("environments compared", 1);
    // the program's own panic hook must still be in place
    match c.guard(|| {
        if c_probe() {
            panic!("hook probe")
        }
    }) {
        Err(m) if m.contains("hook probe at ") => c.stat("panic hooks found in place", 1),
        r => c.fail("panic-hook", || format!("the panic hook of the process has been replaced ({:?})", r), &[]),
    }
}
pub fn c25(env: &Env) -> Check<'_> {
    Check {
        id: "C25",
        level: "exploration",
        rule: "Decoding of legal, malformed, damaged and random streams, also in pieces, interrupted and with failing reads, encoding of legal and illegal packets, reader operations, each on a thread for which the kernel refuses and reports every system call except those of memory management, and on which reads of the clock and of environment variables are counted. Distinct by input.",
        assumptions: vec!["the clock and environment variables are read through the C library, as the standard library does"],
        phases: vec![Phase::new("fenced", env.rn(2_500, 60_000), fenced).batch(4), Phase::new("fenced_large", env.n(64, 1_000), fenced_large).batch(1)],
        need: vec!["large frames decoded and encoded", "threads whose reads of clock and environment were seen to be noticed", "codec calls under the system call filter", "filters whose refusal was seen to work", "environments compared", "panic hooks found in place"],
        exhaustive: false,
    }
}
