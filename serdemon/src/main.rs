//! C18: packets survive serde, in a self-describing text format, in its in-memory tree and in a positional binary format.
use mon::rng::{hash_bytes, Rng};
use mon::run::{Check, Ctx, Env, Phase};
use mon::spec::*;
use mon::{conv, gen, mutate, props, source};
use mqtt_packet_3_5::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;
use std::io::Cursor;

#[global_allocator]
static A: mon::alloc::Counting = mon::alloc::Counting;

const FORMATS: [&str; 6] = ["json text", "json bytes", "json pretty", "json tree", "bincode", "bincode varint big endian"];

/// through one format and back
fn trip<T: Serialize + DeserializeOwned>(x: &T, f: usize) -> Result<T, String> {
    fn s<E: std::fmt::Display>(e: E) -> String {
        e.to_string()
    }
    match f {
        0 => serde_json::from_str(&serde_json::to_string(x).map_err(s)?).map_err(s),
        1 => serde_json::from_reader(Cursor::new(serde_json::to_vec(x).map_err(s)?)).map_err(s),
        2 => serde_json::from_slice(&serde_json::to_vec_pretty(x).map_err(s)?).map_err(s),
        // the tree keeps objects sorted by key, so fields arrive in another order
        3 => serde_json::from_value(serde_json::to_value(x).map_err(s)?).map_err(s),
        4 => bincode::deserialize(&bincode::serialize(x).map_err(s)?).map_err(s),
        _ => {
            use bincode::Options;
            let o = || bincode::options().with_varint_encoding().with_big_endian().reject_trailing_bytes();
            o().deserialize(&o().serialize(x).map_err(s)?).map_err(s)
        }
    }
}

fn value<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Ctx, x: &T, formats: &[usize]) -> Option<T> {
    let mut last = None;
    for &f in formats {
        match c.guard(|| trip(x, f)) {
            Err(m) => c.fail("serde-panic", || format!("{}: panic {} for {}", FORMATS[f], m, props::short(&format!("{:?}", x), 900)), &[]),
            Ok(Err(e)) => c.fail("serde-refused", || format!("{}: {} for {}", FORMATS[f], e, props::short(&format!("{:?}", x), 900)), &[]),
            Ok(Ok(y)) => {
                if y != *x {
                    c.fail("serde-changed", || format!("{}: {} came back as {}", FORMATS[f], props::short(&format!("{:?}", x), 900), props::short(&format!("{:?}", y), 900)), &[]);
                } else {
                    c.stat(FORMATS[f], 1);
                    last = Some(y);
                }
            }
        }
    }
    last
}

/// the packet as such, the value inside it, and what the restored one encodes to
fn packet(c: &mut Ctx, p: &MqttPacket, v: u8, legal: bool) {
    let big = format_weight(p) > 20_000;
    let i = c.idx as usize;
    // large values go through one text and one binary format each
    let fs: Vec<usize> = if big { vec![i % 4, 4 + i % 2] } else { (0..6).collect() };
    c.eval(hash_bytes(&serde_json::to_vec(&serde_json::to_value(p).unwrap_or_default()).unwrap_or_default()) ^ v as u64, format_weight(p) > 0);
    c.sample(|| format!("v{} {}", v, serde_json::to_string(p).unwrap_or_default()));
    let Some(q) = value(c, p, &fs) else { return };
    inner(c, p, i);
    let (a, b) = (props::enc(c, p, v), props::enc(c, &q, v));
    match (&a, &b) {
        (Ok(Ok(a)), Ok(Ok(b))) => {
            if !props::streams::same_frame(a, b, if let MqttPacket::Connect(_) = p { 5 } else { v }) && legal {
                c.fail("restored-encodes-differently", || format!("v{} {} encodes to {} and the restored one to {}", v, props::pd(p), mon::run::hex(a), mon::run::hex(b)), a);
                return;
            }
            if a.len() != b.len() {
                c.fail("restored-encodes-differently", || format!("v{} {} encodes to {} and the restored one to {}", v, props::pd(p), mon::run::hex(a), mon::run::hex(b)), a);
                return;
            }
            c.stat("restored packets encoded", 1);
            if legal {
                match props::dec_tail(c, b, v, 0) {
                    Ok((Ok(r), true)) if r == conv::norm(p, v) => c.stat("restored packets decoded", 1),
                    o => {
                        let m = format!("v{} {}: the frame of the restored packet decodes to {:?}", v, props::pd(p), o.map(|x| (props::show(&x.0), x.1)));
                        c.fail("restored-decodes-differently", || m, b)
                    }
                }
            }
        }
        (Ok(Err(_)), Ok(Err(_))) => c.stat("restored packets refused alike", 1),
        _ => {
            let m = format!("v{} {}: original {:?}, restored {:?}", v, props::pd(p), a.map(|x| x.map(|y| mon::run::hex(&y))), b.map(|x| x.map(|y| mon::run::hex(&y))));
            c.fail("restored-encodes-differently", || m, &[])
        }
    }
}

fn format_weight(p: &MqttPacket) -> usize {
    bincode::serialized_size(p).unwrap_or(0) as usize
}

fn inner(c: &mut Ctx, p: &MqttPacket, i: usize) {
    let fs = [i % 4, 4 + i % 2];
    match p {
        MqttPacket::Connect(x) => {
            value(c, x, &fs);
            value(c, &x.will, &fs);
            value(c, &x.properties, &fs);
        }
        MqttPacket::Connack(x) => {
            value(c, x, &fs);
            value(c, &x.properties, &fs);
        }
        MqttPacket::Publish(x) => {
            value(c, x, &fs);
            value(c, &x.properties, &fs);
        }
        MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => {
            value(c, x, &fs);
            value(c, &x.properties, &fs);
        }
        MqttPacket::Subscribe(x) => {
            value(c, x, &fs);
            value(c, &x.properties, &fs);
            value(c, &x.subscriptions, &fs);
        }
        MqttPacket::Suback(x) => {
            value(c, x, &fs);
        }
        MqttPacket::Unsubscribe(x) => {
            value(c, x, &fs);
            value(c, &x.properties, &fs);
        }
        MqttPacket::Unsuback(x) => {
            value(c, x, &fs);
        }
        MqttPacket::Pingreq => {
            value(c, &PingreqPacket, &fs);
        }
        MqttPacket::Pingresp => {
            value(c, &PingrespPacket, &fs);
        }
        MqttPacket::Disconnect(x) => {
            value(c, x, &fs);
            value(c, &x.properties, &fs);
        }
        MqttPacket::Auth(x) => {
            value(c, x, &fs);
            value(c, &x.properties, &fs);
        }
    }
}

/// every small value of the public types that are not packets
fn small(c: &mut Ctx) {
    let b = c.idx as u8;
    let all: Vec<usize> = (0..6).collect();
    c.eval(b as u64, true);
    macro_rules! table {
        ($t:expr) => {
            if let Some(x) = by_byte($t, b) {
                value(c, &x, &all);
                value(c, &Some(x), &all);
            }
        };
    }
    table!(PUBACK_CODES);
    table!(PUBREL_CODES);
    table!(DISCONNECT_CODES);
    table!(AUTH_CODES);
    table!(SUBACK_CODES);
    table!(UNSUBACK_CODES);
    for p in [Protocol::Mqtt, Protocol::MQIsdp] {
        value(c, &p, &all);
    }
    for q in [QoS::QoS0, QoS::QoS1, QoS::QoS2] {
        value(c, &q, &all);
    }
    for g in [Granted::QoS0, Granted::QoS1, Granted::QoS2, Granted::Failure] {
        value(c, &g, &all);
    }
    let t = PacketType::from_bits(b >> 4);
    value(c, &t, &all);
    let h = FixedHeader { cmd: t, dup: b & 8 != 0, qos: (b >> 1) & 3, retain: b & 1 != 0 };
    if let Some(g) = value(c, &h, &all) {
        if g.encode() != h.encode() {
            c.fail("restored-header", || format!("{:?}", h), &[b]);
        }
    }
    value(c, &mqtt_packet_3_5::connect::ConnectFlags::new(b), &all);
    c.stat("bytes turned into small values", 1);
}

/// whatever the decoder returns, also from damaged frames
fn decoded(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let t = 1 + c.rng.below(gen::types_for(v) as u64) as u8;
    let p = gen::legal(&mut c.rng, v, t);
    let Ok(Ok(b)) = props::enc(c, &p, v) else { return };
    let mut b = b;
    if c.rng.pct(60) {
        b = mutate::framed(&mut c.rng, &b);
    }
    if let Ok((Ok(q), _)) = props::dec_tail(c, &b, v, 0) {
        packet(c, &q, v, false);
        c.stat("decoded packets", 1);
    }
}

fn build<'a>(id: &str, env: &'a Env) -> Option<Check<'a>> {
    if id != "C18" {
        return None;
    }
    let mut phases: Vec<Phase<'a>> = vec![Phase::new("small_values", 256, small)];
    for s in source::sources(env) {
        let make = s.make;
        let heavy = matches!(s.name, "payload_sizes" | "element_counts" | "text_lengths");
        // a share of the long systematic sources, another one for each seed
        let step = if env.tier == mon::run::Tier::Thorough { 1 } else if heavy { 8 } else { (s.count / 40_000).max(1) };
        let off = env.seed % step;
        let n = (s.count.saturating_sub(off) + step - 1) / step;
        phases.push(
            Phase::new(s.name, n, move |c: &mut Ctx| {
                let i = c.idx * step + off;
                let mut r = Rng::for_case(c.env.seed, "serde", i);
                let (p, v) = make(&mut r, i);
                packet(c, &p, v, true)
            })
            .batch(if heavy { 4 } else { 64 }),
        );
    }
    phases.push(
        Phase::new("large_packets", env.n(48, 1_000), |c: &mut Ctx| {
            let v = gen::version(&mut c.rng);
            let p = props::streams::large_packet(&mut c.rng, v, 900_000);
            c.stat("large packets", 1);
            packet(c, &p, v, true)
        })
        .batch(1),
    );
    phases.push(Phase::new("hostile", env.rn(40_000, 1_500_000), |c: &mut Ctx| {
        let (p, v) = gen::hostile(&mut c.rng);
        packet(c, &p, v, false)
    }));
    phases.push(Phase::new("decoded", env.rn(40_000, 1_500_000), decoded));
    Some(Check {
        id: "C18",
        level: "exploration",
        rule: "Packets from the systematic and random sources, arbitrary constructible packets and decoder results, plus every small public value, go through six serde formats (JSON text, reader, pretty, tree; bincode fixed and variable length) and back; the restored value must be equal, and must encode (and, if legal, decode again) like the original. Distinct by the canonical JSON of the packet and its version.",
        assumptions: vec!["serde, serde_json and bincode themselves are trusted"],
        phases,
        need: vec!["large packets", "json text", "json tree", "bincode", "bincode varint big endian", "restored packets encoded", "restored packets decoded", "decoded packets", "bytes turned into small values"],
        exhaustive: false,
    })
}

fn main() {
    mon::cli::main(build)
}
