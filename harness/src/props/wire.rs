//! Properties of the wire format seen from the decoder: C04, C10, C13, C17.
use super::codec::{must_encode, note, over_sources, wellformed};
use super::prims::judge;
use super::streams::*;
use super::*;
use crate::conv::*;
use crate::gen;
use crate::mutate;
use crate::refdec::{self, split, Split, Verdict};
use crate::refenc::{self, block, frame, put_prop, Style};
use crate::rng::hash_bytes;
use crate::run::{hex, Phase};
use crate::source::*;
use crate::spec::*;

// ------------------------------------------------------------------ C04

/// what may follow a frame: bytes a decoder that reads too far would happily use
const TAIL: &[u8] = &[0xd0, 0, 0, 1, b't', 0, 0, 2, 0x26, 0, 0, 0, 0];

fn o_c04(c: &mut Ctx, p: &MqttPacket, v: u8) {
    let (f, want) = refenc::encode(&mut c.rng, p, v, Style::Free);
    let (verdict, _) = refdec::decode_full(&f, if let MqttPacket::Connect(_) = p { 5 } else { v });
    match &verdict {
        Verdict::Accept(q) if *q == want => {}
        x => panic!("harness: writer and reader disagree on v{} {}: {:?} wanted {:?}", v, hex(&f), x, want),
    }
    c.eval(hash_bytes(&f) ^ v as u64, f.len() > 2);
    c.stat(TYPE_NAMES[type_no(p) as usize], 1);
    c.sample(|| format!("v{} {} <- {}", v, short(&hex(&f), 200), short(&format!("{:?}", want), 250)));
    let mut b = f.clone();
    b.extend_from_slice(TAIL);
    match dec_tail(c, &b, v, TAIL.len()) {
        Err(m) => c.fail("decode-panic", || format!("decoding a legal v{} frame panicked: {}", v, m), &f),
        Ok((Err(e), _)) => c.fail("refused-legal", || format!("a legal v{} frame was refused: {} packet {}", v, e, pd(&want)), &f),
        Ok((Ok(q), rest)) => {
            if q != want {
                c.fail("wrong-value", || format!("a legal v{} frame was read as {} instead of {}", v, pd(&q), pd(&want)), &f);
            } else if !rest {
                c.fail("wrong-length", || format!("reading v{} {} did not consume exactly the frame", v, pd(&want)), &f);
            } else {
                c.stat("legal frames read exactly", 1);
            }
        }
    }
}
/// every short form the standard allows, with every code
fn short_forms() -> Vec<(Vec<u8>, u8)> {
    let mut o: Vec<(Vec<u8>, u8)> = vec![];
    for (first, codes) in [
        (0x40u8, PUBACK_CODES.iter().map(|x| x.0).collect::<Vec<_>>()),
        (0x50, PUBACK_CODES.iter().map(|x| x.0).collect()),
        (0x62, PUBREL_CODES.iter().map(|x| x.0).collect()),
        (0x70, PUBREL_CODES.iter().map(|x| x.0).collect()),
    ] {
        for id in [1u16, 2, 0x0100, 0x1234, 0x7f80, 0xffff] {
            let i = id.to_be_bytes();
            for v in [3, 4, 5] {
                o.push((frame(first, &i), v));
            }
            for c in &codes {
                o.push((frame(first, &[i[0], i[1], *c]), 5));
                o.push((frame(first, &[i[0], i[1], *c, 0]), 5));
                o.push((frame(first, &[&[i[0], i[1], *c][..], &block(&[(0x1F, Val::Str("".into()))])].concat()), 5));
            }
        }
    }
    for v in [3, 4, 5] {
        for b in [0xc0, 0xd0, 0xe0] {
            o.push((vec![b, 0], v));
        }
    }
    for (c, _) in DISCONNECT_CODES {
        o.push((frame(0xe0, &[*c]), 5));
        o.push((frame(0xe0, &[*c, 0]), 5));
        o.push((frame(0xe0, &[*c, 5, 0x11, 0, 0, 0, 9]), 5));
    }
    o.push((vec![0xf0, 0], 5));
    for (c, _) in AUTH_CODES {
        o.push((frame(0xf0, &[&[*c][..], &block(&[(0x15, Val::Str("".into()))])].concat()), 5));
    }
    for c in CONNACK_CODES_V5 {
        o.push((frame(0x20, &[0, *c, 0]), 5));
    }
    // empty property blocks and minimal lists
    for p in PLACES {
        if p != Place::Auth {
            o.push((place_frame(p, &[0]), 5));
        }
    }
    for v in [3u8, 4] {
        o.push((vec![0xb0, 2, 0, 9], v));
        o.push((vec![0x90, 3, 0, 9, 0], v));
    }
    // empty optional texts and a zero-length payload
    o.push((frame(0x10, b"\0\x04MQTT\x04\x02\0\0\0\0"), 4));
    o.push((frame(0x10, b"\0\x04MQTT\x05\x00\0\0\0\0\0"), 5));
    o.push((frame(0x10, b"\0\x04MQTT\x05\xc2\0\0\0\0\0\0\0\0\0"), 5));
    o.push((frame(0x10, b"\0\x04MQTT\x05\x42\0\0\0\0\0\0\x01p"), 5));
    o.push((frame(0x30, b"\0\x01t"), 4));
    o.push((frame(0x30, b"\0\x01t\0"), 5));
    o.push((frame(0x30, b"\0\0\x03\x23\0\x01"), 5));
    o
}
fn short_form(c: &mut Ctx, l: &[(Vec<u8>, u8)]) {
    let (f, v) = &l[c.idx as usize];
    if !matches!(refdec::decode(f, *v), Verdict::Accept(_)) {
        panic!("harness: short form {} v{} is not legal: {:?}", hex(f), v, refdec::decode(f, *v));
    }
    c.eval(hash_bytes(f) ^ *v as u64, true);
    c.stat("short forms", 1);
    judge(c, f, *v, "short form");
}
/// every property alone and in every pair and order, in every place
fn ordered(c: &mut Ctx) {
    let place = PLACES[(c.idx % 14) as usize];
    let k = c.idx / 14;
    let ids = allowed(place);
    let n = ids.len() as u64;
    let (i, j) = ((k % 13) as usize, (k / 13 % 13) as usize);
    if i as u64 >= n || j as u64 >= n {
        return;
    }
    let mut l: PList = vec![(ids[i], gen::prop_val(&mut c.rng, place, ids[i]))];
    if i != j {
        l.push((ids[j], gen::prop_val(&mut c.rng, place, ids[j])));
    }
    if (place == Place::Auth || l.iter().any(|x| x.0 == 0x16)) && !l.iter().any(|x| x.0 == 0x15) {
        let at = c.rng.us(l.len() + 1);
        l.insert(at, (0x15, gen::prop_val(&mut c.rng, place, 0x15)));
    }
    let f = place_frame(place, &block(&l));
    c.eval(hash_bytes(&f), true);
    c.stat("property pairs", 1);
    judge(c, &f, 5, "property order");
}
/// fields that are binary in the standard and text in this crate
fn binary_as_text(c: &mut Ctx) {
    let d: &[u8] = &[0, 2, 0xff, 0xfe];
    let cases: [(&str, Vec<u8>, u8); 7] = [
        ("binary-will-payload", frame(0x10, &[b"\0\x04MQTT\x04\x06\0\x3c\0\x01c\0\x01w", d].concat()), 4),
        ("binary-will-payload-v5", frame(0x10, &[b"\0\x04MQTT\x05\x06\0\x3c\0\0\x01c\0\0\x01w", d].concat()), 5),
        ("binary-password", frame(0x10, &[b"\0\x04MQTT\x04\xc2\0\x3c\0\x01c\0\x01u", d].concat()), 4),
        ("binary-password-v5", frame(0x10, &[b"\0\x04MQTT\x05\xc2\0\x3c\0\0\x01c\0\x01u", d].concat()), 5),
        ("binary-connect-auth-data", place_frame(Place::Connect, &block(&[(0x15, Val::Str("m".into())), (0x16, Val::Bin(vec![0xff, 0xfe]))])), 5),
        ("binary-connack-auth-data", place_frame(Place::Connack, &block(&[(0x15, Val::Str("m".into())), (0x16, Val::Bin(vec![0xff, 0xfe]))])), 5),
        ("binary-auth-auth-data", place_frame(Place::Auth, &block(&[(0x15, Val::Str("m".into())), (0x16, Val::Bin(vec![0xff, 0xfe]))])), 5),
    ];
    let (sig, f, v) = &cases[c.idx as usize];
    c.eval(hash_bytes(f), true);
    c.stat("binary fields probed with bytes that are not UTF-8", 1);
    match c.guard(|| PacketDecoder::from_stream(Cursor::new(&f[..])).decode_packet(*v)) {
        Err(m) => c.fail("decode-panic", || m, f),
        Ok(Err(e)) => c.fail(sig, || format!("a legal v{} frame with binary data that is not UTF-8 is refused: {}", v, e), f),
        Ok(Ok(_)) => {}
    }
}
pub fn c04(env: &Env) -> Check<'_> {
    let mut phases = over_sources(env, &[], o_c04);
    let sf = short_forms();
    phases.push(Phase::new("short_forms", sf.len() as u64, move |c: &mut Ctx| short_form(c, &sf)));
    phases.push(Phase::new("property_pairs", 14 * 169 * env.n(20, 400), |c| ordered(c)));
    phases.push(Phase::new("binary_as_text", 7, binary_as_text).batch(1));
    Check {
        id: "C04",
        level: "exploration",
        rule: "Legal packets of every source written by an independent writer that picks any legal layout (property order, explicit or omitted defaults, short acknowledgement, DISCONNECT and AUTH forms), followed by foreign bytes; the decoded packet must equal the values written and the stream must stand right behind the frame. Distinct by frame bytes.",
        assumptions: vec!["the independent writer and reader (harness/src/refenc.rs, refdec.rs) transcribe the standards; they are cross-checked on every frame"],
        phases,
        need: vec!["legal frames read exactly", "short forms", "property pairs", "connect", "connack", "publish", "puback", "subscribe", "unsuback", "auth", "disconnect"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C10

const DEFECTS: [&str; 22] = [
    "reserved packet type 0",
    "wrong reserved header flags",
    "PUBLISH QoS 3",
    "will QoS 3",
    "subscription QoS 3",
    "field runs past its enclosing block",
    "property length exceeds the frame",
    "variable byte integer longer than four bytes",
    "text is not UTF-8",
    "unknown reason code",
    "unknown granted QoS",
    "unsupported protocol name",
    "unsupported protocol level",
    "reserved CONNECT flag",
    "reserved CONNACK flags",
    "will QoS or retain without will",
    "reserved subscription option bits",
    "retain handling 3",
    "empty SUBSCRIBE list",
    "empty SUBACK list",
    "empty UNSUBSCRIBE list",
    "UNSUBACK body below version 5 is not exactly an identifier",
];

/// the frame is decoded with foreign bytes behind it; a defective one must be refused
fn must_refuse(c: &mut Ctx, f: &[u8], v: u8, tag: &str) {
    let w = match refdec::decode(f, v) {
        Verdict::Reject(w) => w,
        _ => {
            c.stat("frames without the defects", 1);
            return;
        }
    };
    if w == "unknown property identifier" || w == "property not allowed here" {
        return; // another property's business
    }
    c.eval(hash_bytes(f) ^ v as u64, true);
    c.stat(w, 1);
    c.sample(|| format!("v{} {}: {}", v, w, short(&hex(f), 200)));
    let tail: &[u8] = match c.rng.below(4) {
        0 => &[],
        1 => &[0; 40],
        _ => b"\0\x01a\0\0\x01b\x01\0\x02cd\0\0\0\0\x01\x01\x01\x26\0\x01k\0\x01v\xd0\0",
    };
    let b = [f, tail].concat();
    match c.guard(|| PacketDecoder::from_stream(Cursor::new(&b)).decode_packet(v)) {
        Err(m) => c.fail("decode-panic", || format!("v{} {} ({}): {}", v, tag, w, m), f),
        Ok(Ok(p)) => c.fail(&format!("accepted: {}", w), || format!("v{} {}: accepted although {}: {}", v, tag, w, pd(&p)), f),
        Ok(Err(_)) => c.stat("malformed frames refused", 1),
    }
}
fn is_frame(f: &[u8]) -> bool {
    matches!(split(f), Split::Frame(h, l) if h + l == f.len())
}
fn random10(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let f = any_frame(&mut c.rng, v);
    must_refuse(c, &f, v, "random");
}
const BAD_UTF8: [&[u8]; 17] = [
    &[0x80],
    &[0xbf],
    &[0xc0, 0x80],
    &[0xc1, 0xbf],
    &[0xe0, 0x80, 0x80],
    &[0xe0, 0x9f, 0xbf],
    &[0xed, 0xa0, 0x80],
    &[0xed, 0xbf, 0xbf],
    &[0xf0, 0x80, 0x80, 0x80],
    &[0xf0, 0x8f, 0xbf, 0xbf],
    &[0xf4, 0x90, 0x80, 0x80],
    &[0xf5, 0x80, 0x80, 0x80],
    &[0xff],
    &[0xc3],
    &[0xe6, 0xbc],
    &[0xf0, 0x9f, 0x98],
    &[0xfe, b'a'],
];
/// every text of every packet, with every kind of broken UTF-8 at start, middle or end
fn bad_text(c: &mut Ctx) {
    let tps = text_props();
    let slots = (8 + tps.len()) as u64;
    let k = (c.idx % slots) as usize;
    let bad = BAD_UTF8[(c.idx / slots % 17) as usize];
    let at = c.idx / slots / 17 % 3;
    let v = [3u8, 4, 5][(c.idx / slots / 51 % 3) as usize];
    let n = *c.rng.pick(&[0usize, 1, 2, 7, 30, 126, 127, 128, 255, 256, 1000, 4095, 8200, 30000]);
    let (pre, post) = match at {
        0 => (0, n),
        1 => (n / 2, n - n / 2),
        _ => (n, 0),
    };
    // a placeholder of the same size, replaced on the wire
    let hole = "@".repeat(bad.len());
    let s = format!("{}{}{}", "a".repeat(pre), hole, "b".repeat(post));
    let (p, v) = if k < 8 { (field_packet(k, s.clone(), v), v) } else { (text_prop_packet(tps[k - 8], s.clone()), 5) };
    let (mut f, _) = refenc::encode(&mut c.rng, &p, v, Style::Free);
    let Some(i) = f.windows(s.len()).position(|w| w == s.as_bytes()) else { panic!("harness: text not in frame") };
    f[i + pre..i + pre + bad.len()].copy_from_slice(bad);
    c.stat("frames with broken UTF-8", 1);
    must_refuse(c, &f, v, "broken UTF-8");
}
/// one byte of a legal frame raised above 0x7f, anywhere
fn high_byte(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let mut f = legal_frame(&mut c.rng, v);
    let h = header_len(&f);
    if f.len() == h {
        return;
    }
    let i = c.rng.range(h, f.len() - 1);
    f[i] = *c.rng.pick(&[0x80u8, 0xff, 0xc3, 0xf0]);
    must_refuse(c, &f, v, "byte changed");
}
/// property lengths, inner lengths and list ends around the true value
fn lengths10(c: &mut Ctx) {
    let place = PLACES[c.rng.us(14)];
    let m = gen::mask_for(&mut c.rng, place);
    let l = gen::props_mask(&mut c.rng, place, m);
    let mut b = vec![];
    for (id, x) in &l {
        put_prop(&mut b, *id, x);
    }
    let f0 = place_frame(place, &block(&l));
    // bytes of the frame that follow the property length
    let blk = block(&l);
    let after = f0.len() - f0.windows(blk.len()).position(|w| w == blk.as_slice()).unwrap_or(0) - blk.len();
    let claim = match c.rng.below(8) {
        0 => b.len() + c.rng.range(1, 3),
        1 => b.len() + after + 1 + c.rng.us(3),
        2 => b.len().saturating_sub(c.rng.range(1, 3)),
        3 => c.rng.us(b.len() + 1),
        4 => *c.rng.pick(&[127usize, 128, 16383, 16384, 2097151, 2097152, 268435455]),
        5 => b.len() + after,
        6 => b.len() + 128,
        _ => b.len() ^ (1 << c.rng.below(8)),
    };
    let mut o = if c.rng.pct(10) { vec![0x80 | b.len() as u8, 0x80, 0x80, 0x80, c.rng.below(3) as u8] } else { varint(claim as u32) };
    o.extend_from_slice(&b);
    let f = place_frame(place, &o);
    c.stat("wrong property lengths", 1);
    must_refuse(c, &f, 5, "property length");
}
/// a subscription identifier of more than four bytes, everywhere one may stand
fn long_varints(c: &mut Ctx) {
    let place = [Place::Publish, Place::Subscribe][(c.idx % 2) as usize];
    let last = [1u8, 0x7f, 0, 0x80, 0x0f, 2][(c.idx / 2 % 6) as usize];
    let fill = [0x80u8, 0xff, 0x81][(c.idx / 12 % 3) as usize];
    let mut b = vec![0x0b, fill, fill, fill, fill, last];
    if last & 0x80 != 0 {
        b.push(1);
    }
    let before = c.idx / 36 % 2 == 1;
    if before {
        let mut x = vec![];
        put_prop(&mut x, 0x26, &Val::Pair("k".into(), "v".into()));
        b = [x, b].concat();
    }
    let mut o = varint(b.len() as u32);
    o.extend(b);
    let f = place_frame(place, &o);
    c.stat("over-long subscription identifiers", 1);
    must_refuse(c, &f, 5, "over-long variable byte integer");
}
/// a remaining length with a continuation bit in its fourth byte is no frame at all
fn bad_remaining(c: &mut Ctx) {
    let first = c.rng.u8();
    let mut b = vec![first];
    for _ in 0..4 {
        b.push(0x80 | c.rng.u8());
    }
    for _ in 0..c.rng.us(30) {
        b.push(if c.rng.bool() { c.rng.below(3) as u8 } else { c.rng.u8() });
    }
    let v = gen::version(&mut c.rng);
    c.eval(hash_bytes(&b), true);
    c.stat("remaining lengths of five bytes", 1);
    match c.guard(|| PacketDecoder::from_stream(Cursor::new(&b)).decode_packet(v)) {
        Err(m) => c.fail("decode-panic", || m, &b),
        Ok(Ok(p)) => c.fail("accepted: long remaining length", || format!("a remaining length longer than four bytes was accepted: {}", pd(&p)), &b),
        Ok(Err(_)) => c.stat("malformed frames refused", 1),
    }
}
/// one entry of a long list is bad, at any position
fn bad_entry(c: &mut Ctx) {
    let n = match c.rng.below(3) {
        0 => c.rng.range(1, 8),
        1 => c.rng.range(9, 200),
        _ => c.rng.range(200, 2000),
    };
    let at = match c.rng.below(3) {
        0 => 0,
        1 => n - 1,
        _ => c.rng.us(n),
    };
    let v = if c.rng.pct(60) { 5 } else { 3 + c.rng.below(2) as u8 };
    let mut b = vec![0, 9];
    if v == 5 {
        b.push(0);
    }
    let first;
    match c.rng.below(4) {
        0 => {
            first = 0x82;
            let bad = c.rng.u8();
            for i in 0..n {
                b.extend_from_slice(&[0, 1, b'f', if i == at { bad } else { (i % 3) as u8 }]);
            }
        }
        1 => {
            first = 0x90;
            let bad = c.rng.u8();
            for i in 0..n {
                b.push(if i == at { bad } else { [0, 1, 2, 0x80][i % 4] });
            }
        }
        2 => {
            first = 0xb0;
            let bad = c.rng.u8();
            for i in 0..n {
                b.push(if i == at { bad } else { [0, 0x11, 0x87, 0x80][i % 4] });
            }
        }
        _ => {
            // an entry longer than what is left of the frame
            first = 0xa2;
            for i in 0..n {
                if i == at {
                    let k = (n - i - 1) * 3 + 2 + c.rng.us(4);
                    b.extend_from_slice(&(k.min(65535) as u16).to_be_bytes());
                    b.push(b'x');
                } else {
                    b.extend_from_slice(&[0, 1, b'f']);
                }
            }
        }
    }
    c.stat("lists with one changed entry", 1);
    must_refuse(c, &frame(first, &b), v, "list entry");
}
pub fn c10(env: &Env) -> Check<'_> {
    let bases = base_frames();
    let re = reframed(&bases);
    let (nr, ns) = (re.len() as u64, sub_count(&bases));
    let slots = (8 + text_props().len()) as u64;
    let mut need: Vec<&'static str> = DEFECTS.to_vec();
    need.extend(["AUTH below version 5", "malformed frames refused", "frames with broken UTF-8", "remaining lengths of five bytes"]);
    Check {
        id: "C10",
        level: "exploration",
        rule: "Frames the independent reader refuses must be refused: every byte of every base frame replaced by all 256 values, every cut with the length adjusted, all first bytes, all codes in all packets, wrong property lengths, over-long variable byte integers, every text with every kind of broken UTF-8, one bad entry in lists up to 2000, and random damage; foreign bytes that would satisfy an over-read follow the frame. Distinct by frame and version; counts per defect class are recorded and each class must be seen.",
        assumptions: vec!["defects the statement does not name (repeated single-valued properties, surplus bytes, identifier 0, odd topics) get no verdict"],
        phases: vec![
            Phase::new("substitutions", ns, {
                let bases = base_frames();
                move |c: &mut Ctx| {
                    let (f, v) = substitutions(&bases, c.idx).unwrap();
                    if is_frame(&f) {
                        must_refuse(c, &f, v, "one byte replaced")
                    }
                }
            }),
            Phase::new("cuts", nr, move |c: &mut Ctx| {
                let (f, v) = re[c.idx as usize].clone();
                must_refuse(c, &f, v, "cut");
            }),
            Phase::new("headers", 256 * 3 * 30, {
                let bases = base_frames();
                move |c: &mut Ctx| {
                    let b = (c.idx % 256) as u8;
                    let v = [3u8, 4, 5][(c.idx / 256 % 3) as usize];
                    let k = c.rng.us(bases.len());
                    let body = &bases[k].0[header_len(&bases[k].0)..];
                    must_refuse(c, &frame(b, body), v, "first byte");
                }
            }),
            Phase::new("large", env.n(500, 12_000), |c: &mut Ctx| {
                let v = gen::version(&mut c.rng);
                let f = super::streams::large_damaged(&mut c.rng, v, 4_300_000);
                c.stat("large damaged frames", 1);
                must_refuse(c, &f, v, "large")
            }).batch(2),
            Phase::new("bad_text", slots * 17 * 9 * env.n(2, 30), bad_text),
            Phase::new("long_varints", 144, long_varints),
            Phase::new("bad_remaining", env.rn(20_000, 1_000_000), bad_remaining),
            Phase::new("property_lengths", env.rn(300_000, 10_000_000), lengths10),
            Phase::new("list_entries", env.rn(60_000, 2_000_000), bad_entry),
            Phase::new("high_bytes", env.rn(400_000, 15_000_000), high_byte),
            Phase::new("random", env.rn(1_000_000, 40_000_000), random10),
        ],
        need,
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C13

/// encodings a property value of unknown type might have
fn raw_values(r: &mut crate::rng::Rng) -> Vec<Vec<u8>> {
    vec![
        vec![],
        vec![0],
        vec![1],
        vec![r.u8()],
        vec![0, 1],
        vec![r.u8(), r.u8()],
        vec![0, 0],
        vec![0, 0, 0, 5],
        vec![r.u8(), r.u8(), r.u8(), r.u8()],
        vec![0x80, 1],
        vec![0, 1, b's'],
        vec![0, 2, 0xff, 0xfe],
        vec![0, 1, b'k', 0, 1, b'v'],
        vec![0, 0, 0, 0],
        vec![0xff, 0xff, 0xff, 0x7f],
    ]
}
/// every identifier in every place, alone and among allowed ones, with every value shape
fn identifiers(c: &mut Ctx) {
    let id = (c.idx % 256) as u8;
    let place = PLACES[(c.idx / 256 % 14) as usize];
    let round = c.idx / 256 / 14;
    let mut vals: Vec<Vec<u8>> = raw_values(&mut c.rng);
    if wire_type(id).is_some() {
        for _ in 0..3 {
            let x = gen::prop_val(&mut c.rng, place, id);
            let mut b = vec![];
            put_prop(&mut b, id, &x);
            vals.push(b[1..].to_vec());
        }
    }
    for val in vals {
        let one = [&[id][..], &val].concat();
        // alone, then first, last and in the middle of other properties
        for pos in 0..4 {
            let m = gen::mask_for(&mut c.rng, place);
            let others = if pos == 0 && round % 2 == 0 { vec![] } else { gen::props_mask(&mut c.rng, place, m) };
            let others: PList = others.into_iter().filter(|x| x.0 != id).collect();
            let cutpoint = match pos {
                1 => 0,
                2 => others.len(),
                _ => c.rng.us(others.len() + 1),
            };
            let mut b = vec![];
            for (i, (k, x)) in others.iter().enumerate() {
                if i == cutpoint {
                    b.extend_from_slice(&one);
                }
                put_prop(&mut b, *k, x);
            }
            if cutpoint >= others.len() {
                b.extend_from_slice(&one);
            }
            let mut blk = varint(b.len() as u32);
            blk.extend_from_slice(&b);
            let f = place_frame(place, &blk);
            c.eval(hash_bytes(&f), true);
            c.stat(if allowed(place).contains(&id) { "allowed identifiers tried" } else { "other identifiers tried" }, 1);
            judge(c, &f, 5, "property");
        }
    }
}
fn o_c13(c: &mut Ctx, p: &MqttPacket, v: u8) {
    let Some(b) = must_encode(c, p, v) else { return };
    note(c, p, v, &b);
    wellformed(c, p, v, &b, true);
    // the mark of a property set nobody has touched does not take back what was set
    if let MqttPacket::Connack(k) = p {
        if let Some(pr) = &k.properties {
            let mut q = k.clone();
            q.properties = Some(ConnackProperties { is_default: !pr.is_default, ..pr.clone() });
            c.stat("property sets with the other mark", 1);
            match enc(c, &MqttPacket::Connack(q), v) {
                Ok(Ok(o)) if super::streams::same_frame(&o, &b, v) => {}
                Ok(o) => c.fail("mark", || format!("v{}: with is_default turned round {:?} instead of {}: {}", v, o.map(|x| hex(&x)), hex(&b), pd(p)), &b),
                Err(m) => c.fail("encode-panic", || m, &b),
            }
        }
    }
    // and the other way round, in any layout
    let (f, want) = refenc::encode(&mut c.rng, p, v, Style::Free);
    match dec_tail(c, &f, v, 0) {
        Err(m) => c.fail("decode-panic", || m, &f),
        Ok((Err(e), _)) => c.fail("refused-legal", || format!("allowed properties refused: {} packet {}", e, pd(&want)), &f),
        Ok((Ok(q), _)) if q != want => c.fail("wrong-value", || format!("properties read as {} instead of {}", pd(&q), pd(&want)), &f),
        Ok(_) => c.stat("property sets read", 1),
    }
}
/// property sets with values nobody should send: still at most once, only allowed ones, none dropped
fn hostile13(c: &mut Ctx) {
    let (p, _) = gen::hostile(&mut c.rng);
    match enc(c, &p, 5) {
        Err(m) => c.fail("encode-panic", || m, &[]),
        Ok(Err(_)) => c.stat("refused", 1),
        Ok(Ok(b)) => {
            c.eval(hash_bytes(&b), true);
            c.stat("hostile packets encoded", 1);
            wellformed(c, &p, 5, &b, false);
        }
    }
}
/// identifiers that are not written in one byte
fn wide_ids(c: &mut Ctx) {
    let place = PLACES[(c.idx % 14) as usize];
    let n = 128 + (c.idx / 14 % 4096) as u32 * 31;
    let mut b = varint(n);
    b.extend_from_slice(&[0, 1, b's']);
    let mut blk = varint(b.len() as u32);
    blk.extend(b);
    let f = place_frame(place, &blk);
    c.eval(hash_bytes(&f), true);
    c.stat("identifiers above 127", 1);
    judge(c, &f, 5, "wide identifier");
}
pub fn c13(env: &Env) -> Check<'_> {
    let mut phases = vec![Phase::new("identifiers", 256 * 14 * env.n(6, 100), identifiers), Phase::new("wide_identifiers", 14 * 4096, wide_ids)];
    phases.extend(over_sources(
        env,
        &["payload_sizes", "every_u16_field", "field_lengths"],
        o_c13,
    ));
    phases.push(Phase::new("hostile", env.rn(300_000, 10_000_000), hostile13));
    Check {
        id: "C13",
        level: "exploration",
        rule: "Every identifier 0 to 255 in all 14 property places, with 15 to 18 value encodings, alone, first, last and among other properties, decoded and judged by the independent reader; every subset of the allowed properties of every place, all 16-bit and edge 32-bit values, encoded and decoded. Distinct by frame bytes.",
        assumptions: vec!["a single-valued property sent twice gets no verdict on acceptance", "property values the standard calls protocol errors (0 for Receive Maximum and the like, booleans above 1) get no verdict on acceptance"],
        phases,
        need: vec!["allowed identifiers tried", "other identifiers tried", "malformed frames refused", "legal frames read", "property sets read", "frames read back by the reference reader"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C17

fn may_refuse(p: &MqttPacket) -> bool {
    match p {
        MqttPacket::Connect(k) => (k.client_id.is_empty() && !k.clean_session) || (k.password.is_some() && k.user_name.is_none()),
        _ => false,
    }
}
/// a SUBSCRIBE may hold the identifier 0, which MQTT forbids; it denotes the absent one
fn no_zero_id(p: &MqttPacket) -> Option<MqttPacket> {
    match p {
        MqttPacket::Subscribe(k) => match &k.properties {
            Some(x) if x.subscription_identifier == 0 && x.user_properties.is_empty() => {
                Some(MqttPacket::Subscribe(SubscribePacket { properties: None, ..k.clone() }))
            }
            _ => None,
        },
        _ => None,
    }
}
/// decode, encode, decode
fn forward(c: &mut Ctx, f: &[u8], v: u8, legal: bool) {
    let r = c.guard(|| {
        let p = match PacketDecoder::from_stream(Cursor::new(f)).decode_packet(v) {
            Ok(p) => p,
            Err(_) => return None,
        };
        let e = p.clone().encode(v);
        let q = e.as_ref().ok().map(|b| {
            let mut d = PacketDecoder::from_stream(Cursor::new(&b[..]));
            let q = d.decode_packet(v);
            let rest = d.has_more();
            (q, rest)
        });
        Some((p, e, q))
    });
    match r {
        Err(m) => c.fail("forward-panic", || format!("v{}: {}", v, m), f),
        Ok(None) => c.stat("frames not decoded", 1),
        Ok(Some((p, Err(e), _))) => {
            c.stat("re-encoding refused", 1);
            c.eval(hash_bytes(f) ^ v as u64, true);
            if legal && !may_refuse(&p) {
                c.fail("forward-refused", || format!("v{} packet from a legal frame cannot be encoded again: {} packet {}", v, e, pd(&p)), f);
            }
        }
        Ok(Some((p, Ok(b), q))) => {
            c.eval(hash_bytes(f) ^ v as u64, true);
            c.sample(|| format!("v{} {} -> {} -> {}", v, short(&hex(f), 120), short(&format!("{:?}", p), 200), short(&hex(&b), 120)));
            let (q, rest) = q.unwrap();
            match q {
                Ok(q) if (q == p || no_zero_id(&p).map_or(false, |z| !legal && z == q)) && !rest => c.stat(if legal { "legal frames forwarded" } else { "other frames forwarded" }, 1),
                Ok(q) if q == p => c.fail("forward-rest", || format!("v{} forwarding {} left bytes behind the frame", v, pd(&p)), f),
                x => c.fail("forward-changed", || format!("v{} forwarding changed {} into {} (frame {})", v, pd(&p), show(&x), short(&hex(&b), 200)), f),
            }
        }
    }
}
fn o_c17(c: &mut Ctx, p: &MqttPacket, v: u8) {
    let (f, _) = refenc::encode(&mut c.rng, p, v, Style::Free);
    forward(c, &f, v, true);
}
fn damaged17(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let f = if c.rng.pct(60) {
        let g = legal_frame(&mut c.rng, v);
        mutate::framed(&mut c.rng, &g)
    } else {
        any_frame(&mut c.rng, v)
    };
    let legal = matches!(refdec::decode(&f, v), Verdict::Accept(_));
    forward(c, &f, v, legal);
}
pub fn c17(env: &Env) -> Check<'_> {
    let bases = base_frames();
    let ns = sub_count(&bases);
    let mut phases = over_sources(env, &[], o_c17);
    phases.push(Phase::new("substitutions", ns, move |c: &mut Ctx| {
        let (f, v) = substitutions(&bases, c.idx).unwrap();
        if is_frame(&f) {
            let legal = matches!(refdec::decode(&f, v), Verdict::Accept(_));
            forward(c, &f, v, legal);
        }
    }));
    let sf = short_forms();
    phases.push(Phase::new("short_forms", sf.len() as u64, move |c: &mut Ctx| {
        let (f, v) = sf[c.idx as usize].clone();
        forward(c, &f, v, true)
    }));
    phases.push(Phase::new("damaged", env.rn(1_000_000, 40_000_000), damaged17));
    Check {
        id: "C17",
        level: "exploration",
        rule: "Frames in any legal layout, every one-byte substitution of the base frames, short forms and damaged frames: whatever the decoder accepts is encoded at the same version and decoded again, and must be equal. Distinct by frame and version.",
        assumptions: vec!["refusal is only judged for frames the independent reader calls legal"],
        phases,
        need: vec!["legal frames forwarded", "other frames forwarded", "frames not decoded"],
        exhaustive: false,
    }
}
