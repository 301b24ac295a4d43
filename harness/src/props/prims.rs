//! Properties of the primitive layer: C11 (wire types), C12 (codes and flags), C15 (nested limits).
use super::*;
use crate::gen;
use crate::io::{Chunks, Fault};
use crate::refdec::{self, Verdict};
use crate::refenc::{block, frame};
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::{hex, Phase};
use crate::source::*;
use crate::spec::*;
use mqtt_packet_3_5::connect::ConnectFlags;
use mqtt_packet_3_5::mqtt_writer::MqttWriter;
use std::io::ErrorKind;

/// writer calls may or may not report success; both shapes are understood
pub trait Wrote {
    fn wrote(self) -> bool;
}
impl Wrote for () {
    fn wrote(self) -> bool {
        true
    }
}
impl Wrote for Res<()> {
    fn wrote(self) -> bool {
        self.is_ok()
    }
}

fn reader(b: &[u8]) -> ByteReader<Cursor<&[u8]>> {
    ByteReader::new(BufReader::with_capacity(64, Cursor::new(b)))
}

// ------------------------------------------------------------------ C11

const CHUNK: u64 = 1 << 14;

/// all variable byte integers, a chunk of consecutive values per case
fn varints(c: &mut Ctx) {
    let lo = c.idx * CHUNK;
    let hi = (lo + CHUNK).min(VARINT_MAX as u64 + 1);
    let r = c.guard(|| {
        let mut want = vec![];
        let mut w = MqttWriter::new(16);
        for n in lo..hi {
            let e = varint(n as u32);
            if MqttWriter::encode_variable_num(n as u32) != e {
                return Err(format!("encode_variable_num({}) gives {}", n, hex(&MqttWriter::encode_variable_num(n as u32))));
            }
            if !w.write_variable_num(n as u32).wrote() {
                return Err(format!("write_variable_num({}) refused", n));
            }
            want.extend_from_slice(&e);
        }
        let got = w.into_vec();
        if got != want {
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!("write_variable_num output differs near value {} (byte {})", lo + (k as u64) / 4, k));
        }
        let mut rd = ByteReader::new(BufReader::new(Cursor::new(&want[..])));
        for n in lo..hi {
            match rd.read_variable_int() {
                Ok(x) if x as u64 == n => {}
                o => return Err(format!("read_variable_int gives {:?} for {}", o, n)),
            }
        }
        if rd.has_more() {
            return Err(format!("reading back {}..{} left bytes over", lo, hi));
        }
        Ok(())
    });
    c.stat("variable byte integers written and read", hi - lo);
    c.eval(mix(c.idx), true);
    match r {
        Err(m) => c.fail("varint-panic", || format!("{}..{}: {}", lo, hi, m), &[]),
        Ok(Err(m)) => c.fail("varint", || m, &[]),
        Ok(Ok(())) => {}
    }
}
/// refused values and sequences
fn varint_refused(c: &mut Ctx) {
    let i = c.idx;
    let r = &mut c.rng;
    let n = match i {
        0..=4095 => VARINT_MAX as u64 + 1 + i,
        4096..=8191 => u32::MAX as u64 - (i - 4096),
        _ => r.range(VARINT_MAX as usize + 1, u32::MAX as usize) as u64,
    } as u32;
    // four bytes with the continuation bit set, then anything
    let mut b: Vec<u8> = (0..4).map(|_| 0x80 | r.u8()).collect();
    if i % 5 == 0 {
        b = vec![0x80 | (i / 5 % 128) as u8; 4];
    }
    let k = r.us(4);
    for _ in 0..k {
        b.push(r.u8());
    }
    let x = c.guard(|| {
        let mut w = MqttWriter::new(4);
        let wrote = w.write_variable_num(n).wrote();
        (wrote, w.into_vec(), reader(&b).read_variable_int())
    });
    c.sample(|| hex(&b));
    c.eval(hash_bytes(&b) ^ n as u64, true);
    c.stat("over-long variable byte integers offered", 2);
    match x {
        Err(m) => c.fail("varint-panic", || m, &b),
        Ok((wrote, out, read)) => {
            if wrote {
                c.fail("varint-too-large-written", || format!("write_variable_num({}) succeeded with {}", n, hex(&out)), &[]);
            }
            if let Ok(v) = read {
                c.fail("varint-five-bytes-read", || format!("read_variable_int accepted {} as {}", hex(&b), v), &b);
            }
        }
    }
}
/// over-long sequences whose bytes are as regular as padding would make them
fn varint_padding(c: &mut Ctx) {
    const FILL: [u8; 6] = [0x80, 0x81, 0xff, 0xfe, 0xc0, 0x8f];
    const LAST: [Option<u8>; 6] = [Some(0), Some(1), Some(0x7f), Some(0x80), Some(0xff), None];
    let (at, x) = ((c.idx % 4) as usize, (c.idx / 4 % 128) as u8 | 0x80);
    let mut seqs = vec![];
    for fill in FILL {
        for last in LAST {
            for more in [0usize, 1, 3] {
                let mut b = vec![fill; 4];
                b[at] = x;
                if let Some(l) = last {
                    b.push(l);
                    b.extend(vec![0; more]);
                }
                seqs.push(b);
            }
        }
    }
    c.eval(mix(c.idx), true);
    c.stat("over-long variable byte integers offered", seqs.len() as u64);
    for b in seqs {
        match c.guard(|| reader(&b).read_variable_int()) {
            Err(m) => c.fail("varint-panic", || m, &b),
            Ok(Ok(v)) => c.fail("varint-five-bytes-read", || format!("read_variable_int accepted {} as {}", hex(&b), v), &b),
            Ok(Err(_)) => {}
        }
    }
}
/// sequences of one to four bytes, minimal or not, cut or followed by other bytes
fn varint_sequences(c: &mut Ctx) {
    let i = c.idx;
    let r = &mut c.rng;
    let width = 1 + (i % 4) as usize;
    let n = match r.below(3) {
        0 => r.below(1 << 28) as u32,
        1 => r.below(300) as u32,
        _ => (1u32 << r.below(28)).wrapping_add(r.below(3) as u32).wrapping_sub(1),
    } & ((1u64 << (7 * width)) - 1) as u32;
    let b = varint_padded(n, width);
    let minimal = varint(n) == b;
    let mut f = b.clone();
    let tail: Vec<u8> = (0..1 + r.us(3)).map(|_| r.u8()).collect();
    f.extend_from_slice(&tail);
    let cut = b[..r.us(b.len())].to_vec();
    let x = c.guard(|| {
        let mut rd = reader(&f);
        let v = rd.read_variable_int();
        let rest = rd.read_len(tail.len() as u32);
        let more = rd.has_more();
        (v, rest, more, reader(&cut).read_variable_int())
    });
    c.sample(|| hex(&f));
    c.eval(hash_bytes(&f), true);
    c.stat("variable byte integer sequences", 1);
    match x {
        Err(m) => c.fail("varint-panic", || m, &f),
        Ok((v, rest, more, t)) => {
            match v {
                Ok(x) if x == n => {
                    if rest.as_deref() != Ok(&tail[..]) || more {
                        c.fail("varint-consumed", || format!("reading {} consumed the wrong number of bytes", hex(&f)), &f);
                    }
                }
                Err(_) if !minimal => {}
                o => c.fail("varint-read", || format!("{} read as {:?}, expected {}", hex(&b), o, n), &f),
            }
            if let Ok(x) = t {
                c.fail("varint-cut", || format!("cut sequence {} read as {}", hex(&cut), x), &cut);
            }
        }
    }
}

fn fixed_ints(c: &mut Ctx) {
    let i = c.idx;
    let r = &mut c.rng;
    let x16 = i as u16;
    let x8 = i as u8;
    let x32 = match i % 4 {
        0 => (i as u32).wrapping_mul(65537),
        1 => 1u32 << (i / 4 % 32),
        2 => u32::MAX << (i / 4 % 32),
        _ => r.next() as u32,
    };
    let mut want = vec![];
    want.extend_from_slice(&x16.to_be_bytes());
    want.push(x8);
    want.extend_from_slice(&x32.to_be_bytes());
    want.push(x8);
    want.extend_from_slice(&x16.to_be_bytes());
    let x = c.guard(|| {
        let mut w = MqttWriter::new(1);
        w.write_u16(x16);
        w.write_u8(x8);
        w.write_u32(x32);
        w.write_vec(vec![x8]);
        w.write_slice(&x16.to_be_bytes());
        let out = w.into_vec();
        let mut rd = reader(&want);
        let got = (rd.read_u16(), rd.read_u8(), rd.read_u32(), rd.read_bool_byte(), rd.read_u16(), rd.has_more());
        let mut cut = (true, true);
        for k in 0..2 {
            cut.0 &= reader(&want[..k]).read_u16().is_err();
        }
        for k in 0..4 {
            cut.1 &= reader(&want[..k]).read_u32().is_err();
        }
        (out, got, cut, MqttWriter::encode_multibyte_num(x16 as u32))
    });
    c.sample(|| hex(&want));
    c.eval(hash_bytes(&want), true);
    c.stat("fixed-width integers", 4);
    match x {
        Err(m) => c.fail("int-panic", || m, &want),
        Ok((out, got, cut, mb)) => {
            if out != want {
                c.fail("int-write", || format!("wrote {} instead of {}", hex(&out), hex(&want)), &want);
            }
            if got != (Ok(x16), Ok(x8), Ok(x32), Ok(x8 != 0), Ok(x16), false) {
                c.fail("int-read", || format!("read {:?} from {}", got, hex(&want)), &want);
            }
            if cut != (true, true) {
                c.fail("int-cut", || "an integer was read from too few bytes".into(), &want);
            }
            if mb != x16.to_be_bytes() {
                c.fail("int-multibyte", || format!("encode_multibyte_num({}) = {}", x16, hex(&mb)), &[]);
            }
        }
    }
}

/// property values through the writer and the reader themselves, owned and borrowed, in any sequence
fn property_values(c: &mut Ctx) {
    let r = &mut c.rng;
    let n = r.us(6);
    let mut plan: Vec<(u8, Val)> = vec![];
    for _ in 0..n {
        let id = *r.pick(&[0x01u8, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C, 0x1F, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A]);
        let mut x = gen::prop_val(r, Place::Connack, id);
        if r.permille(15) {
            match &mut x {
                Val::Str(s) => *s = "x".repeat(65_536 + r.us(300)),
                Val::Bin(b) => *b = vec![b'y'; 65_536 + r.us(300)],
                Val::Var(k) => *k = VARINT_MAX + 1 + r.below(1 << 20) as u32,
                Val::Pair(k, s) => *(if r.bool() { k } else { s }) = "z".repeat(65_536 + r.us(300)),
                _ => {}
            }
        }
        plan.push((id, x));
    }
    let mut want = vec![];
    let mut fits = true;
    for (id, x) in &plan {
        match x {
            Val::Str(s) if s.len() > 65_535 => fits = false,
            Val::Bin(b) if b.len() > 65_535 => fits = false,
            Val::Var(k) if *k > VARINT_MAX => fits = false,
            Val::Pair(k, s) if k.len() > 65_535 || s.len() > 65_535 => fits = false,
            _ => crate::refenc::put_prop(&mut want, *id, x),
        }
    }
    let owned = r.bool();
    let maps: Vec<UserProperties> = plan
        .iter()
        .map(|(_, x)| {
            let mut m = UserProperties::new();
            if let Val::Pair(k, s) = x {
                m.entry(k.clone()).or_default().push(s.clone());
            }
            m
        })
        .collect();
    let pairs: Vec<(u8, PropType)> = plan
        .iter()
        .zip(&maps)
        .map(|((id, x), m)| {
            (*id, match x {
                Val::Bool(b) => PropType::Bool(*b != 0),
                Val::U8(b) => PropType::U8(*b),
                Val::U16(b) => PropType::U16(*b),
                Val::U32(b) => PropType::U32(*b),
                Val::Var(b) => PropType::VarInt(*b),
                Val::Str(s) if owned => PropType::String(s.clone()),
                Val::Str(s) => PropType::Str(s),
                Val::Bin(b) => match std::str::from_utf8(b) {
                    // this crate treats some binary fields as text
                    Ok(s) if wire_type(*id) == Some(WT::TextBin) => if owned { PropType::String(s.to_string()) } else { PropType::Str(s) },
                    _ if owned => PropType::Binary(b.clone()),
                    _ => PropType::BinaryRef(b),
                },
                Val::Pair(..) if owned => PropType::Map(m.clone()),
                Val::Pair(..) => PropType::MapRef(m),
            })
        })
        .collect();
    c.eval(hash_bytes(&want) ^ owned as u64, n > 0);
    c.sample(|| hex(&want));
    let x = c.guard(|| {
        let mut w = MqttWriter::new(7);
        let ok = w.write_properties(pairs).wrote();
        (ok, w.into_vec())
    });
    let show = || format!("{} of {}", if owned { "owned values" } else { "borrowed values" }, short(&format!("{:?}", plan), 300));
    match x {
        Err(m) => return c.fail("props-panic", || format!("{}: {}", show(), m), &want),
        Ok((ok, _)) if !fits => {
            c.stat("property values that do not fit offered", 1);
            if ok {
                c.fail("props-too-long", || format!("written: {}", show()), &want[..want.len().min(100)]);
            }
            return;
        }
        Ok((ok, out)) => {
            c.stat("property values written", n as u64);
            if !ok || out != want {
                return c.fail("props-write", || format!("{}: {} instead of {}", show(), if ok { short(&hex(&out), 300) } else { "refused".into() }, short(&hex(&want), 300)), &want);
            }
        }
    }
    // and back: the values in their order, the user properties behind them
    let mut block = varint(want.len() as u32);
    block.extend_from_slice(&want);
    block.extend_from_slice(&[0xc0, 0]);
    let mut users = UserProperties::new();
    let mut flat = vec![];
    for (id, x) in &plan {
        match x {
            Val::Pair(k, s) => users.entry(k.clone()).or_default().push(s.clone()),
            x => flat.push((*id, x.clone())),
        }
    }
    flat.sort_by_key(|x| x.0);
    let y = c.guard(|| {
        let mut rd = reader(&block);
        let got = rd.read_properties().map(|o| {
            let mut flat = vec![];
            let mut users = UserProperties::new();
            let mut odd = 0;
            for (id, v) in o.unwrap_or_default() {
                match (v, wire_type(id)) {
                    (PropType::Bool(b), Some(WT::Bool)) => flat.push((id, Val::Bool(b as u8))),
                    (PropType::U8(b), Some(WT::U8)) => flat.push((id, Val::U8(b))),
                    (PropType::U16(b), Some(WT::U16)) => flat.push((id, Val::U16(b))),
                    (PropType::U32(b), Some(WT::U32)) => flat.push((id, Val::U32(b))),
                    (PropType::VarInt(b), Some(WT::Var)) => flat.push((id, Val::Var(b))),
                    (PropType::String(s), Some(WT::Str)) => flat.push((id, Val::Str(s))),
                    (PropType::Str(s), Some(WT::Str)) => flat.push((id, Val::Str(s.to_string()))),
                    (PropType::String(s), Some(WT::TextBin)) => flat.push((id, Val::Bin(s.into_bytes()))),
                    (PropType::Binary(b), Some(WT::Bin | WT::TextBin)) => flat.push((id, Val::Bin(b))),
                    (PropType::BinaryRef(b), Some(WT::Bin | WT::TextBin)) => flat.push((id, Val::Bin(b.to_vec()))),
                    (PropType::Pair(k, v), Some(WT::Pair)) => users.entry(k).or_default().push(v),
                    (PropType::Map(m), Some(WT::Pair)) => m.into_iter().for_each(|(k, v)| users.entry(k).or_default().extend(v)),
                    _ => odd += 1,
                }
            }
            // which kind comes first is of no account
            flat.sort_by_key(|x| x.0);
            (flat, users, odd)
        });
        (got, rd.read_len(2).map_or(false, |t| t == [0xc0, 0]), rd.has_more())
    });
    match y {
        Err(m) => c.fail("props-panic", || format!("{}: {}", show(), m), &block),
        Ok((Ok((f, u, 0)), true, false)) if f == flat && u == users => c.stat("property values read", n as u64),
        Ok((g, behind, more)) => c.fail("props-read", || format!("{} read as {} (right behind the block: {}, more data: {})", show(), short(&format!("{:?}", g), 300), behind, more), &block),
    }
}
fn texts_of(c: &mut Ctx, n: usize) {
    let i = c.idx;
    let s = gen::text_n(&mut c.rng, n);
    let s = if s.len() == n { s } else { (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect() };
    let data: Vec<u8> = if c.rng.bool() { s.bytes().rev().collect() } else { (0..n).map(|k| (k as u64 ^ i) as u8).collect() };
    let tail = [0x00, 0xff, 0x80];
    let mut ts = (n as u16).to_be_bytes().to_vec();
    ts.extend_from_slice(s.as_bytes());
    let mut tb = (n as u16).to_be_bytes().to_vec();
    tb.extend_from_slice(&data);
    let cutat = c.rng.us(n + 2);
    let x = c.guard(|| {
        let mut outs = vec![];
        let mut w = MqttWriter::new(1);
        let k = w.write_utf8_string(s.clone()).wrote();
        outs.push((k, w.into_vec()));
        let mut w = MqttWriter::new(1);
        let k = w.write_utf8_str(&s).wrote();
        outs.push((k, w.into_vec()));
        let mut w = MqttWriter::new(1);
        let k = w.write_binary(data.clone()).wrote();
        outs.push((k, w.into_vec()));
        let mut w = MqttWriter::new(1);
        let k = w.write_binary_ref(&data).wrote();
        outs.push((k, w.into_vec()));
        if n > 65535 {
            return Err(outs);
        }
        let mut fs = ts.clone();
        fs.extend_from_slice(&tail);
        let mut fb = tb.clone();
        fb.extend_from_slice(&tail);
        let mut rs = ByteReader::new(BufReader::with_capacity(61, Stream::new(&fs).chunks(Chunks::Fixed(4097))));
        let mut rb = reader(&fb);
        let a = (rs.read_utf8_string(), rs.read_len(3).map_or(false, |x| x == tail), rs.has_more());
        let b = (rb.read_binary(), rb.read_len(3).map_or(false, |x| x == tail), rb.has_more());
        let cut = (reader(&ts[..cutat]).read_utf8_string().is_err(), reader(&tb[..cutat]).read_binary().is_err());
        Ok((outs, a, b, cut))
    });
    c.eval(hash_bytes(&ts) ^ mix(n as u64), true);
    match x {
        Err(m) => c.fail("text-panic", || format!("length {}: {}", n, m), &[]),
        Ok(Err(outs)) => {
            c.stat("over-long texts offered", 4);
            for (k, (wrote, o)) in outs.iter().enumerate() {
                if *wrote {
                    c.fail("text-too-long-written", || format!("writer {} accepted {} bytes, output starts {}", k, n, hex(&o[..4.min(o.len())])), &[]);
                }
            }
        }
        Ok(Ok((outs, a, b, cut))) => {
            c.stat("texts and binaries written and read", 4);
            for (k, (wrote, o)) in outs.iter().enumerate() {
                if !wrote || *o != *if k < 2 { &ts } else { &tb } {
                    c.fail("text-write", || format!("writer {} gave {} for {} bytes", k, hex(o), n), &ts);
                }
            }
            if a != (Ok(s.clone()), true, false) {
                c.fail("text-read", || format!("text of {} bytes read back as {}", n, short(&format!("{:?}", a), 200)), &ts);
            }
            if b != (Ok(data.clone()), true, false) {
                c.fail("binary-read", || format!("binary of {} bytes read back as {}", n, short(&format!("{:?}", b), 200)), &tb);
            }
            if cut != (true, true) {
                c.fail("text-cut", || format!("text or binary of {} bytes was read from {} bytes", n, cutat), &ts);
            }
        }
    }
}

/// byte sequences that are (not) UTF-8
fn utf8_read(c: &mut Ctx) {
    let i = c.idx;
    let r = &mut c.rng;
    let b: Vec<u8> = if i < 1 << 16 {
        vec![(i >> 8) as u8, i as u8]
    } else if i < (1 << 16) + 4096 * 16 {
        // every lead byte class with every second byte
        let k = i - (1 << 16);
        vec![0xe0 + (k >> 12 & 0x1f) as u8, (k >> 4 & 0xff) as u8, 0x80 | (k & 15) as u8, 0x80 + r.u8() % 64]
    } else {
        let mut s = gen::text(r).into_bytes();
        s.truncate(200);
        let k = r.us(3);
        for _ in 0..k {
            let at = r.us(s.len() + 1);
            s.insert(at, *r.pick(&[0x80u8, 0xbf, 0xc0, 0xc1, 0xed, 0xf4, 0xf5, 0xfe, 0xff, 0xe2, 0xf0]));
        }
        s
    };
    let mut f = (b.len() as u16).to_be_bytes().to_vec();
    f.extend_from_slice(&b);
    let x = c.guard(|| (reader(&f).read_utf8_string(), reader(&f).read_binary()));
    c.sample(|| hex(&f));
    c.eval(hash_bytes(&f), true);
    match x {
        Err(m) => c.fail("text-panic", || m, &f),
        Ok((s, d)) => {
            match (std::str::from_utf8(&b), s) {
                (Ok(w), Ok(g)) if w == g => c.stat("valid UTF-8 read", 1),
                (Ok(w), Err(_)) if crate::refdec::suspicious(w) => {}
                (Err(_), Err(_)) => c.stat("invalid UTF-8 refused", 1),
                (w, g) => c.fail("utf8", || format!("{} read as {:?}, UTF-8 says {:?}", hex(&b), g, w), &f),
            }
            if d.as_deref() != Ok(&b[..]) {
                c.fail("binary-read", || format!("{} read as {:?}", hex(&b), d), &f);
            }
        }
    }
}

pub fn c11(env: &Env) -> Check<'_> {
    let n = (VARINT_MAX as u64 + 1).div_ceil(CHUNK);
    let mut lens: Vec<usize> = length_list();
    if env.n(0, 1) == 1 {
        lens = (0..=65535).collect();
    }
    lens.extend(65536..65600);
    lens.extend([65536 + 127, 65536 + 255, 65536 + 256, 70000, 100_000, 131_071, 131_072, 131_073, 200_000, 1 << 20]);
    let nl = lens.len() as u64;
    let phases = vec![
        Phase::new("every_varint", n, varints).batch(16),
        Phase::new("varint_refused", env.rn(300_000, 20_000_000), varint_refused),
        Phase::new("varint_padding", 512, varint_padding),
        Phase::new("varint_sequences", env.rn(1_000_000, 50_000_000), varint_sequences),
        Phase::new("fixed_ints", env.n(1 << 18, 1 << 24), fixed_ints),
        Phase::new("texts", nl, move |c: &mut Ctx| {
            let n = lens[c.idx as usize];
            texts_of(c, n)
        })
        .batch(4),
        Phase::new("utf8_read", env.rn(400_000, 20_000_000), utf8_read),
        Phase::new("property_values", env.rn(250_000, 10_000_000), property_values),
    ];
    Check {
        id: "C11",
        level: "exploration",
        rule: "Every variable byte integer 0..268435455 written by both writers and read back from the concatenation; larger numbers and five-byte forms offered; padded and cut sequences; all u8/u16 and spread u32 values; texts and binaries over all interesting lengths (all lengths in the thorough tier) and beyond 65535; every two-byte and many longer sequences against the UTF-8 definition; sequences of property values, owned and borrowed, through the public property writer and reader. Distinct by written bytes; the varint sweep counts one case per 16384 consecutive values.",
        assumptions: vec!["non-shortest variable byte integers and control characters may be refused or accepted on reading; if accepted the value is checked"],
        phases,
        need: vec!["variable byte integers written and read", "over-long variable byte integers offered", "property values written", "property values read", "property values that do not fit offered", "fixed-width integers", "texts and binaries written and read", "over-long texts offered", "valid UTF-8 read", "invalid UTF-8 refused"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C12

fn table<T: MqttCode<T> + Clone + PartialEq + std::fmt::Debug + Sync>(c: &mut Ctx, name: &str, t: &'static [(u8, T)]) {
    for b in 0..=255u8 {
        let r = c.guard(|| T::from_byte(b));
        c.eval(hash_bytes(name.as_bytes()) ^ b as u64, true);
        c.stat("code bytes checked", 1);
        match (r, by_byte(t, b)) {
            (Ok(Ok(x)), Some(y)) if x == y => {}
            (Ok(Err(_)), None) => {}
            (r, y) => c.fail("code-from-byte", || format!("{}::from_byte({:#04x}) = {:?}, MQTT says {:?}", name, b, r, y), &[b]),
        }
    }
    for (b, x) in t {
        let r = c.guard(|| x.to_byte());
        c.stat("code values checked", 1);
        if r != Ok(*b) {
            c.fail("code-to-byte", || format!("{:?}.to_byte() = {:?}, MQTT says {:#04x}", x, r, b), &[*b]);
        }
    }
}
const TYPES: [PacketType; 16] = [
    PacketType::Reserved, PacketType::Connect, PacketType::Connack, PacketType::Publish, PacketType::Puback, PacketType::Pubrec,
    PacketType::Pubrel, PacketType::Pubcomp, PacketType::Subscribe, PacketType::Suback, PacketType::Unsubscribe, PacketType::Unsuback,
    PacketType::Pingreq, PacketType::Pingresp, PacketType::Disconnect, PacketType::Auth,
];
fn tables(c: &mut Ctx) {
    match c.idx {
        0 => table(c, "PubackPubrecCode", PUBACK_CODES),
        1 => table(c, "PubcompPubrelCode", PUBREL_CODES),
        2 => table(c, "SubscriptionReasonCode", SUBACK_CODES),
        3 => table(c, "UnsubackCode", UNSUBACK_CODES),
        4 => table(c, "DisconnectCode", DISCONNECT_CODES),
        5 => table(c, "AuthCode", AUTH_CODES),
        6 => {
            for b in 0..=255u8 {
                let (g, q) = (c.guard(|| Granted::from_byte(b)), c.guard(|| QoS::from_byte(b)));
                c.stat("code bytes checked", 2);
                c.eval(b as u64 | 1 << 40, true);
                if !matches!((&g, by_byte(GRANTED, b)), (Ok(Ok(x)), Some(ref y)) if x == y) && !matches!((&g, by_byte(GRANTED, b)), (Ok(Err(_)), None)) {
                    c.fail("code-from-byte", || format!("Granted::from_byte({}) = {:?}", b, g), &[b]);
                }
                if !matches!((&q, by_byte(QOS, b)), (Ok(Ok(x)), Some(ref y)) if x == y) && !matches!((&q, by_byte(QOS, b)), (Ok(Err(_)), None)) {
                    c.fail("code-from-byte", || format!("QoS::from_byte({}) = {:?}", b, q), &[b]);
                }
            }
            for (b, x) in GRANTED {
                if c.guard(|| x.to_byte()) != Ok(*b) {
                    c.fail("code-to-byte", || format!("{:?}.to_byte()", x), &[*b]);
                }
            }
            for (b, x) in QOS {
                if c.guard(|| x.to_byte()) != Ok(*b) {
                    c.fail("code-to-byte", || format!("{:?}.to_byte()", x), &[*b]);
                }
            }
        }
        7 => {
            // packet types and the first header byte
            for b in 0..=255u8 {
                c.stat("code bytes checked", 2);
                c.eval(b as u64 | 2 << 40, true);
                let want = if b < 16 { TYPES[b as usize] } else { PacketType::Reserved };
                let g = c.guard(|| PacketType::from_bits(b));
                if g != Ok(want) {
                    c.fail("packet-type", || format!("PacketType::from_bits({}) = {:?}", b, g), &[b]);
                }
                let (t, f) = (b >> 4, b & 15);
                let ok = if t == 3 { f & 6 != 6 } else { f == fixed_flags(t) };
                let g = c.guard(|| FixedHeader::from_byte(b));
                let legacy = f == 0xa && matches!(t, 6 | 8 | 10);
                match g {
                    // type 0 is refused either here or when the packet is decoded
                    _ if t == 0 || legacy => {}
                    Ok(Ok(h)) if ok => {
                        let want = FixedHeader { cmd: TYPES[t as usize], dup: f & 8 != 0, qos: f >> 1 & 3, retain: f & 1 != 0 };
                        if h != want {
                            c.fail("first-byte", || format!("first byte {:#04x} read as {:?}", b, h), &[b]);
                        }
                        let e = c.guard(|| h.encode());
                        if e != Ok(b) {
                            c.fail("first-byte-write", || format!("{:?} written as {:?}, read from {:#04x}", h, e, b), &[b]);
                        }
                    }
                    Ok(Err(_)) if !ok => {}
                    g => c.fail("first-byte", || format!("first byte {:#04x} gives {:?}", b, g), &[b]),
                }
            }
            for (i, t) in TYPES.iter().enumerate().skip(1) {
                let h = c.guard(|| FixedHeader::for_type(*t));
                let w = FixedHeader { cmd: *t, dup: false, qos: 0, retain: false };
                if h.as_ref() != Ok(&w) {
                    c.fail("header-for-type", || format!("for_type({:?}) = {:?}", t, h), &[]);
                }
                let e = c.guard(|| w.encode());
                if e != Ok((i as u8) << 4 | fixed_flags(i as u8)) {
                    c.fail("first-byte-write", || format!("{:?} written as {:?}", t, e), &[]);
                }
            }
        }
        8 => {
            for b in 0..=255u8 {
                c.stat("code bytes checked", 1);
                c.eval(b as u64 | 3 << 40, true);
                let will = b & 4 != 0;
                let q = b >> 3 & 3;
                let ret = b & 0x20 != 0;
                let w = ConnectFlags { user_name: b & 0x80 != 0, password: b & 0x40 != 0, will_retain: ret, will_qos: q, will, clean_session: b & 2 != 0 };
                let g = c.guard(|| ConnectFlags::new(b));
                if g.as_ref() != Ok(&w) {
                    c.fail("connect-flags", || format!("ConnectFlags::new({:#04x}) = {:?}", b, g), &[b]);
                }
                let bad = b & 1 != 0 || !will && (q != 0 || ret);
                match c.guard(|| ConnectFlags::from_byte(b)) {
                    Ok(Err(_)) if bad || q == 3 => {}
                    // will QoS 3 may also be refused later, by the packet
                    Ok(Ok((f, lw))) if !bad => {
                        let want = will.then(|| LastWill { topic: None, payload: None, qos: q, retain: ret, properties: None });
                        if f != w || lw != want {
                            c.fail("connect-flags", || format!("ConnectFlags::from_byte({:#04x}) = {:?} {:?}", b, f, lw), &[b]);
                        }
                    }
                    g => c.fail("connect-flags", || format!("ConnectFlags::from_byte({:#04x}) = {:?}", b, g), &[b]),
                }
            }
        }
        9 => {
            for s in ["MQTT", "MQIsdp"] {
                let g = c.guard(|| Protocol::from_source(s));
                let w = if s == "MQTT" { Protocol::Mqtt } else { Protocol::MQIsdp };
                if g != Ok(Ok(w)) {
                    c.fail("protocol-name", || format!("Protocol::from_source({}) = {:?}", s, g), &[]);
                }
            }
            // every one-byte deviation from the two names
            for s in ["MQTT", "MQIsdp"] {
                let b = s.as_bytes();
                for i in 0..b.len() {
                    for x in 0..128u8 {
                        for k in 0..3 {
                            let mut v = b.to_vec();
                            match k {
                                0 => v[i] = x,
                                1 => v.insert(i, x),
                                _ => {
                                    v.remove(i);
                                }
                            }
                            if v == b {
                                continue;
                            }
                            let t = String::from_utf8(v).unwrap();
                            c.stat("code bytes checked", 1);
                            c.eval(hash_bytes(t.as_bytes()), true);
                            let g = c.guard(|| Protocol::from_source(&t));
                            if !matches!(g, Ok(Err(_))) {
                                c.fail("protocol-name", || format!("Protocol::from_source({:?}) = {:?}", t, g), t.as_bytes());
                            }
                        }
                    }
                }
            }
            for s in ["", "mqtt", "MQTT\0", " MQTT", "MQISDP", "MQIsdp3", "MQT", "MQTTT"] {
                if !matches!(c.guard(|| Protocol::from_source(s)), Ok(Err(_))) {
                    c.fail("protocol-name", || format!("Protocol::from_source({:?}) accepted", s), s.as_bytes());
                }
            }
        }
        _ => {}
    }
}

/// a frame of type `t` in which the byte under test is `b`; several surroundings
fn coded_frames(t: u8, v: u8, b: u8) -> Vec<Vec<u8>> {
    let empty = if v == 5 { vec![0u8] } else { vec![] };
    let with = block(&[(0x1F, Val::Str("r".into())), (0x26, Val::Pair("k".into(), "v".into()))]);
    let cat = |x: &[&[u8]]| -> Vec<u8> { x.concat() };
    let mut o = vec![];
    match t {
        2 => {
            for fl in 0..2u8 {
                o.push(frame(0x20, &cat(&[&[fl, b], &empty])));
                if v == 5 {
                    o.push(frame(0x20, &cat(&[&[fl, b], &with])));
                }
            }
        }
        4..=7 => {
            let first = t << 4 | fixed_flags(t);
            if v == 5 {
                o.push(frame(first, &[0, 9, b]));
                o.push(frame(first, &cat(&[&[0, 9, b], &empty])));
                o.push(frame(first, &cat(&[&[0, 9, b], &with])));
            }
        }
        8 => {
            let two = cat(&[&[0, 1, b'a'], &[b], &[0, 1, b'b'], &[1]]);
            let last = cat(&[&[0, 1, b'a'], &[2], &[0, 1, b'b'], &[b]]);
            for l in [cat(&[&[0, 1, b'a'], &[b]]), two, last] {
                o.push(frame(0x82, &cat(&[&[0, 9], &empty, &l])));
            }
        }
        9 => {
            for l in [vec![b], vec![b, 0], vec![1, b], vec![0, 1, b, 2, b]] {
                o.push(frame(0x90, &cat(&[&[0, 9], &empty, &l])));
                if v == 5 {
                    o.push(frame(0x90, &cat(&[&[0, 9], &with, &l])));
                }
            }
        }
        11 => {
            if v == 5 {
                for l in [vec![b], vec![b, 0], vec![0x11, b], vec![0, 0x80, b, 0, b]] {
                    o.push(frame(0xb0, &cat(&[&[0, 9], &empty, &l])));
                    o.push(frame(0xb0, &cat(&[&[0, 9], &with, &l])));
                }
            }
        }
        14 => {
            if v == 5 {
                o.push(frame(0xe0, &[b]));
                o.push(frame(0xe0, &[b, 0]));
                o.push(frame(0xe0, &cat(&[&[b], &with])));
            }
        }
        15 => {
            if v == 5 {
                o.push(frame(0xf0, &cat(&[&[b], &block(&[(0x15, Val::Str("m".into()))])])));
                o.push(frame(0xf0, &cat(&[&[b], &block(&[(0x1F, Val::Str("r".into())), (0x15, Val::Str("".into())), (0x16, Val::Bin(vec![b'd']))])])));
            }
        }
        1 => {
            // CONNECT: flag byte, with the parts it announces
            let name: &[u8] = if v == 3 { b"\0\x06MQIsdp" } else { b"\0\x04MQTT" };
            let mut k = cat(&[name, &[v, b, 0, 60], &empty, &[0, 1, b'c']]);
            if b & 4 != 0 {
                k.extend_from_slice(&empty);
                k.extend_from_slice(&[0, 1, b'w', 0, 1, b'p']);
            }
            if b & 0x80 != 0 {
                k.extend_from_slice(&[0, 1, b'u']);
            }
            if b & 0x40 != 0 {
                k.extend_from_slice(&[0, 1, b's']);
            }
            o.push(frame(0x10, &k));
            // protocol level
            o.push(frame(0x10, &cat(&[name, &[b, 2, 0, 60], if b & 0x7f == 5 { &[0] } else { &[] }, &[0, 1, b'c']])));
        }
        3 => {
            // first byte of a PUBLISH-shaped frame: all header flags
            let f = b & 15;
            let mut k = vec![0, 1, b't'];
            if f & 6 != 0 {
                k.extend_from_slice(&[0, 9]);
            }
            k.extend_from_slice(&empty);
            k.push(b);
            o.push(frame(0x30 | f, &k));
        }
        _ => {
            // first byte of any frame, with bodies that suit other types
            o.push(frame(b, &[]));
            o.push(frame(b, &[0, 9]));
            o.push(frame(b, &[0, 1, b't', 0]));
        }
    }
    o
}
/// decode with the reference as oracle
pub fn judge(c: &mut Ctx, f: &[u8], v: u8, tag: &'static str) {
    let vd = refdec::decode(f, v);
    let r = dec_tail(c, f, v, 0);
    match (&vd, r) {
        (_, Err(m)) => c.fail("decode-panic", || format!("v{} {}: {}", v, tag, m), f),
        (Verdict::Reject(w), Ok((Ok(p), _))) => c.fail("accepted-malformed", || format!("v{} {}: accepted although {}: {}", v, tag, w, pd(&p)), f),
        (Verdict::Reject(_), Ok((Err(_), _))) => c.stat("malformed frames refused", 1),
        (Verdict::Accept(p), Ok((Ok(q), rest))) => {
            if *p != q {
                c.fail("wrong-value", || format!("v{} {}: read {} expected {}", v, tag, pd(&q), pd(p)), f);
            } else if !rest {
                c.fail("wrong-length", || format!("v{} {}: did not consume exactly the frame", v, tag), f);
            }
            c.stat("legal frames read", 1);
        }
        (Verdict::Accept(p), Ok((Err(e), _))) => c.fail("refused-legal", || format!("v{} {}: refused ({}) although legal: {}", v, tag, e, pd(p)), f),
        (Verdict::Gray(p, w), Ok((r, _))) => {
            c.stat("frames without verdict", 1);
            if let (Some(p), Ok(q)) = (p, r) {
                if *p != q {
                    c.fail("wrong-value", || format!("v{} {} ({}): read {} expected {}", v, tag, w, pd(&q), pd(p)), f);
                }
            }
        }
    }
}
fn in_packets(c: &mut Ctx) {
    let b = (c.idx % 256) as u8;
    let t = (c.idx / 256 % 16) as u8;
    let v = [3, 4, 5][(c.idx / 4096) as usize];
    for f in coded_frames(t, v, b) {
        c.sample(|| hex(&f));
        c.eval(hash_bytes(&f) ^ v as u64, true);
        c.stat("frames with each code", 1);
        judge(c, &f, v, "code in a packet");
    }
}
/// every code value through the encoder: the byte at its place in the frame
fn out_packets(c: &mut Ctx) {
    let mut jobs: Vec<(MqttPacket, u8, usize, u8)> = vec![];
    let up = |b: bool| -> Option<ConfirmationProperties> { b.then(|| ConfirmationProperties { reason_string: Some("r".into()), user_properties: UserProperties::new() }) };
    for props in [false, true] {
        for (b, x) in PUBACK_CODES {
            for t in [4, 5] {
                jobs.push((gen::wrap_conf(t, conf(t, x.clone(), PubcompPubrelCode::Success, up(props))), 5, 4, *b));
            }
        }
        for (b, x) in PUBREL_CODES {
            for t in [6, 7] {
                jobs.push((gen::wrap_conf(t, conf(t, PubackPubrecCode::Success, x.clone(), up(props))), 5, 4, *b));
            }
        }
        for (b, x) in SUBACK_CODES {
            jobs.push((MqttPacket::Suback(SubackPacket { reason_code: None, message_id: 1, properties: None, granted_reason_codes: vec![x.clone()], granted: vec![] }), 5, 5, *b));
        }
        for (b, x) in UNSUBACK_CODES {
            jobs.push((MqttPacket::Unsuback(UnsubackPacket { message_id: 1, properties: None, granted: vec![x.clone()] }), 5, 5, *b));
        }
        for (b, x) in DISCONNECT_CODES {
            let p = props.then(|| DisconnectProperties { session_expiry_interval: None, server_reference: None, reason_string: Some("r".into()), user_properties: UserProperties::new() });
            jobs.push((MqttPacket::Disconnect(DisconnectPacket { reason_code: Some(x.clone()), properties: p }), 5, 2, *b));
        }
        for (b, x) in AUTH_CODES {
            let p = Some(AuthProperties { authentication_method: "m".into(), authentication_data: None, reason_string: if props { Some("r".into()) } else { None }, user_properties: UserProperties::new() });
            jobs.push((MqttPacket::Auth(AuthPacket { reason_code: x.clone(), properties: p }), 5, 2, *b));
        }
        for (b, x) in GRANTED {
            for v in [3, 4] {
                jobs.push((MqttPacket::Suback(SubackPacket { reason_code: None, message_id: 1, properties: None, granted_reason_codes: vec![], granted: vec![x.clone()] }), v, 4, *b));
            }
        }
        for (b, x) in QOS {
            for v in [3, 4] {
                jobs.push((MqttPacket::Subscribe(SubscribePacket { qos: 1, message_id: 1, properties: None, subscriptions: vec![Subscription { topic: "f".into(), qos: x.clone(), nl: false, rap: false, rh: None }] }), v, 7, *b));
            }
            for o in 0..12u8 {
                let s = Subscription { topic: "f".into(), qos: x.clone(), nl: o & 1 != 0, rap: o & 2 != 0, rh: Some(o >> 2) };
                let w = b | (o & 1) << 2 | (o & 2) << 2 | (o >> 2) << 4;
                jobs.push((MqttPacket::Subscribe(SubscribePacket { qos: 1, message_id: 1, properties: None, subscriptions: vec![s] }), 5, 8, w));
            }
        }
        for code in CONNACK_CODES_V5 {
            jobs.push((MqttPacket::Connack(ConnackPacket { return_code: None, reason_code: Some(*code), session_present: false, properties: None }), 5, 3, *code));
        }
        for code in 0..6u8 {
            for v in [3, 4] {
                jobs.push((MqttPacket::Connack(ConnackPacket { return_code: Some(code), reason_code: None, session_present: false, properties: None }), v, 3, code));
            }
        }
    }
    for (p, v, at, b) in jobs {
        c.stat("codes written in packets", 1);
        match enc(c, &p, v) {
            Err(m) => c.fail("encode-panic", || m, &[]),
            Ok(Err(e)) => c.fail("code-refused", || format!("v{} {} cannot be encoded: {}", v, pd(&p), e), &[]),
            Ok(Ok(o)) => {
                c.sample(|| hex(&o));
                c.eval(hash_bytes(&o) ^ v as u64, true);
                // an acknowledgement may leave a success code out
                let short_ok = b == 0 && at == 4 && v == 5 && o.len() == 4 || b == 0 && at == 2 && o.len() == 2;
                if o.get(at) != Some(&b) && !short_ok {
                    c.fail("code-written", || format!("v{} {} written as {}, expected {:#04x} at {}", v, pd(&p), hex(&o), b, at), &o);
                }
            }
        }
    }
}

pub fn c12(_env: &Env) -> Check<'_> {
    Check {
        id: "C12",
        level: "exploration",
        rule: "All 256 byte values through every conversion function and inside real frames of every packet type at every version (several surroundings each), all enum values through the encoder; compared with tables transcribed from MQTT 3.1, 3.1.1 and 5. Distinct by byte and frame.",
        assumptions: vec!["the tables in harness/src/spec.rs are the standard's"],
        phases: vec![
            Phase::new("tables", 10, tables).batch(1),
            Phase::new("in_packets", 3 * 4096, in_packets),
            Phase::new("out_packets", 1, out_packets),
        ],
        need: vec!["code bytes checked", "code values checked", "frames with each code", "codes written in packets", "malformed frames refused", "legal frames read"],
        exhaustive: true,
    }
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Take(u32),
    Reset,
    Read(u32),
    U8,
    U16,
    U32,
    Bool,
    Text,
    Bin,
    Var,
    Consume,
    More,
    /// decode a packet at this version
    Packet(u8),
    /// read a property block
    Props,
}

/// reference semantics: bytes left in the innermost limit plus what each enclosing one has beyond it
#[derive(Default)]
struct Model {
    pos: usize,
    cur: Option<u64>,
    outer: Vec<u64>,
}

/// runs one operation sequence; Err describes the first deviation
pub fn run_ops(data: &[u8], ops: &[Op], cap: usize, chunks: Chunks, obs: &mut [u64; 8]) -> Result<(), String> {
    run_ops_gated(data, ops, cap, chunks, obs, &mut None)
}
/// discards the rest of the block in which a read failed; false if there is no telling where that ends
/// `most` is how many bytes the failed read may have used
fn skip_block<R: std::io::Read>(rd: &mut ByteReader<R>, m: &mut Model, data: &[u8], most: u64) -> Result<bool, String> {
    let Some(l) = m.cur else { return Ok(false) };
    if ((data.len() - m.pos) as u64) < l {
        return Ok(false);
    }
    let block = &data[m.pos..m.pos + l as usize];
    match rd.consume() {
        Ok(g) if block.ends_with(&g) && l - g.len() as u64 <= most => {}
        Ok(g) if block.ends_with(&g) => return Err(format!("a read that a limit of {} forbids used {} bytes", l, l - g.len() as u64)),
        o => return Err(format!("discarding after a failed read gave {:?}", o)),
    }
    m.pos += l as usize;
    m.cur = Some(0);
    Ok(true)
}
/// decodes a packet of which `b` is what the limits and the stream allow: Some(bytes used), or
/// None when no frame ends in there (and the decoder said so)
fn packet_op<R: std::io::Read>(dec: &mut PacketDecoder<R>, b: &[u8], v: u8, obs: &mut [u64; 8]) -> Result<Option<usize>, String> {
    let got = dec.decode_packet(v);
    match crate::refdec::split(b) {
        crate::refdec::Split::Frame(h, n) => {
            let alone = PacketDecoder::from_stream(Cursor::new(&b[..h + n])).decode_packet(v);
            if !same(&got, &alone) {
                return Err(format!("decoded {} instead of {}", show(&got), show(&alone)));
            }
            obs[4] += 1;
            Ok(Some(h + n))
        }
        _ => {
            obs[5] += 1;
            match got {
                Ok(p) => Err(format!("a packet from a frame that does not end within the limit: {}", pd(&p))),
                Err(_) => Ok(None),
            }
        }
    }
}
/// how far into the stream operation `op` may look
fn needs(data: &[u8], m: &Model, op: &Op) -> usize {
    let limit = m.cur.unwrap_or(u64::MAX);
    let upto = |n: u64| m.pos.saturating_add(n.min(usize::MAX as u64) as usize);
    let plain = |n: u64| if n <= limit { upto(n) } else { m.pos };
    let byte = |i: usize| data.get(m.pos + i).copied();
    match *op {
        Op::Take(_) | Op::Reset => m.pos,
        Op::More => plain(1),
        Op::Read(n) => plain(n as u64),
        Op::U8 | Op::Bool => plain(1),
        Op::U16 => plain(2),
        Op::U32 => plain(4),
        Op::Text | Op::Bin => match (byte(0), byte(1)) {
            (Some(a), Some(b)) => upto((2 + ((a as u64) << 8 | b as u64)).min(limit)),
            _ => upto(limit.min(2)),
        },
        Op::Var => {
            let mut n = 1;
            while n < 4 && byte(n - 1).map_or(false, |b| b & 0x80 != 0) {
                n += 1;
            }
            upto(limit.min(n as u64))
        }
        Op::Consume => m.cur.map_or(m.pos, upto),
        Op::Packet(_) => match crate::refdec::split(&data[m.pos..]) {
            crate::refdec::Split::Frame(h, n) => upto(limit.min((h + n) as u64)),
            crate::refdec::Split::Incomplete => upto(limit.min(u32::MAX as u64)),
            crate::refdec::Split::BadLength => upto(limit.min(5)),
        },
        Op::Props => {
            let mut n = 0u64;
            for i in 0..4 {
                let Some(b) = byte(i) else { return upto(limit.min(u32::MAX as u64)) };
                n |= (b as u64 & 0x7f) << (7 * i);
                if b & 0x80 == 0 {
                    return upto(limit.min(n + i as u64 + 1));
                }
            }
            upto(limit.min(4))
        }
    }
}
/// the same; with `gate`, every read on the stream must be needed by the operation that issues it
pub fn run_ops_gated(data: &[u8], ops: &[Op], cap: usize, chunks: Chunks, obs: &mut [u64; 8], gate: &mut Option<&mut [u64; 3]>) -> Result<(), String> {
    let src = Stream::new(data).chunks(chunks);
    let seen = src.obs.clone();
    let mut dec = PacketDecoder::from_bufreader(BufReader::with_capacity(cap, src));
    let mut m = Model::default();
    let mut pending: Option<(usize, usize, u64, usize)> = None;
    for (k, op) in ops.iter().enumerate() {
        if let Some(g) = gate {
            check_gate(&seen, &mut pending, ops, g)?;
            pending = Some((k, needs(data, &m, op), seen.reads.get(), seen.delivered.get()));
        }
        let left = data.len() - m.pos;
        let avail = (left as u64).min(m.cur.unwrap_or(u64::MAX)) as usize;
        if let Op::Packet(v) = *op {
            match packet_op(&mut dec, &data[m.pos..m.pos + avail], v, obs) {
                Ok(Some(n)) => {
                    m.pos += n;
                    if let Some(l) = m.cur.as_mut() {
                        *l -= n as u64;
                    }
                    continue;
                }
                // a frame that does not end within the limit: what is left of the block is open
                Ok(None) => {
                    if let Some(g) = gate {
                        check_gate(&seen, &mut pending, ops, g)?;
                    }
                    if !skip_block(&mut dec.reader, &mut m, data, u64::MAX).map_err(|e| format!("op {} {:?} at byte {} limit {:?} enclosing {:?}: {}", k, op, m.pos, m.cur, m.outer, e))? {
                        return Ok(());
                    }
                    continue;
                }
                Err(e) => return Err(format!("op {} {:?} at byte {} limit {:?} enclosing {:?}: {}", k, op, m.pos, m.cur, m.outer, e)),
            }
        }
        let rd = &mut dec.reader;
        let bad = |what: String, m: &Model| Err(format!("op {} {:?} at byte {} limit {:?} enclosing {:?}: {}", k, op, m.pos, m.cur, m.outer, what));
        match *op {
            Op::Take(n) => {
                rd.take(n);
                match m.cur {
                    None => m.cur = Some(n as u64),
                    Some(l) => {
                        let k = l.min(n as u64);
                        if k == l {
                            obs[0] += 1;
                        }
                        m.outer.push(l - k);
                        m.cur = Some(k);
                    }
                }
                obs[1] = obs[1].max(m.outer.len() as u64);
            }
            Op::Reset => {
                rd.reset_limit();
                m.cur = m.outer.pop().map(|x| x + m.cur.unwrap_or(0));
            }
            Op::More => {
                let want = m.cur != Some(0) && left > 0;
                let got = rd.has_more();
                if got != want {
                    return bad(format!("has_more is {}", got), &m);
                }
            }
            Op::Read(_) | Op::U8 | Op::U16 | Op::U32 | Op::Bool => {
                let n = match *op {
                    Op::Read(n) => n as u64,
                    Op::U8 | Op::Bool => 1,
                    Op::U16 => 2,
                    _ => 4,
                };
                let got: Res<u64> = match *op {
                    Op::Read(n) => rd.read_len(n).map(|b| hash_bytes(&b)),
                    Op::U8 => rd.read_u8().map(|x| x as u64),
                    Op::Bool => rd.read_bool_byte().map(|x| x as u64),
                    Op::U16 => rd.read_u16().map(|x| x as u64),
                    _ => rd.read_u32().map(|x| x as u64),
                };
                if m.cur.map_or(false, |l| l < n) {
                    obs[2] += 1;
                    if got.is_ok() {
                        return bad("read beyond the limit succeeded".into(), &m);
                    }
                    continue;
                }
                if (left as u64) < n {
                    obs[3] += 1;
                    if got.is_ok() {
                        return bad("read beyond the end of the stream succeeded".into(), &m);
                    }
                    return Ok(());
                }
                let b = &data[m.pos..m.pos + n as usize];
                let want = match *op {
                    Op::Read(_) => hash_bytes(b),
                    Op::Bool => (b[0] != 0) as u64,
                    _ => b.iter().fold(0, |a, x| a << 8 | *x as u64),
                };
                if got != Ok(want) {
                    return bad(format!("{:?} instead of the next {} bytes", got, n), &m);
                }
                obs[4] += 1;
                m.pos += n as usize;
                if let Some(l) = m.cur.as_mut() {
                    *l -= n;
                }
            }
            Op::Props => {
                let b = &data[m.pos..m.pos + avail];
                let got = rd.read_properties().map(|p| p.is_some());
                match (crate::refdec::any_block(b), got) {
                    (Ok((n, _)), Ok(_)) => {
                        obs[4] += 1;
                        m.pos += n;
                        if let Some(l) = m.cur.as_mut() {
                            *l -= n as u64;
                        }
                    }
                    (w, Err(_)) if w.map_or(true, |x| x.1) => {
                        obs[5] += 1;
                        // the limit of the block may still be in force; nothing more can be said
                        return Ok(());
                    }
                    (w, g) => return bad(format!("property block read as {:?}, expected {:?}", g, w), &m),
                }
            }
            Op::Text | Op::Bin | Op::Var => {
                let b = &data[m.pos..m.pos + avail];
                // (bytes consumed, value) if the item lies within the limit and the stream
                let want: Option<(usize, Vec<u8>, u32)> = match *op {
                    Op::Var => {
                        let mut n = 0u32;
                        let mut r = None;
                        for i in 0..4.min(b.len()) {
                            n |= ((b[i] & 0x7f) as u32) << (7 * i);
                            if b[i] & 0x80 == 0 {
                                r = Some((i + 1, vec![], n));
                                break;
                            }
                        }
                        r
                    }
                    _ => {
                        if b.len() < 2 {
                            None
                        } else {
                            let n = (b[0] as usize) << 8 | b[1] as usize;
                            if b.len() < 2 + n { None } else { Some((2 + n, b[2..2 + n].to_vec(), 0)) }
                        }
                    }
                };
                let got: Res<(Vec<u8>, u32)> = match *op {
                    Op::Var => rd.read_variable_int().map(|x| (vec![], x)),
                    Op::Text => rd.read_utf8_string().map(|s| (s.into_bytes(), 0)),
                    _ => rd.read_binary().map(|s| (s, 0)),
                };
                let tolerant = match (&want, *op) {
                    (Some((_, s, _)), Op::Text) => std::str::from_utf8(s).map_or(true, crate::refdec::suspicious),
                    (Some((n, _, x)), Op::Var) => varint(*x).len() != *n,
                    _ => false,
                };
                match (want, got) {
                    (Some((n, s, x)), Ok(g)) => {
                        if g != (s, x) || *op == Op::Text && std::str::from_utf8(&g.0).is_err() {
                            return bad(format!("read {:?}", g), &m);
                        }
                        m.pos += n;
                        if let Some(l) = m.cur.as_mut() {
                            *l -= n as u64;
                        }
                        obs[4] += 1;
                    }
                    (w, Err(_)) if w.is_none() || tolerant => {
                        // how much of the item was consumed is open, but not past the limit, and
                        // discarding must land exactly on the end of the limit
                        obs[5] += 1;
                        if let Some(g) = gate {
                            check_gate(&seen, &mut pending, ops, g)?;
                        }
                        // what a limit forbids is not begun: a length too long for it costs its two bytes at most
                        let most = match (*op, m.cur) {
                            (Op::Text | Op::Bin, Some(l)) if l >= 2 && left >= 2 && 2 + ((data[m.pos] as u64) << 8 | data[m.pos + 1] as u64) > l => 2,
                            _ => u64::MAX,
                        };
                        match skip_block(rd, &mut m, data, most) {
                            Ok(true) => {}
                            Ok(false) => return Ok(()),
                            Err(e) => return bad(e, &m),
                        }
                    }
                    (w, g) => return bad(format!("read {:?}, expected {:?}", g, w), &m),
                }
            }
            Op::Packet(_) => {}
            Op::Consume => {
                let got = rd.consume();
                match m.cur {
                    None => {
                        if got.is_ok() {
                            return bad("consume without a limit succeeded".into(), &m);
                        }
                    }
                    Some(l) if (left as u64) < l => {
                        if got.is_ok() {
                            return bad("consume beyond the end of the stream succeeded".into(), &m);
                        }
                        return Ok(());
                    }
                    Some(l) => {
                        if got.as_deref() != Ok(&data[m.pos..m.pos + l as usize]) {
                            return bad(format!("consume gave {:?}", got), &m);
                        }
                        obs[6] += 1;
                        m.pos += l as usize;
                        m.cur = Some(0);
                    }
                }
            }
        }
    }
    if let Some(g) = gate {
        check_gate(&seen, &mut pending, ops, g)?;
    }
    // afterwards: unwind everything and compare what is left
    let rd = &mut dec.reader;
    for _ in 0..m.outer.len() + 1 {
        rd.reset_limit();
    }
    let rest = &data[m.pos..];
    if !rest_is(rd, rest) {
        return Err(format!("after removing all limits the stream does not continue at byte {}", m.pos));
    }
    obs[7] += 1;
    Ok(())
}

/// judges the operation that has just ended
fn check_gate(seen: &crate::io::Obs, pending: &mut Option<(usize, usize, u64, usize)>, ops: &[Op], g: &mut [u64; 3]) -> Result<(), String> {
    let Some((k, need, reads, before)) = pending.take() else { return Ok(()) };
    g[0] += 1;
    let now = seen.reads.get() - reads;
    if before >= need {
        g[1] += 1;
        if now > 0 {
            return Err(format!("WAITS: op {} {:?} asks the stream {} times although {} bytes were delivered and it needs {}", k, ops[k], now, before, need));
        }
    } else if seen.last_at.get() >= need && now > 0 {
        return Err(format!("WAITS: op {} {:?} asks the stream again with {} bytes delivered although it needs {}", k, ops[k], seen.last_at.get(), need));
    }
    g[2] += (seen.delivered.get() - before) as u64;
    Ok(())
}

fn judge_ops(c: &mut Ctx, data: &[u8], ops: &[Op], cap: usize, chunks: Chunks) {
    let mut obs = [0u64; 8];
    let r = c.guard(|| {
        let r = run_ops(data, ops, cap, chunks, &mut obs);
        (r, obs)
    });
    match r {
        Err(m) => c.fail("limit-panic", || format!("{} for {:?} on {}", m, ops, hex(data)), data),
        Ok((r, o)) => {
            c.stat("limits reaching the end of the enclosing one", o[0]);
            c.stat_max("max nesting depth", o[1]);
            c.stat("reads refused by a limit", o[2]);
            c.stat("reads refused by the end of the stream", o[3]);
            c.stat("reads within all limits", o[4]);
            c.stat("failed composite reads", o[5]);
            c.stat("blocks discarded", o[6]);
            c.stat("sequences unwound and checked", o[7]);
            if let Err(m) = r {
                c.fail("limit", || format!("{} (operations {:?}, stream {})", m, ops, hex(data)), data);
            }
        }
    }
}

const ALPHABET: [Op; 12] = [
    Op::Take(0), Op::Take(1), Op::Take(2), Op::Take(4), Op::Reset, Op::U8, Op::U16, Op::Consume, Op::More, Op::Read(0), Op::Read(3), Op::Text,
];

fn small_sequences(c: &mut Ctx, len: u32) {
    let mut k = c.idx;
    let n = (k % 6) as usize;
    k /= 6;
    let mut ops = vec![];
    for _ in 0..len {
        ops.push(ALPHABET[(k % 12) as usize]);
        k /= 12;
    }
    // the first bytes also make a short text
    let data = [0, 1, 0x41, 0x42, 0x43][..n].to_vec();
    c.eval(mix(c.idx), true);
    judge_ops(c, &data, &ops, 8, Chunks::All);
}

/// a stream and a history of operations on it
pub fn random_ops(r: &mut Rng) -> (Vec<u8>, Vec<Op>) {
    let n = match r.below(4) {
        0 => r.us(8),
        1 => r.us(40),
        2 => r.us(400),
        _ => r.us(20_000),
    };
    let small = r.bool();
    let data: Vec<u8> = (0..n).map(|_| if small { r.below(6) as u8 } else { r.u8() }).collect();
    let deep = r.pct(3);
    let count = if deep { 3000 } else { 1 + r.us(60) };
    let ops: Vec<Op> = (0..count)
        .map(|_| match r.below(if deep { 13 } else { 22 }) {
            0..=5 => Op::Take(match r.below(8) {
                0 => u32::MAX,
                1 => 0,
                2 => r.us(n + 3) as u32,
                3 => 1 << r.below(32),
                _ => r.below(20) as u32,
            }),
            6..=8 => Op::Reset,
            9 => Op::More,
            10 => Op::U8,
            11 => Op::U16,
            12 => Op::Read(r.us(12) as u32),
            13 => Op::U32,
            14 => Op::Bool,
            15 | 16 => Op::Text,
            17 => Op::Bin,
            18 => Op::Var,
            19 => Op::Consume,
            20 => Op::Read(match r.below(3) {
                0 => 0,
                1 => r.us(n + 3) as u32,
                _ => 1 << r.below(20),
            }),
            _ => Op::More,
        })
        .collect();
    (data, ops)
}
fn random_sequences(c: &mut Ctx) {
    let (data, ops) = random_ops(&mut c.rng);
    let n = data.len();
    let r = &mut c.rng;
    let cap = 1 + r.us(40);
    let chunks = if r.bool() { Chunks::All } else { Chunks::Random(r.next(), 9) };
    c.eval(hash_bytes(&data) ^ hash_bytes(format!("{:?}", ops).as_bytes()), ops.len() > 2);
    let ops2 = ops.clone();
    judge_ops(c, &data, &ops, cap, chunks);
    c.sample(|| format!("{} bytes, {:?}", n, &ops2[..ops2.len().min(12)]));
}
/// reads and blocks of up to many megabytes
fn bulk_sequences(c: &mut Ctx) {
    static SEA: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    let sea = SEA.get_or_init(|| {
        let mut r = Rng::new(0x5ea);
        (0..24 << 17).flat_map(|_| r.next().to_le_bytes()).collect()
    });
    let r = &mut c.rng;
    let log = |r: &mut Rng, max: usize| -> usize {
        let k = 1 + r.us((usize::BITS - max.leading_zeros()) as usize);
        r.us((1usize << k).min(max) + 1)
    };
    let n = *r.pick(&[70_000usize, 140_000, 1_100_000, 2_200_000, 5_000_000, 17_000_000]) + r.us(70_000);
    let off = r.us(sea.len() - n);
    let data = &sea[off..off + n];
    let mut ops = vec![];
    let (mut left, mut rest) = (n, vec![]);
    for _ in 0..8 + r.us(30) {
        match r.below(10) {
            0..=2 if rest.len() < 9 => {
                let t = match r.below(6) {
                    0 => left,
                    1 | 2 => left.saturating_sub(r.us(40)),
                    3 => left + r.us(30),
                    4 => left / 2,
                    _ => log(r, left),
                };
                ops.push(Op::Take(t as u32));
                rest.push(left.saturating_sub(t));
                left = left.min(t);
            }
            3 | 4 => {
                ops.push(Op::Reset);
                left += rest.pop().unwrap_or(0);
            }
            5 | 6 => {
                let k = match r.below(4) {
                    0 => left / 2,
                    1 => left.saturating_sub(r.us(9)),
                    _ => log(r, left),
                };
                ops.push(Op::Read(k as u32));
                left -= k;
            }
            7 => ops.push(r.pick(&[Op::Text, Op::Bin, Op::Var, Op::U32, Op::More]).clone()),
            8 if r.pct(30) => {
                ops.push(Op::Consume);
                left = 0;
            }
            _ => {
                let k = r.us(left.min(200) + 1);
                ops.push(Op::Read(k as u32));
                left -= k;
            }
        }
    }
    let cap = *r.pick(&[1usize, 61, 4096, 8192, 100_000]);
    let chunks = if r.bool() { Chunks::All } else { Chunks::Random(r.next(), 100_000) };
    c.eval(hash_bytes(&data[..64]) ^ hash_bytes(format!("{:?}", ops).as_bytes()), ops.len() > 2);
    c.stat("sequences over large blocks", 1);
    judge_ops(c, data, &ops, cap, chunks);
}
/// disciplined nesting, as a parser uses it: blocks within blocks, siblings, parents read on
fn nested_blocks(c: &mut Ctx) {
    fn rec(r: &mut Rng, left: usize, depth: usize, ops: &mut Vec<Op>) {
        let mut left = left;
        while left > 0 && r.pct(70) && ops.len() < 200 {
            if depth < 12 && r.bool() {
                let n = match r.below(4) {
                    0 => left,
                    1 => 0,
                    _ => r.us(left + 1),
                };
                let over = r.pct(10);
                ops.push(Op::Take(if over { (left + r.us(9)) as u32 } else { n as u32 }));
                rec(r, if over { left } else { n }, depth + 1, ops);
                ops.push(Op::More);
                if r.bool() {
                    ops.push(Op::Consume);
                }
                ops.push(Op::Reset);
                ops.push(Op::More);
                left = left.saturating_sub(n);
            } else {
                ops.push(*r.pick(&[Op::U8, Op::U16, Op::U32, Op::More, Op::Read(3), Op::Read(7)]));
                left = left.saturating_sub(2);
            }
        }
    }
    let r = &mut c.rng;
    let n = r.us(60);
    let data: Vec<u8> = (0..n + r.us(6)).map(|_| r.u8()).collect();
    let mut ops = vec![Op::Take(n as u32)];
    rec(r, n, 0, &mut ops);
    ops.extend([Op::Consume, Op::Reset, Op::More]);
    let cap = 1 + r.us(20);
    c.eval(hash_bytes(&data) ^ hash_bytes(format!("{:?}", ops).as_bytes()), true);
    judge_ops(c, &data, &ops, cap, Chunks::All);
}

/// whole frames and property blocks inside limits that fit them, cut them or reach beyond them
pub fn frame_ops(r: &mut Rng) -> (Vec<u8>, Vec<Op>) {
    let v = gen::version(r);
    let mut data = vec![];
    let mut ops = vec![];
    let mut depth = 0usize;
    for _ in 0..r.range(1, 5) {
        let kind = r.below(6);
        let f = match kind {
            0..=2 => super::streams::legal_frame(r, v),
            3 => super::streams::any_frame(r, v),
            4 => {
                let pl = *r.pick(&PLACES);
                let m = gen::mask_for(r, pl);
                block(&gen::props_mask(r, pl, m))
            }
            _ => (0..1 + r.us(9)).map(|_| r.u8()).collect(),
        };
        let n = f.len();
        for _ in 0..r.us(4) {
            ops.push(Op::Take(match r.below(6) {
                0 => n as u32,
                1 => n.saturating_sub(1) as u32,
                2 => r.us(n + 1) as u32,
                3 => (n + r.us(40)) as u32,
                4 => u32::MAX,
                _ => (n * 2) as u32,
            }));
            depth += 1;
        }
        ops.push(match kind {
            4 => Op::Props,
            5 => *r.pick(&[Op::Text, Op::U8, Op::Packet(5)]),
            _ => Op::Packet(v),
        });
        if r.bool() {
            ops.push(Op::More);
        }
        while depth > 0 && r.pct(60) {
            if r.pct(30) {
                ops.push(Op::Consume);
            }
            ops.push(Op::Reset);
            depth -= 1;
        }
        data.extend(f);
    }
    data.extend((0..r.us(20)).map(|_| r.u8()));
    (data, ops)
}
fn frames_within(c: &mut Ctx) {
    let (data, ops) = frame_ops(&mut c.rng);
    let r = &mut c.rng;
    let cap = 1 + r.us(60);
    let chunks = if r.bool() { Chunks::All } else { Chunks::Random(r.next(), 9) };
    c.eval(hash_bytes(&data) ^ hash_bytes(format!("{:?}", ops).as_bytes()), ops.len() > 2);
    c.stat("frames and property blocks within limits", 1);
    c.sample(|| format!("{:?} on {}", ops, hex(&data[..data.len().min(60)])));
    judge_ops(c, &data, &ops, cap, chunks);
}

/// a stream that fails once in the middle of a read: whatever became of that read, the blocks still
/// end where they end
fn failing_streams(c: &mut Ctx) {
    let r = &mut c.rng;
    let n = match r.below(4) {
        0 => 1 + r.us(12),
        1 | 2 => 1 + r.us(90),
        _ => 1 + r.us(9000),
    };
    let mut data: Vec<u8> = (0..n + r.us(12)).map(|_| r.u8()).collect();
    // the limits in force one inside of the other, as the offsets where they end
    let mut ops = vec![];
    let (mut pos, mut ends) = (0usize, vec![]);
    let push = |r: &mut Rng, pos: usize, ends: &mut Vec<usize>, ops: &mut Vec<Op>| {
        let top = ends.last().map_or(n, |e: &usize| *e);
        let k = match r.below(4) {
            0 => top - pos,
            _ => r.us(top - pos + 1),
        };
        ops.push(Op::Take(k as u32));
        ends.push(pos + k);
    };
    for _ in 0..r.range(1, 4) {
        push(r, pos, &mut ends, &mut ops);
    }
    for _ in 0..r.us(14) {
        let left = ends.last().map_or(data.len(), |e: &usize| *e) - pos;
        match r.below(10) {
            0 => push(r, pos, &mut ends, &mut ops),
            1 if ends.len() > 1 => {
                ops.push(Op::Reset);
                ends.pop();
            }
            2 => ops.push(Op::More),
            3 if left > 2 => {
                let k = r.us(left - 1);
                if k < 65536 {
                    data[pos] = (k >> 8) as u8;
                    data[pos + 1] = k as u8;
                    let text = r.bool();
                    if text {
                        data[pos + 2..pos + 2 + k].iter_mut().for_each(|b| *b = b' ' + *b % 90);
                    }
                    ops.push(if text { Op::Text } else { Op::Bin });
                    pos += 2 + k;
                }
            }
            4 if r.pct(20) => {
                ops.push(Op::Consume);
                pos += left;
            }
            x => {
                let (op, k) = match x {
                    5 => (Op::U8, 1),
                    6 => (Op::U16, 2),
                    7 => (Op::U32, 4),
                    _ => {
                        let k = if r.bool() { r.us(left + 1) } else { r.us(left.min(9) + 1) };
                        (Op::Read(k as u32), k)
                    }
                };
                if k <= left {
                    ops.push(op);
                    pos += k;
                }
            }
        }
    }
    // what remains of the innermost block
    if r.bool() {
        ops.push(Op::Consume);
        pos = ends.last().copied().unwrap_or(pos);
    }
    let at = if r.pct(80) { r.us(pos + 1) } else { r.us(data.len() + 1) };
    let kind = *r.pick(&[ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::Other, ErrorKind::UnexpectedEof]);
    let chunks = if r.bool() { Chunks::All } else { Chunks::Random(r.next(), 9) };
    let cap = 1 + r.us(40);
    let interrupt = if r.pct(30) { 300 } else { 0 };
    let again = r.us(3);
    c.eval(hash_bytes(&data) ^ hash_bytes(format!("{:?}{}{:?}", ops, at, kind).as_bytes()), true);
    c.sample(|| format!("{:?} fault {:?} at {} of {}", &ops[..ops.len().min(12)], kind, at, data.len()));
    let mut seen = [0u64; 4];
    let g = c.guard(|| {
        let src = Stream::new(&data).chunks(chunks).fault(Fault::Once(at, kind)).interrupt(interrupt, 7);
        let obs = src.obs.clone();
        let mut rd = ByteReader::new(BufReader::with_capacity(cap, src));
        let mut ends: Vec<usize> = vec![];
        let mut pos = 0usize;
        let one = |rd: &mut ByteReader<Stream>, op: Op| -> Res<Vec<u8>> {
            match op {
                Op::Read(k) => rd.read_len(k),
                Op::U8 => rd.read_u8().map(|x| vec![x]),
                Op::U16 => rd.read_u16().map(|x| x.to_be_bytes().to_vec()),
                Op::U32 => rd.read_u32().map(|x| x.to_be_bytes().to_vec()),
                Op::Consume => rd.consume(),
                _ => {
                    let b = if op == Op::Text { rd.read_utf8_string().map(|s| s.into_bytes()) } else { rd.read_binary() };
                    b.map(|b| [&(b.len() as u16).to_be_bytes()[..], &b].concat())
                }
            }
        };
        for (k, op) in ops.iter().enumerate() {
            match *op {
                Op::Take(n) => {
                    rd.take(n);
                    ends.push(pos + n as usize);
                }
                Op::Reset => {
                    rd.reset_limit();
                    ends.pop();
                }
                Op::More => {
                    let failed = obs.faults.get();
                    let end = ends.last().map_or(data.len(), |e| *e);
                    let g = rd.has_more();
                    // inside of a block a failing stream does not change the answer
                    if obs.faults.get() == failed && g != (pos < end.min(data.len())) {
                        return Err(format!("op {}: has_more is {} at byte {} of {}", k, g, pos, end));
                    }
                }
                op => match one(&mut rd, op) {
                    Ok(b) => {
                        if data.get(pos..pos + b.len()) != Some(&b[..]) {
                            return Err(format!("op {} {:?} at byte {}: {}", k, op, pos, hex(&b)));
                        }
                        pos += b.len();
                        seen[0] += 1;
                    }
                    Err(e) => {
                        if obs.faults.get() == 0 {
                            return Err(format!("op {} {:?} at byte {} refused before the fault: {}", k, op, pos, e));
                        }
                        seen[1] += 1;
                        // may fail again or not, but never reach beyond the block
                        for _ in 0..again {
                            if let Ok(b) = one(&mut rd, op) {
                                let end = ends.last().map_or(data.len(), |e| *e);
                                if !(pos..=end).any(|s| s + b.len() <= end && data.get(s..s + b.len()) == Some(&b[..])) && op != Op::Text && op != Op::Bin {
                                    return Err(format!("op {} {:?} at byte {} repeated after the fault: {} is not from the block that ends at {}", k, op, pos, hex(&b), end));
                                }
                                seen[2] += 1;
                            }
                        }
                        break;
                    }
                },
            }
        }
        // what is left of each block, from the inside out
        loop {
            let end = ends.pop();
            let stop = end.map_or(data.len(), |e| e.min(data.len()));
            let mut got = vec![];
            loop {
                let failed = obs.faults.get();
                match rd.read_u8() {
                    Ok(b) => got.push(b),
                    Err(_) if obs.faults.get() != failed => {}
                    Err(_) => break,
                }
                if got.len() > data.len() {
                    break;
                }
            }
            if got.len() > stop - pos.min(stop) || got[..] != data[stop - got.len()..stop] {
                return Err(format!("after the fault what is left of the block ending at {} reads {}", stop, hex(&got)));
            }
            if rd.has_more() && end.is_some() && end.unwrap() <= data.len() {
                return Err(format!("has_more at the end of the block ending at {}", stop));
            }
            pos = stop;
            seen[3] += 1;
            if end.is_none() {
                return Ok(());
            }
            rd.reset_limit();
        }
    });
    c.stat("reads before a fault", seen[0]);
    c.stat("reads that a fault of the stream broke off", seen[1]);
    c.stat("reads repeated after a fault", seen[2]);
    c.stat("blocks read to their end after a fault", seen[3]);
    match g {
        Err(m) => c.fail("limit-fault-panic", || format!("{} for {:?}, fault at {} on {}", m, ops, at, hex(&data)), &data),
        Ok(Err(m)) => c.fail("limit-fault", || format!("{} (operations {:?}, fault {:?} at {}, stream {})", m, ops, kind, at, hex(&data)), &data),
        Ok(Ok(())) => {}
    }
}

pub fn c15(env: &Env) -> Check<'_> {
    let mut phases = vec![];
    for (len, name) in [(1u32, "all_sequences_1"), (2, "all_sequences_2"), (3, "all_sequences_3"), (4, "all_sequences_4"), (5, "all_sequences_5")] {
        phases.push(Phase::new(name, 6 * 12u64.pow(len), move |c: &mut Ctx| small_sequences(c, len)).batch(2048));
    }
    if env.n(0, 1) == 1 {
        for (len, name) in [(6u32, "all_sequences_6"), (7, "all_sequences_7")] {
            phases.push(Phase::new(name, 6 * 12u64.pow(len), move |c: &mut Ctx| small_sequences(c, len)).batch(2048));
        }
    }
    phases.push(Phase::new("nested_blocks", env.rn(2_000_000, 60_000_000), nested_blocks));
    phases.push(Phase::new("frames_within", env.rn(400_000, 10_000_000), frames_within));
    phases.push(Phase::new("failing_streams", env.rn(500_000, 15_000_000), failing_streams));
    phases.push(Phase::new("random_sequences", env.rn(1_500_000, 40_000_000), random_sequences));
    phases.push(Phase::new("bulk", env.n(4_000, 100_000), bulk_sequences).batch(2));
    Check {
        id: "C15",
        level: "exploration",
        rule: "Sequences of public ByteReader operations over small and large streams: all sequences of up to five (thorough: seven) of twelve operations on streams of 0 to 5 bytes, block-structured nestings, whole frames and property blocks inside limits that fit, cut or exceed them, streams that fail once in the middle of a read with every block read to its end afterwards, random sequences up to 3000 operations deep, and reads and blocks of up to 17 MB; each result compared with a reference model of nested limits, and the position checked after unwinding. Distinct by operations and data.",
        assumptions: vec!["after a read that failed because the stream ended the reader's position is unspecified; such a sequence ends there"],
        phases,
        need: vec!["limits reaching the end of the enclosing one", "reads refused by a limit", "sequences over large blocks", "reads refused by the end of the stream", "reads within all limits", "blocks discarded", "sequences unwound and checked", "failed composite reads", "frames and property blocks within limits", "reads that a fault of the stream broke off", "blocks read to their end after a fault"],
        exhaustive: false,
    }
}
