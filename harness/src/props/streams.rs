//! Properties of decoding streams: C05, C06, C07, C08, C09, C19, C21.
use super::*;
use crate::gen;
use crate::io::{Chunks, Fault};
use crate::mutate;
use crate::refdec::{self, split, Split};
use crate::refenc::{self, block, frame, put_prop, Style};
use crate::rng::{hash_bytes, Rng};
use crate::run::{hex, Phase};
use crate::source::*;
use crate::spec::*;
use mqtt_packet_3_5::mqtt_writer::MqttWriter;
use std::io::ErrorKind;

// ------------------------------------------------------------------ frames

/// a frame whose property block claims another length than it has
pub fn bad_block(r: &mut Rng, place: Place) -> Vec<u8> {
    let m = gen::mask_for(r, place);
    let l = gen::props_mask(r, place, m);
    let mut b = vec![];
    for (id, v) in &l {
        put_prop(&mut b, *id, v);
    }
    let claim = match r.below(5) {
        0 => b.len() + r.range(1, 4),
        1 => b.len().saturating_sub(r.range(1, 3)),
        2 => b.len() + 128,
        3 => VARINT_MAX as usize,
        _ => r.us(b.len() + 2),
    };
    let mut o = varint(claim as u32);
    o.extend(b);
    place_frame(place, &o)
}
/// a v5 frame around a given raw property block (length included)
pub fn place_frame(place: Place, blk: &[u8]) -> Vec<u8> {
    let cat = |a: &[u8], z: &[u8]| [a, blk, z].concat();
    match place {
        Place::Connect => frame(0x10, &cat(b"\0\x04MQTT\x05\x02\0\x3c", b"\0\x01c")),
        Place::Will => frame(0x10, &cat(b"\0\x04MQTT\x05\x06\0\x3c\0\0\x01c", b"\0\x01w\0\x01p")),
        Place::Connack => frame(0x20, &cat(&[0, 0], &[])),
        Place::Publish => frame(0x32, &cat(&[0, 1, b't', 0, 7], &[1, 2, 3])),
        Place::Puback => frame(0x40, &cat(&[0, 7, 0], &[])),
        Place::Pubrec => frame(0x50, &cat(&[0, 7, 0], &[])),
        Place::Pubrel => frame(0x62, &cat(&[0, 7, 0], &[])),
        Place::Pubcomp => frame(0x70, &cat(&[0, 7, 0], &[])),
        Place::Subscribe => frame(0x82, &cat(&[0, 7], &[0, 1, b'f', 1])),
        Place::Suback => frame(0x90, &cat(&[0, 7], &[1])),
        Place::Unsubscribe => frame(0xa2, &cat(&[0, 7], &[0, 1, b'f'])),
        Place::Unsuback => frame(0xb0, &cat(&[0, 7], &[0])),
        Place::Disconnect => frame(0xe0, &cat(&[0], &[])),
        Place::Auth => frame(0xf0, &cat(&[0x18], &[])),
    }
}

/// one complete frame of any kind
pub fn any_frame(r: &mut Rng, v: u8) -> Vec<u8> {
    let t = 1 + r.below(types_of(v)) as u8;
    match r.below(20) {
        0..=7 => {
            let p = gen::legal(r, v, t);
            refenc::encode(r, &p, v, Style::Free).0
        }
        8..=13 => {
            let p = gen::legal(r, v, t);
            let f = refenc::encode(r, &p, v, Style::Free).0;
            mutate::framed(r, &f)
        }
        14 => {
            // cut inside, declared length adjusted
            let p = gen::legal(r, v, t);
            let f = refenc::encode(r, &p, v, Style::Free).0;
            let h = header_len(&f);
            let n = r.us(f.len() - h + 1);
            frame(f[0], &f[h..h + n])
        }
        15 => {
            let p = gen::legal(r, v, t);
            let f = refenc::encode(r, &p, v, Style::Free).0;
            let mut b = f[header_len(&f)..].to_vec();
            for _ in 0..1 + r.us(6) {
                b.push(if r.bool() { 0 } else { r.u8() });
            }
            frame(f[0], &b)
        }
        16 | 17 => {
            let pl = *r.pick(&PLACES);
            bad_block(r, pl)
        }
        18 => {
            // first byte of one type, body of another
            let p = gen::legal(r, v, t);
            let f = refenc::encode(r, &p, v, Style::Free).0;
            let u = 1 + r.below(15) as u8;
            frame(u << 4 | fixed_flags(u), &f[header_len(&f)..])
        }
        _ => {
            let n = r.us(12);
            let b: Vec<u8> = (0..n).map(|_| if r.bool() { r.below(4) as u8 } else { r.u8() }).collect();
            frame(r.u8(), &b)
        }
    }
}
/// bodies from some kilobytes to many megabytes: one long part, or very many parts
pub fn large_frame(r: &mut Rng, v: u8, max: usize) -> Vec<u8> {
    let p = large_packet(r, v, max);
    refenc::encode(r, &p, v, Style::Free).0
}
pub fn large_packet(r: &mut Rng, v: u8, max: usize) -> MqttPacket {
    let size = *r.pick(&[9_000usize, 20_000, 66_000, 130_000, 300_000, 1_060_000, 2_200_000, 4_300_000, 9_000_000, 17_000_000]);
    let size = size.min(max) + r.us(5000);
    let parts = size.min(1_200_000);
    let text = |n: usize, k: usize| (0..n).map(|i| (b'a' + ((i * 7 + k) % 26) as u8) as char).collect::<String>();
    let unit = *r.pick(&[1usize, 5, 40, 3000, 60_000]);
    let users = |r: &mut Rng| -> UserProperties {
        let mut m = UserProperties::new();
        let one = r.bool();
        for i in 0..parts / (unit + 9) + 1 {
            m.entry(if one { "key".to_string() } else { format!("{:x}", i) }).or_default().push(text(unit, i));
        }
        m
    };
    let id = gen::u16nz(r);
    let some: [(u8, Val); 1] = [(0x26, Val::Pair("k".into(), "v".into()))];
    let p = match if v == 5 { r.below(13) } else { r.below(8) } {
        0 | 1 => MqttPacket::Publish(PublishPacket { payload: vec![r.u8(); size], ..min_publish() }),
        2 => MqttPacket::Publish(PublishPacket { qos: 1, message_id: Some(id), topic: text(size.min(65_535), 1), payload: text(size, 2).into_bytes(), ..min_publish() }),
        3 => {
            let mut p = base_with(Place::Publish, &some);
            if let MqttPacket::Publish(k) = &mut p {
                k.payload = vec![b'x'; size / 2];
                if let Some(x) = k.properties.as_mut() {
                    x.user_properties = users(r);
                }
            }
            p
        }
        4 => MqttPacket::Subscribe(SubscribePacket { qos: 1, message_id: id, properties: None, subscriptions: (0..parts / (unit + 3) + 1).map(|i| sub(&text(unit, i))).collect() }),
        5 => MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, message_id: id, properties: None, unsubscriptions: (0..parts / (unit + 2) + 1).map(|i| text(unit, i)).collect() }),
        6 if v == 5 && r.bool() => MqttPacket::Unsuback(UnsubackPacket { message_id: id, properties: None, granted: (0..size).map(|_| r.pick(UNSUBACK_CODES).1.clone()).collect() }),
        6 if v == 5 => MqttPacket::Suback(SubackPacket {
            reason_code: None,
            message_id: id,
            properties: None,
            granted_reason_codes: (0..size).map(|_| r.pick(SUBACK_CODES).1.clone()).collect(),
            granted: vec![],
        }),
        6 => MqttPacket::Suback(SubackPacket::new_v3(id, (0..size).map(|_| r.pick(&[Granted::QoS0, Granted::QoS1, Granted::QoS2]).clone()).collect())),
        7 => {
            let mut p = base_with(Place::Connect, &some);
            if let MqttPacket::Connect(k) = &mut p {
                k.client_id = text(size.min(65_535), 0);
                k.user_name = Some(text(size.min(65_535), 1));
                k.password = Some(text(unit, 2));
                if let Some(x) = k.properties.as_mut() {
                    x.user_properties = users(r);
                }
            }
            p
        }
        _ => {
            // any other packet that is small but for its user properties
            let place = *r.pick(&PLACES);
            let l: Vec<(u8, Val)> = users(r).into_iter().flat_map(|(k, vs)| vs.into_iter().map(move |v| (0x26, Val::Pair(k.clone(), v)))).collect();
            base_with(place, &l)
        }
    };
    // (below v5 only what exists there)
    p
}
/// the same with a defect somewhere, the remaining length right
pub fn large_damaged(r: &mut Rng, v: u8, max: usize) -> Vec<u8> {
    let mut f = large_frame(r, v, max);
    let Split::Frame(h, n) = split(&f) else { return f };
    if n < 20 {
        return f;
    }
    for _ in 0..1 + r.us(2) {
        match r.below(9) {
            0 => f[0] ^= 1 << r.below(4),
            1 => f[0] = *r.pick(&[0x00, 0xf1, 0xf0, 0x36, 0x10, 0x82, 0xd0]),
            2 => {
                let i = h + r.us(n);
                f[i] = r.u8();
            }
            3 | 4 => {
                let i = h + r.us(20);
                f[i] = if r.bool() { 0xff } else { r.u8() };
            }
            5 => {
                let i = h + n - 1 - r.us(20);
                f[i] = r.u8();
            }
            6 => {
                let i = h + r.us(n);
                f[i..].iter_mut().take(8).for_each(|b| *b = 0xff);
            }
            7 => {
                let cut = 1 + r.us(n / 2);
                return frame(f[0], &f[h..h + n - cut]);
            }
            _ => {
                let mut b = f[h..].to_vec();
                b.extend(std::iter::repeat(0).take(1 + r.us(3000)));
                return frame(f[0], &b);
            }
        }
    }
    f
}
pub fn types_of(v: u8) -> u64 {
    if v == 5 { 15 } else { 14 }
}
pub fn header_len(f: &[u8]) -> usize {
    match split(f) {
        Split::Frame(h, _) => h,
        _ => panic!("harness: frame expected"),
    }
}
pub fn legal_frame(r: &mut Rng, v: u8) -> Vec<u8> {
    let t = 1 + r.below(types_of(v)) as u8;
    let p = gen::legal(r, v, t);
    refenc::encode(r, &p, v, Style::Free).0
}

/// small frames of every type and version that between them use every field and property
pub fn base_frames() -> Vec<(Vec<u8>, u8)> {
    let mut r = Rng::new(77);
    let mut out: Vec<(Vec<u8>, u8)> = vec![];
    for v in [3u8, 4, 5] {
        for t in 1..=types_of(v) as u8 {
            // the smallest and a few richer ones of moderate size
            let mut best: Vec<Vec<u8>> = vec![];
            for _ in 0..400 {
                let p = gen::legal(&mut r, v, t);
                let f = refenc::encode(&mut r, &p, v, Style::Free).0;
                if f.len() <= 90 {
                    best.push(f);
                }
            }
            best.sort_by_key(|f| f.len());
            best.dedup();
            let n = best.len();
            for k in [0, n / 3, 2 * n / 3, n.saturating_sub(1)] {
                if let Some(f) = best.get(k) {
                    out.push((f.clone(), v));
                }
            }
        }
    }
    // every property of every place once, one frame per place
    for p in PLACES {
        let mut l = vec![];
        for id in allowed(p) {
            l.push((*id, match wire_type(*id).unwrap() {
                WT::Bool | WT::U8 => Val::U8(1),
                WT::U16 => Val::U16(3),
                WT::U32 => Val::U32(9),
                WT::Var => Val::Var(5),
                WT::Str => Val::Str("s".into()),
                WT::TextBin | WT::Bin => Val::Bin(b"b".to_vec()),
                WT::Pair => Val::Pair("k".into(), "v".into()),
            }));
        }
        out.push((place_frame(p, &block(&l)), 5));
    }
    out.sort();
    out.dedup();
    out
}

// ------------------------------------------------------------------ C05

/// outcome of the frame alone followed by `tail`; reports inexact consumption
fn solo(c: &mut Ctx, f: &[u8], v: u8) -> Option<Res<MqttPacket>> {
    let mut b = f.to_vec();
    b.extend_from_slice(&[0xd0, 0x00, 0x5a, 0xff, 0x00]);
    match dec_tail(c, &b, v, 5) {
        Err(m) => {
            c.fail("decode-panic", || format!("v{}: {}", v, m), f);
            None
        }
        Ok((r, exact)) => {
            c.stat(if r.is_ok() { "frames accepted" } else { "frames refused" }, 1);
            if !exact {
                c.fail("inexact", || format!("v{}: {} did not leave the stream right behind the frame", v, show(&r)), f);
            }
            Some(r)
        }
    }
}
fn solo_only(c: &mut Ctx, f: &[u8], v: u8) {
    c.eval(hash_bytes(f) ^ v as u64, true);
    solo(c, f, v);
}
fn streams05(c: &mut Ctx) {
    let v0 = gen::version(&mut c.rng);
    let mixed = c.rng.pct(20);
    let n = match c.rng.below(10) {
        0..=6 => c.rng.range(2, 8),
        7 | 8 => c.rng.range(9, 40),
        _ => c.rng.range(41, 300),
    };
    let fs: Vec<(Vec<u8>, u8)> = (0..n)
        .map(|_| {
            let v = if mixed { gen::version(&mut c.rng) } else { v0 };
            (any_frame(&mut c.rng, v), v)
        })
        .collect();
    let mut want = vec![];
    for (f, v) in &fs {
        match solo(c, f, *v) {
            Some(r) => want.push(r),
            None => return,
        }
    }
    let all: Vec<u8> = fs.iter().flat_map(|x| x.0.clone()).collect();
    c.eval(hash_bytes(&all), true);
    c.sample(|| format!("{} frames: {}", n, short(&hex(&all), 300)));
    let kind = c.rng.below(3);
    let r = c.guard(|| {
        let mut d = match kind {
            0 => PacketDecoder::from_stream(Stream::new(&all)),
            1 => bufdec(Stream::new(&all), 1 + (all.len() % 97)),
            _ => PacketDecoder::new(ByteReader::new(BufReader::new(Stream::new(&all)))),
        };
        let mut got = vec![];
        for (i, (_, v)) in fs.iter().enumerate() {
            if !d.has_more() {
                return Err((i, "has_more is false although frames remain".to_string()));
            }
            let r = d.decode_packet(*v);
            if !same(&r, &want[i]) {
                return Err((i, format!("in the stream {} but alone {}", show(&r), show(&want[i]))));
            }
            got.push(r);
        }
        if d.has_more() {
            return Err((n, "has_more is true at the end".to_string()));
        }
        if let Ok(p) = d.decode_packet(fs[0].1) {
            return Err((n, format!("a packet out of nothing: {}", pd(&p))));
        }
        Ok(got.iter().filter(|x| x.is_err()).count())
    });
    match r {
        Err(m) => c.fail("decode-panic", || m, &all),
        Ok(Err((i, m))) => {
            c.fail("stream", || format!("frame {} of {} ({:?}): {}", i, n, fs.iter().map(|(f, v)| format!("v{} {}", v, short(&hex(f), 120))).take(i + 1).skip(i.saturating_sub(2)).collect::<Vec<_>>(), m), &all)
        }
        Ok(Ok(e)) => {
            c.stat("streams decoded", 1);
            c.stat("frames in streams", n as u64);
            c.stat("refused frames inside streams", e as u64);
        }
    }
}
/// a stream to which more is added after its end was seen, like a file that somebody writes to
struct Growing<'a> {
    data: &'a [u8],
    pos: usize,
    there: std::rc::Rc<std::cell::Cell<usize>>,
    most: usize,
}
impl std::io::Read for Growing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = (self.there.get() - self.pos).min(buf.len()).min(self.most);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn growing05(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let n = c.rng.range(2, 9);
    let mut fs = vec![];
    for _ in 0..n {
        let f = if c.rng.bool() { legal_frame(&mut c.rng, v) } else { any_frame(&mut c.rng, v) };
        match solo(c, &f, v) {
            Some(r) => fs.push((f, r)),
            None => return,
        }
    }
    let all: Vec<u8> = fs.iter().flat_map(|x| x.0.clone()).collect();
    c.eval(hash_bytes(&all) ^ crate::rng::mix(v as u64), true);
    c.sample(|| format!("{} frames, added one after the other: {}", n, short(&hex(&all), 300)));
    let room = *c.rng.pick(&[4usize, 100, 9000]);
    let (cap, most) = (1 + c.rng.us(room), *c.rng.pick(&[1usize, 7, usize::MAX]));
    let ask: Vec<(usize, bool)> = (0..n).map(|_| (c.rng.us(4), c.rng.pct(30))).collect();
    let r = c.guard(|| {
        let there = std::rc::Rc::new(std::cell::Cell::new(0));
        let mut d = PacketDecoder::from_bufreader(BufReader::with_capacity(cap, Growing { data: &all, pos: 0, there: there.clone(), most }));
        let mut ends = 0u64;
        for (i, (f, w)) in fs.iter().enumerate() {
            for _ in 0..ask[i].0 {
                if d.has_more() {
                    return Err((i, "has_more is true although everything there was is consumed".to_string()));
                }
            }
            if ask[i].1 {
                if let Ok(p) = d.decode_packet(v) {
                    return Err((i, format!("a packet out of nothing: {}", pd(&p))));
                }
            }
            ends += (ask[i].0 > 0 || ask[i].1) as u64;
            there.set(there.get() + f.len());
            if !d.has_more() {
                return Err((i, "has_more is false although another frame has arrived".to_string()));
            }
            let g = d.decode_packet(v);
            if !same(&g, w) {
                return Err((i, format!("{} although alone {}", show(&g), show(w))));
            }
        }
        Ok(ends)
    });
    match r {
        Err(m) => c.fail("decode-panic", || m, &all),
        Ok(Err((i, m))) => c.fail("growing", || format!("v{} frame {} of {} in a stream that grows (asked {:?}, buffer of {}): {}", v, i, n, ask, cap, m), &all),
        Ok(Ok(e)) => {
            c.stat("frames that arrived after the end of the stream was seen", e);
        }
    }
}
/// v3: does a substituted frame still end where it says
pub fn substitutions(bases: &[(Vec<u8>, u8)], idx: u64) -> Option<(Vec<u8>, u8)> {
    // idx runs over (frame, position in body or first byte, value)
    let mut k = idx;
    for (f, v) in bases {
        let h = header_len(f);
        let slots = 1 + (f.len() - h) as u64;
        let n = slots * 256;
        if k < n {
            let (s, x) = ((k / 256) as usize, (k % 256) as u8);
            let mut g = f.clone();
            let at = if s == 0 { 0 } else { h + s - 1 };
            g[at] = x;
            return Some((g, *v));
        }
        k -= n;
    }
    None
}
pub fn sub_count(bases: &[(Vec<u8>, u8)]) -> u64 {
    bases.iter().map(|(f, _)| (1 + f.len() - header_len(f)) as u64 * 256).sum()
}
/// every re-framed cut and every small surplus of the base frames
pub fn reframed(bases: &[(Vec<u8>, u8)]) -> Vec<(Vec<u8>, u8)> {
    let mut o = vec![];
    for (f, v) in bases {
        let b = &f[header_len(f)..];
        for k in 0..b.len() {
            o.push((frame(f[0], &b[..k]), *v));
        }
        for extra in [&[0u8][..], &[0, 0], &[1], &[0xff], &[0x26, 0, 0, 0, 0], &[0xc0, 0], &[0x26], &[5; 200]] {
            o.push((frame(f[0], &[b, extra].concat()), *v));
        }
        // trailing garbage in place of the last bytes
        for k in 1..b.len().min(6) {
            let mut x = b.to_vec();
            for i in 0..k {
                x[b.len() - 1 - i] = 0xff;
            }
            o.push((frame(f[0], &x), *v));
        }
    }
    o.sort();
    o.dedup();
    o
}
pub fn c05(env: &Env) -> Check<'_> {
    let bases = base_frames();
    let re = reframed(&bases);
    let (nr, ns) = (re.len() as u64, sub_count(&bases));
    Check {
        id: "C05",
        level: "exploration",
        rule: "Streams of 2 to 300 frames (legal in any layout, damaged, cut or extended inside, wrong property lengths, foreign bodies, garbage; versions fixed or changing): each outcome compared with the same frame alone on a fresh decoder, the byte behind it checked, and has_more before and after. Systematically: every byte of 150 base frames replaced by all 256 values, every re-framed cut and surplus; legal and damaged frames up to 17 MB; streams to which frames are added after their end was seen. Distinct by stream bytes.",
        assumptions: vec![],
        phases: vec![
            Phase::new("cuts_and_surplus", nr, move |c: &mut Ctx| {
                let (f, v) = re[c.idx as usize].clone();
                solo_only(c, &f, v)
            }),
            Phase::new("substitutions", ns, move |c: &mut Ctx| {
                let (f, v) = substitutions(&bases, c.idx).unwrap();
                if matches!(split(&f), Split::Frame(h, l) if h + l == f.len()) {
                    solo_only(c, &f, v)
                }
            }),
            Phase::new("large", env.n(500, 10_000), |c: &mut Ctx| {
                let v = gen::version(&mut c.rng);
                let f = if c.rng.pct(20) { large_frame(&mut c.rng, v, usize::MAX) } else { large_damaged(&mut c.rng, v, usize::MAX) };
                c.stat("large frames", 1);
                solo_only(c, &f, v)
            }).batch(2),
            Phase::new("marathon", env.n(4, 24), |c: &mut Ctx| marathon(c, true)).batch(1),
            Phase::new("growing", env.rn(60_000, 2_000_000), growing05),
            Phase::new("streams", env.rn(250_000, 8_000_000), streams05),
        ],
        need: vec!["frames on very long connections", "frames that arrived after the end of the stream was seen", "streams decoded", "frames accepted", "frames refused", "refused frames inside streams", "large frames"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C06

/// everything a read may fail with, but for Interrupted, which asks for another try
const KINDS: [ErrorKind; 37] = [
    ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe,
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::HostUnreachable, ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::NetworkDown,
    ErrorKind::AlreadyExists, ErrorKind::NotADirectory, ErrorKind::IsADirectory, ErrorKind::DirectoryNotEmpty, ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::WriteZero, ErrorKind::StorageFull,
    ErrorKind::NotSeekable, ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy, ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock, ErrorKind::TooManyLinks, ErrorKind::ArgumentListTooLong, ErrorKind::Unsupported, ErrorKind::OutOfMemory,
    ErrorKind::CrossesDevices,
];
fn any_kind(r: &mut Rng) -> ErrorKind {
    // the everyday ones as often as all the others
    KINDS[if r.bool() { r.us(6) } else { r.us(KINDS.len()) }]
}
fn any_mode(r: &mut Rng) -> usize {
    let k = any_kind(r);
    1 + KINDS.iter().position(|x| *x == k).unwrap_or(0) + if r.bool() { KINDS.len() } else { 0 }
}

pub fn big_capacity(r: &mut Rng) -> usize {
    *r.pick(&[(1usize << 20) - 1, 1 << 20, (1 << 20) + 1, 2_000_000, (4 << 20) + 1, (16 << 20) + 1])
}
fn plan(r: &mut Rng) -> (Chunks, usize) {
    let ch = match r.below(5) {
        0 => Chunks::All,
        1 => Chunks::Fixed(1),
        2 => Chunks::Fixed(r.range(2, 9)),
        3 => Chunks::Random(r.next(), 16),
        _ => Chunks::Random(r.next(), 3000),
    };
    let cap = match r.below(40) {
        0..=9 => 8192,
        10..=19 => 1,
        20..=29 => r.range(2, 20),
        30..=38 => r.range(21, 4000),
        _ => *r.pick(&[65_535usize, 65_536, 65_537, 70_000, 131_072]),
    };
    // a buffer of megabytes is rare: it costs
    let cap = if r.below(1200) == 0 { big_capacity(r) } else { cap };
    (ch, cap)
}

#[allow(clippy::too_many_arguments)]
fn cut_once(c: &mut Ctx, pre: &[(Vec<u8>, Res<MqttPacket>)], f: &[u8], whole: &Res<MqttPacket>, k: usize, v: u8, mode: usize, probe: bool) {
    let mut data: Vec<u8> = pre.iter().flat_map(|x| x.0.clone()).collect();
    let at = data.len() + k;
    data.extend_from_slice(f);
    let (ch, cap) = plan(&mut c.rng);
    let fault = match mode {
        0 => Fault::None,
        m if m <= KINDS.len() => Fault::Forever(at, KINDS[m - 1]),
        m => Fault::Once(at, KINDS[(m - 1) % KINDS.len()]),
    };
    let once = mode > KINDS.len();
    // end of stream: the bytes are simply not there; after a lasting fault neither
    let seen = if once { &data[..] } else { &data[..at] };
    let s = Stream::new(seen).chunks(ch).fault(fault);
    let r = c.guard(|| {
        let mut d = bufdec(s, cap);
        for (i, (_, w)) in pre.iter().enumerate() {
            if probe && !d.has_more() {
                return Err(format!("has_more is false before complete frame {}", i));
            }
            let g = d.decode_packet(v);
            if !same(&g, w) {
                return Err(format!("complete frame {} before the cut gave {} instead of {}", i, show(&g), show(w)));
            }
        }
        if probe {
            let h = d.has_more();
            if mode == 0 && h != (k > 0) {
                return Err(format!("has_more is {} with {} bytes of the next frame delivered", h, k));
            }
        }
        let g = d.decode_packet(v);
        match &g {
            Err(_) => {}
            Ok(_) if once && same(&g, whole) => {}
            Ok(p) => return Err(format!("a packet from an incomplete frame: {}", pd(p))),
        }
        if !once {
            if mode == 0 && d.has_more() {
                return Err("has_more is true after the end of the stream".to_string());
            }
            for _ in 0..3 {
                if let Ok(p) = d.decode_packet(v) {
                    return Err(format!("a packet after the end of the stream: {}", pd(&p)));
                }
                if mode == 0 && d.has_more() {
                    return Err("has_more is true after the end of the stream".to_string());
                }
            }
        }
        Ok(g.is_ok())
    });
    c.stat(if mode == 0 { "cuts: end of stream" } else if once { "cuts: one-off error" } else { "cuts: lasting error" }, 1);
    let what = || format!("v{} frame {} cut at {} of {} (mode {} {:?}, chunks/capacity {}): ", v, short(&hex(f), 200), k, f.len(), mode, fault, cap);
    match r {
        Err(m) => c.fail("cut-panic", || format!("{}{}", what(), m), &data),
        Ok(Err(m)) => c.fail("cut", || format!("{}{}", what(), m), &data),
        Ok(Ok(resumed)) => {
            if resumed {
                c.stat("one-off errors survived", 1);
            }
        }
    }
}
fn cut_frame(c: &mut Ctx, f: &[u8], v: u8, every: bool) {
    let n = c.rng.us(3);
    let mut pre = vec![];
    for _ in 0..n {
        let g = if c.rng.pct(70) { legal_frame(&mut c.rng, v) } else { any_frame(&mut c.rng, v) };
        match c.guard(|| PacketDecoder::from_stream(Cursor::new(&g)).decode_packet(v)) {
            Ok(w) => pre.push((g, w)),
            Err(_) => return,
        }
    }
    let Ok(whole) = c.guard(|| PacketDecoder::from_stream(Cursor::new(f)).decode_packet(v)) else { return };
    c.eval(hash_bytes(f) ^ v as u64, f.len() > 2);
    c.stat(if whole.is_ok() { "accepted frames cut" } else { "refused frames cut" }, 1);
    let ks: Vec<usize> = if every || f.len() <= 40 {
        (0..f.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..16).map(|_| c.rng.us(f.len())).collect();
        v.extend([f.len() - 1, f.len() - 2, 0, 1, 2, f.len() / 2]);
        // missing or present by a round number of bytes, and next to it
        let head = (2..5usize).find(|i| f.get(i - 1).is_some_and(|b| *b < 0x80)).unwrap_or(5);
        let mut round = vec![];
        for e in 7..25u32 {
            for d in [1usize << e, (1 << e) - 1, (1 << e) + 1] {
                round.extend(f.len().checked_sub(d));
                round.extend([d, head + d]);
            }
        }
        let m = 1 + c.rng.us(60);
        round.extend((1..9).filter_map(|i| f.len().checked_sub((m + i) << 16)));
        round.retain(|k| *k < f.len());
        for _ in 0..if f.len() > 20_000 { 24 } else { 8 } {
            v.extend(round.get(c.rng.us(round.len().max(1))));
        }
        v.extend((7..25u32).filter_map(|e| f.len().checked_sub(1 << e)).filter(|k| *k < f.len()));
        v.sort_unstable();
        v.dedup();
        v
    };
    for k in ks {
        cut_once(c, &pre, f, &whole, k, v, 0, k % 2 == 0);
        let m = any_mode(&mut c.rng);
        cut_once(c, &pre, f, &whole, k, v, m, k % 3 == 0);
        // the packet types, used directly on what there is of the frame
        let fault = if k % 2 == 0 { Fault::None } else { Fault::Forever(k, any_kind(&mut c.rng)) };
        let (ch, cap) = plan(&mut c.rng);
        let s = Stream::new(&f[..k]).chunks(ch).fault(fault);
        c.stat("cuts: packet types used directly", 1);
        match c.guard(|| super::codec::decode_typed(&mut ByteReader::new(BufReader::with_capacity(cap, s)), v)) {
            Err(m) => c.fail("cut-panic", || format!("v{} packet type on {} cut at {}: {}", v, short(&hex(f), 200), k, m), f),
            // they leave surplus behind their fields to the caller; then it may be missing too
            Ok(Ok(p)) if matches!(&whole, Ok(w) if *w == p) => c.stat("only surplus missing", 1),
            Ok(Ok(p)) => c.fail("cut-typed", || format!("v{} the packet type gives a packet from {} of {} bytes of {}: {}", v, k, f.len(), short(&hex(f), 200), pd(&p)), f),
            Ok(Err(_)) => {}
        }
        if every {
            let m = any_mode(&mut c.rng);
            cut_once(c, &[], f, &whole, k, v, m, false);
        }
    }
    c.sample(|| format!("v{} {} cut everywhere", v, short(&hex(f), 200)));
}
pub fn c06(env: &Env) -> Check<'_> {
    let bases = base_frames();
    let mut sys = reframed(&bases);
    sys.extend(bases);
    // bodies that the type does not use
    for t in [0xc0u8, 0xd0, 0xe0] {
        for n in [1usize, 2, 5, 100, 200, 20_000] {
            for v in [3, 4, 5] {
                sys.push((frame(t, &vec![0; n]), v));
            }
        }
    }
    let n = sys.len() as u64;
    Check {
        id: "C06",
        level: "exploration",
        rule: "Base frames of every type and version, their re-framed cuts and surplus variants, and random legal and damaged frames; each cut at every byte (long random ones at sampled bytes), behind zero to two complete frames, with end of stream, lasting errors and one-off errors of six kinds, under random read sizes and buffer capacities. Distinct by frame bytes.",
        assumptions: vec!["a one-off error may be retried (then the exact packet must come out) or reported; what follows it is unspecified"],
        phases: vec![
            Phase::new("systematic", n, move |c: &mut Ctx| {
                let (f, v) = sys[c.idx as usize].clone();
                let every = f.len() < 2000;
                cut_frame(c, &f, v, every)
            })
            .batch(8),
            Phase::new("large", env.n(60, 1_500), |c: &mut Ctx| {
                let v = gen::version(&mut c.rng);
                let f = if c.rng.pct(70) { large_frame(&mut c.rng, v, 1_060_000) } else { large_damaged(&mut c.rng, v, 1_060_000) };
                c.stat("large frames cut", 1);
                cut_frame(c, &f, v, false)
            }).batch(1),
            Phase::new("random", env.rn(100_000, 4_000_000), |c| {
                let v = gen::version(&mut c.rng);
                let f = if c.rng.bool() { legal_frame(&mut c.rng, v) } else { any_frame(&mut c.rng, v) };
                cut_frame(c, &f, v, f.len() < 120)
            }),
        ],
        need: vec!["accepted frames cut", "cuts: packet types used directly", "cuts: end of stream", "cuts: lasting error", "cuts: one-off error"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C07

fn baseline(c: &mut Ctx, data: &[u8], vs: &[u8]) -> Option<Vec<Res<MqttPacket>>> {
    c.guard(|| loop_decode(&mut PacketDecoder::from_stream(Cursor::new(data)), vs, data.len() + 2)).ok()
}
/// the documented loop, with the versions in turn
fn loop_decode<R: std::io::Read>(d: &mut PacketDecoder<R>, vs: &[u8], max: usize) -> Vec<Res<MqttPacket>> {
    let mut out = vec![];
    while d.has_more() {
        out.push(d.decode_packet(vs[out.len() % vs.len()]));
        if out.len() > max {
            break;
        }
    }
    out
}
fn delivery(c: &mut Ctx, data: &[u8], vs: &[u8], reps: usize) {
    let Some(want) = baseline(c, data, vs) else { return };
    for _ in 0..reps {
        let (ch, cap) = plan(&mut c.rng);
        let intr = if c.rng.bool() { *c.rng.pick(&[50u64, 300, 700, 950]) } else { 0 };
        let seed = c.rng.next();
        let ch2 = format!("{:?}", ch);
        let burst = if c.rng.pct(20) { (c.rng.us(data.len() + 1), *c.rng.pick(&[5u32, 20, 130, 300, 1100, 5000])) } else { (0, 0) };
        let s = Stream::new(data).chunks(ch).interrupt(intr, seed).burst(burst.0, burst.1);
        let obs = s.obs.clone();
        let r = c.guard(|| {
            let mut d = bufdec(s, cap);
            // has_more asked repeatedly changes nothing
            let mut out = vec![];
            while d.has_more() && d.has_more() {
                out.push(d.decode_packet(vs[out.len() % vs.len()]));
                if out.len() > data.len() + 2 {
                    break;
                }
            }
            out
        });
        c.stat("deliveries compared", 1);
        c.stat("reads served", obs.reads.get());
        c.stat("interrupted reads", obs.interrupts.get());
        c.stat("bursts of interruptions", (burst.1 > 0) as u64);
        let what = || format!("versions {:?}, chunks {}, capacity {}, interrupts {}/1000, {} in a row at {}", vs, ch2, cap, intr, burst.1, burst.0);
        match r {
            Err(m) => c.fail("delivery-panic", || format!("{}: {}", what(), m), data),
            Ok(got) => {
                let bad = got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| !same(a, b));
                if bad {
                    let i = got.iter().zip(&want).take_while(|(a, b)| same(a, b)).count();
                    c.fail(
                        "delivery",
                        || format!("{}: {} outcomes instead of {}, first difference at {}: {} instead of {}", what(), got.len(), want.len(), i, got.get(i).map_or("nothing".into(), show), want.get(i).map_or("nothing".into(), show)),
                        data,
                    );
                }
            }
        }
    }
}
pub fn c07(env: &Env) -> Check<'_> {
    let bases = base_frames();
    let nb = bases.len() as u64;
    Check {
        id: "C07",
        level: "exploration",
        rule: "Streams of legal, damaged and garbage frames, also cut or followed by loose bytes, with packets larger than the buffer; delivered under scripted read sizes (1 byte to everything), buffer capacities from 1 and interrupted reads, up to 5000 in a row; the sequence of has_more/decode results compared with one-piece delivery. Distinct by stream bytes.",
        assumptions: vec!["error texts are not compared, only that an error is returned"],
        phases: vec![
            Phase::new("bulk", env.n(60, 2_000), |c: &mut Ctx| {
                let v = gen::version(&mut c.rng);
                let mut b = legal_frame(&mut c.rng, v);
                b.extend(if c.rng.pct(60) { large_frame(&mut c.rng, v, 2_200_000) } else { large_damaged(&mut c.rng, v, 2_200_000) });
                b.extend(any_frame(&mut c.rng, v));
                c.eval(hash_bytes(&b), true);
                c.stat("streams with large frames", 1);
                delivery(c, &b, &[v], 4)
            }).batch(1),
            Phase::new("base_frames", nb * 8, move |c: &mut Ctx| {
                let (f, v) = bases[(c.idx % nb) as usize].clone();
                let (g, _) = bases[((c.idx * 7 + 3) % nb) as usize].clone();
                let d = [f, g].concat();
                c.eval(hash_bytes(&d), true);
                delivery(c, &d, &[v], 6)
            }),
            Phase::new("streams", env.rn(80_000, 3_000_000), |c| {
                let v0 = gen::version(&mut c.rng);
                let n = c.rng.range(1, 8);
                let mut data = vec![];
                for _ in 0..n {
                    data.extend(any_frame(&mut c.rng, v0));
                }
                if c.rng.pct(25) {
                    data.truncate(c.rng.us(data.len() + 1));
                }
                if c.rng.pct(15) {
                    let t = mutate::raw(&mut c.rng, &data);
                    data = t;
                }
                c.sample(|| hex(&data));
                c.eval(hash_bytes(&data), data.len() > 2);
                c.sample(|| format!("v{} {} frames, {} bytes: {}", v0, n, data.len(), short(&hex(&data), 200)));
                let vs: Vec<u8> = if c.rng.pct(85) { vec![v0] } else { vec![v0, 4, 5] };
                delivery(c, &data, &vs, 5)
            }),
            Phase::new("large", env.rn(300, 6000), |c| {
                let v = gen::version(&mut c.rng);
                let mut data = vec![];
                for _ in 0..3 {
                    let n = *c.rng.pick(&[8000usize, 8192, 8193, 20_000, 70_000, 150_000]) + c.rng.us(20);
                    let p = MqttPacket::Publish(PublishPacket { payload: (0..n).map(|k| (k % 253) as u8).collect(), ..min_publish() });
                    data.extend(refenc::encode(&mut c.rng, &p, v, Style::Free).0);
                    data.extend(any_frame(&mut c.rng, v));
                    let s = gen::text_n(&mut c.rng, *[8190usize, 16_000, 65_535].get(n % 3).unwrap());
                    data.extend(refenc::encode(&mut c.rng, &field_packet(n % 8, s, v), v, Style::Free).0);
                }
                c.eval(hash_bytes(&data), true);
                delivery(c, &data, &[v], 3)
            })
            .batch(4),
        ],
        need: vec!["deliveries compared", "interrupted reads", "bursts of interruptions"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C08

/// decode everything, counting calls
fn survive(c: &mut Ctx, data: &[u8], vs: &[u8], cap: usize) {
    let r = c.guard(|| {
        let mut d = bufdec(Stream::new(data), cap);
        let mut calls = 0usize;
        let mut ok = 0u64;
        while d.has_more() {
            if d.decode_packet(vs[calls % vs.len()]).is_ok() {
                ok += 1;
            }
            calls += 1;
            if calls > data.len() {
                break;
            }
        }
        // and once more than asked for
        let _ = d.decode_packet(vs[0]);
        (calls, ok)
    });
    match r {
        Err(m) => c.fail("decode-panic", || format!("versions {:?}: {}", vs, m), data),
        Ok((calls, ok)) => {
            c.stat("decode calls", calls as u64);
            c.stat("packets decoded", ok);
            if calls > data.len() {
                c.fail("endless", || format!("more decode calls than the {} input bytes, versions {:?}", data.len(), vs), data);
            }
        }
    }
}
/// exhaustive short streams: one case per (first two bytes, length, version)
fn short_streams(c: &mut Ctx) {
    let v = [3u8, 4, 5][(c.idx / 65536) as usize % 3];
    let (a, b) = ((c.idx >> 8) as u8, c.idx as u8);
    let r = c.guard(|| {
        let mut calls = 0u64;
        let mut worst = None;
        for x in 0..=256u32 {
            let s3 = [a, b, x as u8];
            let data = if x == 256 { &s3[..2] } else { &s3[..] };
            let mut d = PacketDecoder::from_bufreader(BufReader::with_capacity(8, Stream::new(data)));
            let mut n = 0;
            while d.has_more() && n <= data.len() {
                let _ = d.decode_packet(v);
                n += 1;
            }
            calls += n as u64;
            if n > data.len() {
                worst = Some(data.to_vec());
            }
        }
        (calls, worst)
    });
    c.eval(crate::rng::mix(c.idx), true);
    c.stat("short streams", 257);
    match r {
        Err(m) => c.fail("decode-panic", || format!("v{} stream starting {:02x}{:02x}: {}", v, a, b, m), &[a, b]),
        Ok((n, w)) => {
            c.stat("decode calls", n);
            if let Some(w) = w {
                c.fail("endless", || format!("v{}: more calls than bytes on {}", v, hex(&w)), &w);
            }
        }
    }
}
/// all bodies of two bytes (and, thorough, three) behind every first byte
fn short_bodies(c: &mut Ctx, len: usize) {
    let mut k = c.idx;
    let v = [3u8, 4, 5][(k % 3) as usize];
    k /= 3;
    let first = (k % 256) as u8;
    k /= 256;
    let mut f = vec![first, len as u8, 0, 0];
    f.resize(2 + len, 0);
    for i in 0..len - 1 {
        f[2 + i] = (k % 256) as u8;
        k /= 256;
    }
    let r = c.guard(|| {
        let mut ok = 0u64;
        for x in 0..=255u8 {
            f[1 + len] = x;
            let mut d = PacketDecoder::from_bufreader(BufReader::with_capacity(8, Stream::new(&f)));
            ok += d.decode_packet(v).is_ok() as u64;
        }
        ok
    });
    c.eval(crate::rng::mix(c.idx ^ (len as u64) << 50), true);
    c.stat("short frames", 256);
    match r {
        Err(m) => c.fail("decode-panic", || format!("v{} first byte {:02x}, body of {}: {}", v, first, len, m), &f),
        Ok(n) => c.stat("packets decoded", n),
    }
}
fn random_bytes(c: &mut Ctx) {
    let r = &mut c.rng;
    let n = match r.below(6) {
        0 => r.us(12),
        1..=3 => r.us(120),
        4 => r.us(2000),
        _ => r.us(30),
    };
    let style = r.below(4);
    let mut data: Vec<u8> = (0..n)
        .map(|_| match style {
            0 => r.u8(),
            1 => r.below(8) as u8,
            2 => *r.pick(&[0x10u8, 0x20, 0x30, 0x32, 0x36, 0x40, 0x62, 0x82, 0x90, 0xa2, 0xb0, 0xe0, 0xf0, 0, 1, 2, 3, 4, 5, 0x26, 0x1f, 0x80, 0xff]),
            _ => if r.bool() { r.below(5) as u8 } else { r.u8() },
        })
        .collect();
    if r.pct(30) && !data.is_empty() {
        // plausible start
        data[0] = *r.pick(&[0x10u8, 0x20, 0x30, 0x32, 0x34, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xa2, 0xb0, 0xc0, 0xd0, 0xe0, 0xf0]);
    }
    let vs: Vec<u8> = match r.below(4) {
        0 => vec![r.u8(), r.u8(), r.u8()],
        _ => vec![gen::version(r)],
    };
    let cap = 1 + r.us(64);
    c.sample(|| hex(&data));
    c.eval(hash_bytes(&data), n > 1);
    c.stat("input bytes", n as u64);
    c.sample(|| format!("versions {:?} {}", vs, short(&hex(&data), 200)));
    survive(c, &data, &vs, cap);
}
fn mutated_streams(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let n = c.rng.range(1, 6);
    let mut data = vec![];
    for _ in 0..n {
        data.extend(any_frame(&mut c.rng, v));
    }
    if c.rng.bool() {
        data = mutate::raw(&mut c.rng, &data);
    }
    let vs: Vec<u8> = if c.rng.pct(75) { vec![v] } else { vec![v, c.rng.u8(), gen::version(&mut c.rng)] };
    c.sample(|| hex(&data));
    c.eval(hash_bytes(&data), true);
    c.stat("input bytes", data.len() as u64);
    let cap = 1 + c.rng.us(300);
    survive(c, &data, &vs, cap);
}
fn hostile_encode(c: &mut Ctx) {
    let (p, v) = if c.rng.pct(75) { gen::hostile(&mut c.rng) } else { gen::any_legal(&mut c.rng) };
    let v = if c.rng.bool() { v } else { c.rng.u8() };
    c.stat("packets offered to the encoder", 1);
    match enc(c, &p, v) {
        Err(m) => c.fail("encode-panic", || format!("version {}: {} packet {}", v, m, pd(&p)), &[]),
        Ok(Err(_)) => c.eval(hash_bytes(format!("{:?}", p).as_bytes()) ^ v as u64, true),
        Ok(Ok(b)) => {
            c.eval(hash_bytes(&b) ^ v as u64, true);
            // whatever came out must also be digestible, at any version
            let v2 = if c.rng.bool() { v } else { c.rng.u8() };
            survive(c, &b, &[v2], 512);
        }
    }
}
/// random public reader, writer and per-type operations, only watching for panics and hangs
fn wild_ops(c: &mut Ctx) {
    let v = if c.rng.pct(70) { gen::version(&mut c.rng) } else { c.rng.u8() };
    let mut data = vec![];
    for _ in 0..c.rng.range(1, 3) {
        data.extend(any_frame(&mut c.rng, 5));
    }
    if c.rng.bool() {
        data = mutate::raw(&mut c.rng, &data);
    }
    if c.rng.pct(30) {
        // start in the middle
        let k = c.rng.us(data.len() + 1);
        data.drain(..k);
    }
    let n = c.rng.range(1, 30);
    let cap = 1 + c.rng.us(32);
    let mut r = Rng::new(c.rng.next());
    c.sample(|| hex(&data));
    c.eval(hash_bytes(&data), true);
    c.stat("public operations", n as u64);
    let e = c.guard(|| {
        let mut d = bufdec(Stream::new(&data), cap);
        let mut w = MqttWriter::new(r.us(9));
        let rd = &mut d.reader;
        for _ in 0..n {
            let len = match r.below(5) {
                0 => 0,
                1 => r.next() as u32,
                2 => u32::MAX,
                _ => r.us(40) as u32,
            };
            let cmd = PacketType::from_bits(r.below(17) as u8);
            let fh = FixedHeader { cmd, dup: r.bool(), qos: r.below(5) as u8, retain: r.bool() };
            match r.below(42) {
                0 => drop(rd.read_header()),
                1 | 2 => rd.take(len),
                3 => rd.reset_limit(),
                4 => drop(rd.read_len(len & 0xffffff)),
                5 => drop(rd.read_u8()),
                6 => drop(rd.read_u16()),
                7 => drop(rd.read_u32()),
                8 => drop(rd.read_utf8_string()),
                9 => drop(rd.read_binary()),
                10 => drop(rd.read_bool_byte()),
                11 => drop(rd.read_variable_int()),
                12 => drop(rd.has_more()),
                13 => drop(rd.consume()),
                14 => drop(rd.read_properties().map(|_| ())),
                15 => drop(ConnectPacket::decode(rd, fh, len, v)),
                16 => drop(ConnackPacket::decode(rd, fh, len, v)),
                17 => drop(PublishPacket::decode(rd, fh, len, v)),
                18 => drop(ConfirmationPacket::decode(rd, fh, len, v)),
                19 => drop(SubscribePacket::decode(rd, fh, len, v)),
                20 => drop(SubackPacket::decode(rd, fh, len, v)),
                21 => drop(UnsubscribePacket::decode(rd, fh, len, v)),
                22 => drop(UnsubackPacket::decode(rd, fh, len, v)),
                23 => drop(DisconnectPacket::decode(rd, fh, len, v)),
                24 => drop(AuthPacket::decode(rd, fh, len, v)),
                25 => drop(PingreqPacket::decode(rd, fh, len, v)),
                26 => drop(fh.encode()),
                27 => drop(w.write_variable_num(len)),
                28 => drop(MqttWriter::encode_variable_num(len)),
                29 => {
                    let _ = w.write_utf8_string("q".repeat(r.us(70_000)));
                }
                30 => {
                    let _ = w.write_binary(vec![1; r.us(70_000)]);
                }
                31 => drop(MqttWriter::encode_multibyte_num(len)),
                32 => {
                    let (a, b) = (vec![3; r.us(3)], vec![r.below(2) as u8; r.us(3)]);
                    let _ = w.write_sized(&a, &b);
                }
                33 => {
                    let m: UserProperties = gen::user_map(&mut r);
                    let s = "s".repeat(r.us(100));
                    let bin = [1u8, 2];
                    let x = match r.below(13) {
                        0 => PropType::U32(len),
                        1 => PropType::U16(len as u16),
                        2 => PropType::U8(len as u8),
                        3 => PropType::Str(&s),
                        4 => PropType::String(s.clone()),
                        5 => PropType::Pair(s.clone(), s.clone()),
                        6 => PropType::Map(m),
                        7 => PropType::MapRef(&m),
                        8 => PropType::Bool(true),
                        9 => PropType::U32Vec(vec![len; r.us(4)]),
                        10 => PropType::Binary(vec![]),
                        11 => PropType::BinaryRef(&bin),
                        _ => PropType::VarInt(len),
                    };
                    let _ = w.write_properties(vec![(r.u8(), x)]);
                }
                34 => drop(mqtt_packet_3_5::connect::ConnectFlags::from_byte(r.u8())),
                35 => drop(FixedHeader::from_byte(r.u8())),
                36 => drop(PacketType::from_bits(r.u8())),
                37 => drop(DisconnectCode::from_byte(r.u8())),
                38 => drop(Protocol::from_source(&gen::text(&mut r))),
                39 => drop(PingrespPacket::decode(rd, fh, len, v)),
                40 => w.write_header(fh),
                _ => drop(rd.read_len(r.us(4) as u32)),
            }
        }
        drop(w.into_vec());
        let _ = d.has_more();
    });
    if let Err(m) = e {
        c.fail("operation-panic", || format!("version {}: {}", v, m), &data);
    }
}
fn versions(c: &mut Ctx) {
    let v = (c.idx % 256) as u8;
    for _ in 0..8 {
        let f = any_frame(&mut c.rng, 5);
        c.eval(hash_bytes(&f) ^ v as u64, true);
        survive(c, &f, &[v], 64);
        let (p, _) = gen::any_legal(&mut c.rng);
        if let Err(m) = enc(c, &p, v) {
            c.fail("encode-panic", || format!("version {}: {} packet {}", v, m, pd(&p)), &[]);
        }
    }
    c.stat("version numbers tried", 1);
}
/// depth and size extremes
const EXTREMES: u64 = 29;
/// runs on a thread with a small stack: recursion over the elements of a packet would exhaust it
fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(SMALL_STACK).spawn_scoped(s, f).expect("thread").join().unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            panic!("{}", m)
        })
    })
}
const SMALL_STACK: usize = 512 << 10;
fn extremes(c: &mut Ctx) {
    let i = c.idx;
    let mut data: Vec<u8> = vec![];
    match i {
        0 => data = [0xc0, 0].repeat(300_000),
        1 => data = vec![0; 600_000],
        2 => data = vec![0xff; 600_000],
        3 => data = [0x40, 0x04, 0, 1, 0, 0].repeat(200_000),
        4 => data = frame(0x82, &[&[0u8, 1, 0][..], &[0, 0, 0].repeat(200_000)].concat()),
        5 => data = frame(0x30, &[&[0u8, 1, b't'][..], &block(&[(0x26, Val::Pair("".into(), "".into()))]).repeat(1), &[7; 500_000]].concat()),
        6 => {
            let mut b = vec![];
            for _ in 0..300_000 {
                b.extend_from_slice(&[0x26, 0, 0, 0, 0]);
            }
            let mut o = vec![0, 1, b't'];
            o.extend(varint(b.len() as u32));
            o.extend(b);
            data = frame(0x30, &o);
        }
        7 => {
            let b: Vec<u8> = [0x01, 1].repeat(500_000);
            let mut o = vec![0, 1, b't'];
            o.extend(varint(b.len() as u32));
            o.extend(b);
            data = frame(0x30, &o);
        }
        8 => data = [0x62, 0x06, 0, 1, 0, 0x81, 0x80, 0x00].repeat(100_000),
        // every frame leaves an error inside its property block
        9 => data = [0x40, 0x06, 0, 1, 0, 2, 0x99, 0].repeat(100_000),
        10 => data = frame(0x90, &[&[0u8, 1, 0][..], &vec![0; 1_000_000]].concat()),
        // every kind of list, below v5 and in v5, as long as it gets
        11 => data = frame(0x82, &[&[0u8, 1][..], &[0, 0, 0].repeat(400_000)].concat()),
        12 => data = frame(0xa2, &[&[0u8, 1][..], &[0, 0].repeat(400_000)].concat()),
        13 => data = frame(0xa2, &[&[0u8, 1, 0][..], &[0, 0].repeat(400_000)].concat()),
        14 => data = frame(0x90, &[&[0u8, 1][..], &vec![0; 1_000_000]].concat()),
        15 => data = frame(0xb0, &[&[0u8, 1, 0][..], &vec![0; 1_000_000]].concat()),
        16 | 17 | 18 => {
            let b: Vec<u8> = match i {
                16 => [0x0b, 1].repeat(500_000),
                17 => [0x09, 0, 0].repeat(300_000),
                _ => (0..60_000u32).flat_map(|k| [0x26, 0, 3, b'a' + (k % 26) as u8, b'a' + (k / 26 % 26) as u8, b'A' + (k / 676 % 90) as u8, 0, 0]).map(|x| x & 0x7f).collect(),
            };
            let mut o = vec![0, 1, b't'];
            o.extend(varint(b.len() as u32));
            o.extend(b);
            data = frame(0x30, &o);
        }
        // acknowledgements and others whose block is a long row of user properties
        19..=28 => {
            let b = [0x26u8, 0, 1, b'k', 0, 0].repeat(150_000);
            let (first, head): (u8, &[u8]) = [
                (0x10, &b"\0\x04MQTT\x05\x02\0\x3c"[..]),
                (0x20, &[0, 0]),
                (0x40, &[0, 1, 0]),
                (0x62, &[0, 1, 0]),
                (0x82, &[0, 1]),
                (0x90, &[0, 1]),
                (0xa2, &[0, 1]),
                (0xb0, &[0, 1]),
                (0xe0, &[0]),
                (0xf0, &[0]),
            ][(i - 19) as usize];
            let mut o = head.to_vec();
            o.extend(varint(b.len() as u32));
            o.extend(b);
            if first == 0x10 || first == 0xa2 {
                o.extend([0, 1, b'c']);
            } else if first == 0x82 {
                o.extend([0, 1, b'c', 0]);
            } else if first == 0x90 || first == 0xb0 {
                o.push(0);
            }
            data = frame(first, &o);
        }
        _ => {
            let k = (i - EXTREMES) as usize;
            let t = 1 + (k % 15) as u8;
            let mut f = vec![t << 4 | fixed_flags(t)];
            f.extend_from_slice(&[[0xff, 0xff, 0xff, 0x7f], [0xff, 0xff, 0xff, 0xff], [0x80, 0x80, 0x80, 0x01]][k / 15 % 3]);
            f.extend_from_slice(&[0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 9, 0xff, 0xff, 0xff, 0x7f, 0x26, 0xff, 0xff]);
            data.extend(f);
        }
    }
    for v in [3u8, 4, 5] {
        c.sample(|| hex(&data));
        c.eval(hash_bytes(&data) ^ v as u64, true);
        // whatever was decoded is also encoded, compared, cloned and dropped
        let d = &data;
        let r = c.guard(|| {
            small_stack(move || {
                let mut d2 = bufdec(Stream::new(d), 8192);
                let (mut calls, mut ok, mut enc) = (0usize, 0u64, 0u64);
                while d2.has_more() && calls <= d.len() {
                    if let Ok(p) = d2.decode_packet(v) {
                        ok += 1;
                        if ok <= 2 {
                            enc += p.clone().encode(v).is_ok() as u64;
                            enc += p.encode(9 - v).is_ok() as u64;
                        }
                    }
                    calls += 1;
                }
                let _ = d2.decode_packet(v);
                (calls, ok, enc)
            })
        });
        match r {
            Err(m) => c.fail("decode-panic", || format!("version {}: {}", v, m), &data),
            Ok((calls, ok, enc)) => {
                c.stat("decode calls", calls as u64);
                c.stat("packets decoded", ok);
                c.stat("long packets encoded on a small stack", enc);
                if calls > data.len() {
                    c.fail("endless", || format!("more decode calls than the {} input bytes, version {}", data.len(), v), &data);
                }
            }
        }
    }
    c.stat("extreme streams", 3);
}
pub fn c08(env: &Env) -> Check<'_> {
    let mut phases = vec![
        Phase::new("short_streams", 3 * 65536, short_streams).batch(32),
        Phase::new("short_bodies_2", 3 * 256 * 256, |c| short_bodies(c, 2)).batch(32),
    ];
    if env.n(0, 1) == 1 {
        phases.push(Phase::new("short_bodies_3", 3 * 256 * 65536, |c| short_bodies(c, 3)).batch(64));
    }
    phases.extend([
        Phase::new("large", env.n(300, 6_000), |c: &mut Ctx| {
            let v = gen::version(&mut c.rng);
            let mut b = large_damaged(&mut c.rng, v, usize::MAX);
            if c.rng.bool() {
                b.truncate(c.rng.us(b.len()));
            }
            c.eval(hash_bytes(&b), true);
            c.stat("large frames", 1);
            survive(c, &b, &[v], 8192)
        }).batch(2),
        Phase::new("marathon", env.n(4, 24), |c: &mut Ctx| marathon(c, false)).batch(1),
        Phase::new("versions", 256 * 8, versions),
        Phase::new("extremes", EXTREMES + 45, extremes).batch(1),
        Phase::new("random_bytes", env.rn(3_000_000, 150_000_000), random_bytes),
        Phase::new("mutated_streams", env.rn(700_000, 30_000_000), mutated_streams),
        Phase::new("hostile_encode", env.rn(500_000, 15_000_000), hostile_encode),
        Phase::new("public_operations", env.rn(800_000, 30_000_000), wild_ops),
    ]);
    Check {
        id: "C08",
        level: "exploration",
        rule: "All streams of up to three bytes and all frames with a two-byte (thorough: three-byte) body at versions 3, 4, 5; random and mutated streams at all version numbers, also changing; hostile packet values encoded at all version numbers; random public reader, writer and per-type operations with arbitrary arguments; streams with 100000s of frames or elements, the longest also on a thread with a small stack. Overflow checks on; panics caught, aborts and hangs seen by the parent process, endless reads by the stream. Distinct by input bytes; one case of the exhaustive phases covers 256 inputs.",
        assumptions: vec!["a call that has used 60 CPU seconds does not return"],
        phases,
        need: vec!["frames on very long connections", "decode calls", "packets decoded", "packets offered to the encoder", "public operations", "short streams", "version numbers tried", "long packets encoded on a small stack"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C09

fn metered(c: &mut Ctx, data: &[u8], v: u8) {
    metered_at(c, data, v, 0)
}
fn metered_at(c: &mut Ctx, data: &[u8], v: u8, per: i64) {
    use crate::alloc;
    let (ch, cap) = if c.rng.bool() { (Chunks::All, 8192) } else { (Chunks::Random(c.rng.next(), 1 + c.rng.us(2000)), 1 + c.rng.us(8192)) };
    let r = c.guard(|| {
        alloc::reset_peak();
        let base = alloc::live();
        let s = Stream::new(data).chunks(ch).meter(base);
        let obs = s.obs.clone();
        obs.per.set(per);
        let mut d = bufdec(s, cap);
        let mut n = 0u64;
        let mut first_over = None;
        while d.has_more() && n <= data.len() as u64 {
            let p = d.decode_packet(v);
            n += 1;
            Stream::check_mem(&obs, base);
            drop(p);
            if first_over.is_none() && obs.over.get() > 0 {
                first_over = Some(n);
            }
            // later peaks are judged on their own
            alloc::reset_peak();
        }
        (obs, n, first_over, alloc::live() - base)
    });
    c.stat("metered streams", 1);
    c.stat("bytes delivered", data.len() as u64);
    match r {
        Err(m) => c.fail("meter-panic", || format!("v{}: {}", v, m), data),
        Ok((obs, n, over, live)) => {
            c.stat("metered decode calls", n);
            c.stat("memory observations", obs.reads.get() + n);
            if obs.over.get() > 0 {
                c.fail("memory", || format!("v{}: {} bytes more than 1 MiB + {} per delivered byte, after {} delivered bytes, in call {:?}", v, obs.over.get(), if per > 0 { per } else { crate::io::MEM_PER_BYTE }, obs.over_at.get(), over), data);
            }
            // everything but the decoder itself is released
            if live > (1 << 20) + 64 * data.len() as isize {
                c.fail("memory-kept", || format!("v{}: {} bytes still live after {} calls", v, live, n), data);
            }
        }
    }
}
/// short streams with large declared lengths at every place a length is declared
fn bombs(c: &mut Ctx) {
    const RL: [u32; 8] = [VARINT_MAX, VARINT_MAX - 1, 200_000_000, 134_217_728, 16_777_216, 2_097_152, 3_000_000, 50_000_000];
    let i = c.idx;
    let n = RL[(i % 8) as usize];
    let shape = i / 8 % 9;
    let t = (i / 72 % 16) as u8;
    let v = [5u8, 4, 3][(i / 1152 % 3) as usize];
    let first = t << 4 | if t == 3 { [0u8, 2, 4, 6, 1][(i % 5) as usize] } else if t == 0 || shape == 8 { c.rng.below(16) as u8 } else { fixed_flags(t) };
    let r = &mut c.rng;
    let mut f = vec![first];
    f.extend(varint(n));
    let big = varint(n.saturating_sub(100));
    let body: Vec<u8> = match (shape, t) {
        (0, _) => vec![],
        // property length as large as the frame
        (1, 1) => [&b"\0\x04MQTT\x05\x02\0\x3c"[..], &big].concat(),
        (1, 2) => [&[0u8, 0][..], &big].concat(),
        (1, 3) => [&[0u8, 1, b't', 0, 7][..], &big].concat(),
        (1, 4..=7) => [&[0u8, 7, 0][..], &big].concat(),
        (1, 8..=11) => [&[0u8, 7][..], &big].concat(),
        (1, 14) => [&[0u8][..], &big].concat(),
        (1, 15) => [&[0x18u8][..], &big].concat(),
        // a property inside with a long text
        (2, 1) => [&b"\0\x04MQTT\x05\x02\0\x3c"[..], &big, &[0x15, 0xff, 0xff]].concat(),
        (2, 2) => [&[0u8, 0][..], &big, &[0x1f, 0xff, 0xff]].concat(),
        (2, 3) => [&[0u8, 1, b't', 0, 7][..], &big, &[0x09, 0xff, 0xff, 1]].concat(),
        (2, 4..=7) => [&[0u8, 7, 0][..], &big, &[0x26, 0xff, 0xff, 9]].concat(),
        (2, 8..=11) => [&[0u8, 7][..], &big, &[0x26, 0xff, 0xff, 9]].concat(),
        (2, 14) => [&[0u8][..], &big, &[0x1f, 0xff, 0xff]].concat(),
        (2, 15) => [&[0x18u8][..], &big, &[0x15, 0xff, 0xff]].concat(),
        // an error right away: the rest must be skipped, not stored
        (3, _) => vec![0xff; 12],
        (4, 1) => b"\0\x04MQTT\x05\xc6\0\x3c\0\0\x01c\0\0\x01w\xff\xff".to_vec(),
        (4, 3) => [&[0xffu8, 0xff][..], &[b'a'; 9]].concat(),
        (4, 8) | (4, 10) => [&[0u8, 7, 0][..], &[0xff, 0xff, b'a']].concat(),
        (5, _) => (0..r.us(200)).map(|_| r.u8()).collect(),
        // a text of full size, delivered in part
        (6, _) => [&[0xffu8, 0xff][..], &vec![b'x'; r.us(3000)]].concat(),
        (7, 12..=14) => vec![0; r.us(4000)],
        _ => (0..r.us(3000)).map(|_| r.below(3) as u8).collect(),
    };
    f.extend(body);
    c.sample(|| hex(&f));
    c.eval(hash_bytes(&f) ^ v as u64, true);
    c.stat("declared-length bombs", 1);
    metered(c, &f, v);
}
/// much is declared and a good part of it really comes: long texts and payloads, where a byte needs little more than itself
fn late_bombs(c: &mut Ctx) {
    const SENT: [usize; 6] = [65_537, 262_145, 1_048_577, 1_200_000, 4_194_305, 524_289];
    let i = c.idx as usize;
    let sent = SENT[i % 6] + if c.rng.bool() { 0 } else { c.rng.us(70_000) };
    let shape = i / 6 % 20;
    let declared = match i / 120 % 3 {
        0 => VARINT_MAX,
        1 => (VARINT_MAX - 1 - c.rng.below(100_000_000) as u32).max(sent as u32 + 500),
        _ => (sent as u32 * 24).max(40_000_000),
    };
    let v = if shape < 14 { 5 } else { *c.rng.pick(&[3u8, 4, 5]) };
    let mut f = vec![];
    // properties of 60 kB each
    let pairs = |f: &mut Vec<u8>| {
        while f.len() < sent {
            f.extend_from_slice(&[0x26, 0, 1, b'k', 0xea, 0x60]);
            f.resize(f.len() + 60_000, b'v');
        }
    };
    let inner = varint(declared - 70);
    if shape < 14 {
        let place = PLACES[shape];
        let (first, head): (u8, &[u8]) = match place {
            Place::Connect => (0x10, b"\0\x04MQTT\x05\x02\0\x3c"),
            Place::Will => (0x10, b"\0\x04MQTT\x05\x06\0\x3c\0\0\x01c"),
            Place::Connack => (0x20, &[0, 0]),
            Place::Publish => (0x30, &[0, 1, b't']),
            Place::Puback => (0x40, &[0, 7, 0]),
            Place::Pubrec => (0x50, &[0, 7, 0]),
            Place::Pubrel => (0x62, &[0, 7, 0]),
            Place::Pubcomp => (0x70, &[0, 7, 0]),
            Place::Subscribe => (0x82, &[0, 7]),
            Place::Suback => (0x90, &[0, 7]),
            Place::Unsubscribe => (0xa2, &[0, 7]),
            Place::Unsuback => (0xb0, &[0, 7]),
            Place::Disconnect => (0xe0, &[0]),
            Place::Auth => (0xf0, &[0]),
        };
        f.push(first);
        f.extend(varint(declared));
        f.extend_from_slice(head);
        f.extend(inner);
        pairs(&mut f);
    } else {
        let (first, head): (u8, &[u8]) = match shape {
            14 => (0x30, &[0, 1, b't', 0]),
            15 => (0x3a, &[0, 1, b't', 0, 9, 0]),
            16 => (0x00, &[]),
            17 => (0xc0, &[]),
            18 => (0xd0, &[0]),
            _ => (0x80, &[1, 2, 3]),
        };
        f.push(first);
        f.extend(varint(declared));
        f.extend_from_slice(head);
    }
    f.resize(f.len().max(sent), 3);
    c.sample(|| short(&hex(&f[..200]), 200));
    c.eval(hash_bytes(&f) ^ v as u64, true);
    c.stat("late bombs", 1);
    metered_at(c, &f, v, 12);
}
fn dense(c: &mut Ctx) {
    // much structure per byte, all of it delivered
    let i = c.idx;
    let n = *c.rng.pick(&[10usize, 1000, 20_000, 120_000]);
    let pub_with = |b: Vec<u8>| {
        let mut o = vec![0, 1, b't'];
        o.extend(varint(b.len() as u32));
        o.extend(b);
        frame(0x30, &o)
    };
    let f = match i % 12 {
        0 => frame(0x82, &[&[0u8, 1, 0][..], &[0, 0, 0].repeat(n)].concat()),
        1 => frame(0xa2, &[&[0u8, 1, 0][..], &[0, 0].repeat(n)].concat()),
        2 => frame(0x90, &[&[0u8, 1, 0][..], &vec![0; n]].concat()),
        3 => frame(0xb0, &[&[0u8, 1, 0][..], &vec![0; n]].concat()),
        4 => pub_with([0x26, 0, 0, 0, 0].repeat(n)),
        5 => {
            let mut b = vec![];
            for k in 0..n {
                b.extend_from_slice(&[0x26, 0, 3, b'a' + (k % 26) as u8, b'a' + (k / 26 % 26) as u8, b'a' + (k / 676 % 26) as u8, 0, 0]);
            }
            pub_with(b)
        }
        6 => pub_with([0x01, 1].repeat(n)),
        7 => pub_with([0x0b, 1].repeat(n)),
        8 => pub_with([0x03, 0, 0].repeat(n)),
        9 => pub_with([0x09, 0, 0].repeat(n)),
        10 => frame(0x30, &[&[0u8, 1, b't', 0][..], &vec![5; n * 5]].concat()),
        _ => {
            let mut b = vec![];
            for k in 0..n {
                b.push(0x26);
                for _ in 0..2 {
                    b.extend_from_slice(&2u16.to_be_bytes());
                    b.extend_from_slice(&[b'A' + (k % 50) as u8, b'A' + (k / 50 % 50) as u8]);
                }
            }
            pub_with(b)
        }
    };
    // and the same with an error at the very end of the block
    let f = if i / 12 % 2 == 0 { f } else {
        let mut g = f;
        let l = g.len();
        g[l - 1] = 0xff;
        g
    };
    c.sample(|| hex(&f));
    c.eval(hash_bytes(&f), true);
    c.stat("dense streams", 1);
    metered(c, &f, 5);
}
pub fn c09(env: &Env) -> Check<'_> {
    Check {
        id: "C09",
        level: "exploration",
        rule: "A counting allocator measures the live heap at every read the decoder makes and after every call, against 1 MiB + 256 bytes per delivered byte (12 per byte where long texts and payloads are sent): streams declaring remaining, property and text lengths up to the maximum at every place, with next to nothing or up to megabytes of it sent, frames with the most structure per byte, large legal packets, random and mutated streams. Distinct by stream bytes.",
        assumptions: vec!["heap use is what the global allocator was asked for on the decoding thread"],
        phases: vec![
            Phase::new("bombs", env.n(3456 * 3, 3456 * 300), bombs).batch(16),
            Phase::new("late_bombs", env.n(360, 36_000), late_bombs).batch(2),
            Phase::new("dense", env.n(24 * 6, 24 * 200), dense).batch(2),
            Phase::new("large", env.n(160, 3000), |c| {
                let n = *c.rng.pick(&[100_000usize, 1_000_000, 4_000_000, 70_000, 9000]) + c.rng.us(999);
                let v = gen::version(&mut c.rng);
                let p = MqttPacket::Publish(PublishPacket { payload: vec![3; n], ..min_publish() });
                let (mut f, _) = refenc::encode(&mut c.rng, &p, v, Style::Free);
                if c.rng.bool() {
                    f.truncate(c.rng.us(f.len()));
                }
                c.sample(|| hex(&f));
                c.eval(hash_bytes(&f), true);
                metered(c, &f, v)
            })
            .batch(2),
            Phase::new("streams", env.rn(200_000, 8_000_000), |c| {
                let v = gen::version(&mut c.rng);
                let mut data = vec![];
                for _ in 0..c.rng.range(1, 6) {
                    data.extend(any_frame(&mut c.rng, v));
                }
                if c.rng.bool() {
                    data = mutate::raw(&mut c.rng, &data);
                }
                c.sample(|| hex(&data[..data.len().min(200)]));
                c.eval(hash_bytes(&data), true);
                metered(c, &data, v)
            }),
            Phase::new("random_bytes", env.rn(400_000, 20_000_000), |c| {
                let n = c.rng.range(2, 300);
                let mut data: Vec<u8> = (0..n).map(|_| if c.rng.bool() { c.rng.u8() } else { 0xff }).collect();
                let t = 1 + c.rng.below(15) as u8;
                data[0] = t << 4 | fixed_flags(t);
                c.sample(|| hex(&data));
                c.eval(hash_bytes(&data), true);
                let v = gen::version(&mut c.rng);
                metered(c, &data, v)
            }),
            Phase::new("long_lived", env.n(8, 200), |c| {
                // memory must not pile up in one decoder over many frames, good or bad
                let v = gen::version(&mut c.rng);
                let pool: Vec<Vec<u8>> = (0..40).map(|_| any_frame(&mut c.rng, v)).filter(|f| f.len() < 400).collect();
                let mut data = vec![];
                while data.len() < 4_000_000 {
                    data.extend_from_slice(c.rng.pick(&pool));
                }
                c.sample(|| hex(&data[..200]));
                c.eval(hash_bytes(&data[..400]), true);
                let r = c.guard(|| {
                    let base = crate::alloc::live();
                    let mut d = PacketDecoder::from_stream(Cursor::new(&data[..]));
                    let mut n = 0u64;
                    let mut worst = 0;
                    while d.has_more() {
                        drop(d.decode_packet(v));
                        n += 1;
                        worst = worst.max(crate::alloc::live() - base);
                    }
                    (n, worst)
                });
                match r {
                    Err(m) => c.fail("meter-panic", || m, &data[..400]),
                    Ok((n, worst)) => {
                        c.stat("frames in long-lived decoders", n);
                        c.stat_max("max bytes kept by a decoder", worst as u64);
                        if worst > 1 << 20 {
                            c.fail("memory-grows", || format!("v{}: {} bytes live between calls within {} frames", v, worst, n), &data[..4000]);
                        }
                    }
                }
            })
            .batch(1),
        ],
        need: vec!["memory observations", "declared-length bombs", "late bombs", "dense streams", "frames in long-lived decoders"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C19

/// the same frame up to the order of user properties with different keys
pub fn same_frame(a: &[u8], b: &[u8], v: u8) -> bool {
    a == b || {
        let (x, y) = (refdec::decode_full(a, v).0, refdec::decode_full(b, v).0);
        a.len() == b.len() && x.packet().is_some() && x.packet() == y.packet()
    }
}
fn pool(c: &mut Ctx, n: usize, v: u8, max: usize) -> Vec<(Vec<u8>, Res<MqttPacket>)> {
    let mut o = vec![];
    while o.len() < n {
        let f = any_frame(&mut c.rng, v);
        if f.len() > max {
            continue;
        }
        match c.guard(|| PacketDecoder::from_stream(Cursor::new(&f)).decode_packet(v)) {
            Ok(r) => o.push((f, r)),
            Err(_) => continue,
        }
    }
    o
}
/// several decoders fed in turn, down to a few bytes at a time
fn interleaved(c: &mut Ctx) {
    let k = c.rng.range(2, 5);
    let vs: Vec<u8> = (0..k).map(|_| gen::version(&mut c.rng)).collect();
    let plans: Vec<Vec<(Vec<u8>, Res<MqttPacket>)>> = vs
        .iter()
        .map(|v| {
            let n = c.rng.range(1, 8);
            pool(c, n, *v, 4000)
        })
        .collect();
    let datas: Vec<Vec<u8>> = plans.iter().map(|p| p.iter().flat_map(|x| x.0.clone()).collect()).collect();
    let mut r = Rng::new(c.rng.next());
    c.sample(|| format!("{} streams in turn, the first of {} bytes: {}", datas.len(), datas[0].len(), hex(&datas[0][..datas[0].len().min(60)])));
    c.eval(datas.iter().fold(0, |a, d| a ^ hash_bytes(d)), true);
    c.stat("interleaved groups", 1);
    let e = c.guard(|| {
        let mut ds: Vec<_> = datas.iter().map(|d| bufdec(Stream::new(d).chunks(Chunks::Random(r.next(), 7)), 1 + r.us(16))).collect();
        let mut at = vec![0usize; k];
        let mut steps = 0;
        while (0..k).any(|i| at[i] < plans[i].len()) {
            let i = r.us(k);
            if at[i] >= plans[i].len() {
                continue;
            }
            if r.bool() {
                if !ds[i].has_more() {
                    return Err(format!("decoder {} lost its data at frame {}", i, at[i]));
                }
                continue;
            }
            let g = ds[i].decode_packet(vs[i]);
            let w = &plans[i][at[i]].1;
            if !same(&g, w) {
                return Err(format!("decoder {} frame {}: {} but alone {}", i, at[i], show(&g), show(w)));
            }
            // an encode call in between
            if let (Ok(p), true) = (&g, r.pct(30)) {
                let _ = p.clone().encode(vs[(i + 1) % k]);
            }
            at[i] += 1;
            steps += 1;
        }
        Ok(steps)
    });
    match e {
        Err(m) => c.fail("interleave-panic", || m, &[]),
        Ok(Err(m)) => c.fail("interleave", || m, &datas.concat()),
        Ok(Ok(n)) => c.stat("interleaved decode calls", n),
    }
}
/// the same work on several threads at once
fn concurrent(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let fs = pool(c, 24, v, 3000);
    let ps: Vec<(MqttPacket, Res<Vec<u8>>)> = (0..24)
        .map(|_| {
            let t = 1 + c.rng.below(types_of(v)) as u8;
            let p = gen::legal(&mut c.rng, v, t);
            let e = c.guard(|| p.clone().encode(v)).unwrap_or_else(Err);
            (p, e)
        })
        .collect();
    let seed = c.rng.next();
    c.eval(fs.iter().fold(seed, |a, f| a ^ hash_bytes(&f.0)), true);
    let results: Vec<Result<u64, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4u64)
            .map(|t| {
                let (fs, ps) = (&fs, &ps);
                s.spawn(move || {
                    let mut r = Rng::new(seed ^ t);
                    let mut n = 0;
                    for _ in 0..150 {
                        if r.bool() {
                            let (f, w) = r.pick(fs);
                            let g = bufdec(Stream::new(f).chunks(Chunks::Fixed(1 + r.us(9))), 16).decode_packet(v);
                            if !same(&g, w) {
                                return Err(format!("{}: {} but alone {}", hex(f), show(&g), show(w)));
                            }
                        } else {
                            let (p, w) = r.pick(ps);
                            let g = super::codec::encode_ref(p, v);
                            let ok = match (&g, w) {
                                (Ok(a), Ok(b)) => same_frame(a, b, v),
                                (Err(_), Err(_)) => true,
                                _ => false,
                            };
                            if !ok {
                                return Err(format!("{} encodes differently on another thread: {:?} vs {:?}", pd(p), g.as_ref().map(|x| hex(x)), w.as_ref().map(|x| hex(x))));
                            }
                        }
                        n += 1;
                    }
                    Ok(n)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic on a worker thread".into()))).collect()
    });
    for x in results {
        match x {
            Ok(n) => c.stat("concurrent operations", n),
            Err(m) => c.fail("concurrent", || m, &[]),
        }
    }
}
struct Probe<T>(std::marker::PhantomData<T>);
trait Unknown {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> Unknown for Probe<T> {}
struct ProbeSync<T>(std::marker::PhantomData<T>);
impl<T> Unknown for ProbeSync<T> {}
// where the bound holds these take precedence over the trait's
impl<T: Send> Probe<T> {
    const SEND: bool = true;
}
impl<T: Sync> ProbeSync<T> {
    const SYNC: bool = true;
}
/// hands a value to another thread; what it wraps is used by one thread at a time
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}

/// decoders that are handed from thread to thread between their packets
fn wandering(c: &mut Ctx) {
    if c.idx == 0 {
        c.stat("thread safety of types examined", 4);
        for (ok, what) in [
            (Probe::<PacketDecoder<Cursor<Vec<u8>>>>::SEND, "a decoder of a Send stream can be sent to another thread"),
            (Probe::<ByteReader<Cursor<Vec<u8>>>>::SEND, "a byte reader of a Send stream can be sent to another thread"),
            (Probe::<MqttPacket>::SEND, "a packet can be sent to another thread"),
            (ProbeSync::<MqttPacket>::SYNC, "a packet can be shared between threads"),
        ] {
            if !ok {
                c.fail("not-send", || format!("it is no longer true that {}", what), &[]);
            }
        }
    }
    if !Probe::<PacketDecoder<Cursor<Vec<u8>>>>::SEND {
        return;
    }
    let k = c.rng.range(2, 4);
    let vs: Vec<u8> = (0..k).map(|_| gen::version(&mut c.rng)).collect();
    let plans: Vec<Vec<(Vec<u8>, Res<MqttPacket>)>> = vs
        .iter()
        .map(|v| {
            let n = c.rng.range(10, 40);
            pool(c, n, *v, 1500)
        })
        .collect();
    let datas: Vec<Vec<u8>> = plans.iter().map(|p| p.iter().flat_map(|x| x.0.clone()).collect()).collect();
    c.eval(datas.iter().fold(1, |a, d| a ^ hash_bytes(d)), true);
    let mut r = Rng::new(c.rng.next());
    type Dec<'a> = Option<PacketDecoder<Stream<'a>>>;
    let e = c.guard(|| {
        let mut ds: Vec<Dec> = datas.iter().map(|d| Some(bufdec(Stream::new(d).chunks(Chunks::Random(r.next(), 30)), 1 + r.us(64)))).collect();
        std::thread::scope(|s| {
            let threads: Vec<_> = (0..3)
                .map(|_| {
                    let (to, rx) = std::sync::mpsc::channel::<Carry<(PacketDecoder<Stream>, u8)>>();
                    let (tx, from) = std::sync::mpsc::channel();
                    s.spawn(move || {
                        for mut m in rx {
                            let g = m.0 .0.decode_packet(m.0 .1);
                            if tx.send(Carry((m, g))).is_err() {
                                break;
                            }
                        }
                    });
                    (to, from)
                })
                .collect();
            let mut at = vec![0usize; k];
            let mut last = vec![9; k];
            let mut moves = 0;
            while (0..k).any(|i| at[i] < plans[i].len()) {
                let i = r.us(k);
                if at[i] >= plans[i].len() {
                    continue;
                }
                let t = r.us(3);
                moves += (t != last[i]) as u64;
                last[i] = t;
                let d = ds[i].take().expect("decoder");
                if threads[t].0.send(Carry((d, vs[i]))).is_err() {
                    return Err("a thread ended".to_string());
                }
                let Ok(Carry((m, g))) = threads[t].1.recv() else {
                    return Err(format!("decoder {} frame {} ended its thread", i, at[i]));
                };
                let Carry((d, _)) = m;
                ds[i] = Some(d);
                let w = &plans[i][at[i]].1;
                if !same(&g, w) {
                    return Err(format!("decoder {} frame {} ({}) on thread {}: {} but alone {}", i, at[i], hex(&plans[i][at[i]].0), t, show(&g), show(w)));
                }
                at[i] += 1;
            }
            Ok(moves)
        })
    });
    match e {
        Err(m) => c.fail("wandering-panic", || m, &[]),
        Ok(Err(m)) => c.fail("wandering", || m, &datas.concat()),
        Ok(Ok(n)) => c.stat("decoders handed to another thread between packets", n),
    }
}
/// a long run of one and the same event, then other decoders and encoders on the same thread and in the same
/// process: they must return what they return on a thread of their own before it
fn aftermath(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let probes: Vec<(Vec<u8>, u8)> = (0..12)
        .map(|_| {
            let w = gen::version(&mut c.rng);
            (any_frame(&mut c.rng, w), w)
        })
        .collect();
    let packets: Vec<(MqttPacket, u8)> = (0..8).map(|k| if k < 6 { gen::any_legal(&mut c.rng) } else { gen::hostile(&mut c.rng) }).collect();
    type Seen = (Vec<Result<Res<MqttPacket>, String>>, Vec<Result<Res<Vec<u8>>, String>>);
    let look = |c: &mut Ctx| -> Seen {
        (
            probes.iter().map(|(f, w)| c.guard(|| bufdec(Stream::new(f), 8192).decode_packet(*w))).collect(),
            packets.iter().map(|(p, w)| c.guard(|| super::codec::encode_ref(p, *w))).collect(),
        )
    };
    let before = look(c);
    let n = *c.rng.pick(&[2usize, 10, 50, 130, 300, 1100, 5000]);
    let kind = c.rng.below(10);
    let mut f = match kind {
        0 => vec![c.rng.u8(), 0],
        1 => (0..c.rng.us(5)).map(|_| c.rng.u8()).collect(),
        2 => vec![*c.rng.pick(&[0x30, 0x40, 0x82]), 0xff, 0xff, 0xff, 0xff],
        _ => any_frame(&mut c.rng, v),
    };
    if kind == 3 {
        f.truncate(c.rng.us(f.len() + 1));
    }
    let fault = if kind == 4 { Fault::Forever(c.rng.us(f.len() + 1), any_kind(&mut c.rng)) } else { Fault::None };
    let (p, w) = if c.rng.bool() { gen::any_legal(&mut c.rng) } else { gen::hostile(&mut c.rng) };
    let one = c.rng.bool();
    c.eval(hash_bytes(&f) ^ crate::rng::mix(n as u64 ^ kind << 32), true);
    c.sample(|| format!("{} times kind {} {} at v{}, one decoder: {}", n, kind, hex(&f), v, one));
    let r = c.guard(|| match kind {
        5 | 6 => {
            for _ in 0..n.min(300) {
                let _ = super::codec::encode_ref(&p, w);
            }
        }
        _ if one && fault == Fault::None => {
            let b = f.repeat(n.min(1 + 3_000_000 / f.len().max(1)));
            let mut d = PacketDecoder::from_stream(Cursor::new(&b[..]));
            for _ in 0..n {
                let _ = d.decode_packet(v);
                if kind == 7 {
                    let _ = d.has_more();
                }
            }
        }
        _ => {
            for _ in 0..n {
                let _ = bufdec(Stream::new(&f).fault(fault), 64).decode_packet(v);
            }
        }
    });
    if r.is_err() {
        c.stat("runs that panicked, see C08", 1);
    }
    c.stat("runs of one event", 1);
    c.stat("events in those runs", n as u64);
    let after = look(c);
    for (i, (a, b)) in before.0.iter().zip(&after.0).enumerate() {
        let ok = match (a, b) {
            (Ok(a), Ok(b)) => same(a, b),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        c.stat("results compared after such runs", 1);
        if !ok {
            let sh = |x: &Result<Res<MqttPacket>, String>| match x {
                Ok(r) => show(r),
                Err(m) => m.clone(),
            };
            c.fail("aftermath", || format!("after {} times kind {} {} (v{}, encoding {}), {} at v{} decodes to {}, before to {}", n, kind, hex(&f), v, pd(&p), hex(&probes[i].0), probes[i].1, sh(b), sh(a)), &f);
        }
    }
    for (i, (a, b)) in before.1.iter().zip(&after.1).enumerate() {
        let ok = match (a, b) {
            (Ok(Ok(a)), Ok(Ok(b))) => same_frame(a, b, packets[i].1),
            (Ok(Err(_)), Ok(Err(_))) => true,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        c.stat("results compared after such runs", 1);
        if !ok {
            c.fail("aftermath-encode", || format!("after {} times kind {} {} (v{}, encoding {}), {} encodes differently at v{}", n, kind, hex(&f), v, pd(&p), pd(&packets[i].0), packets[i].1), &f);
        }
    }
}
fn quietly<T>(f: impl FnOnce() -> T) -> Option<T> {
    crate::run::quiet(true);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
/// frames and packets that are almost, but not quite, the same one after another: nothing of one may
/// show up in the next
fn lookalikes(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    // a base with a long run of plain text
    let run = |f: &[u8]| {
        let Split::Frame(head, _) = split(f) else { return (0, 0) };
        let (mut best, mut at) = ((0, head), head);
        for i in head..=f.len() {
            if i == f.len() || !(0x21..0x7f).contains(&f[i]) {
                best = best.max((i - at, at));
                at = i + 1;
            }
        }
        best
    };
    let want = 1 + c.rng.us(60);
    let mut base = vec![];
    for _ in 0..20 {
        let f = if c.rng.pct(80) { legal_frame(&mut c.rng, v) } else { any_frame(&mut c.rng, v) };
        if f.len() < 2000 && run(&f).0 >= run(&base).0 {
            base = f;
        }
        if run(&base).0 >= want {
            break;
        }
    }
    if base.len() < 3 {
        return;
    }
    let (len, at) = run(&base);
    let mut fs = vec![base.clone()];
    let letter = |b: u8, d: u8| if b.is_ascii_alphabetic() { 0x61 + (b.to_ascii_lowercase() - 0x61 + d) % 26 } else { b ^ (d & 1) };
    let Split::Frame(head, body) = split(&base) else { return };
    if body == 0 || head + body != base.len() {
        return;
    }
    for _ in 0..c.rng.range(3, 8) {
        let mut f = c.rng.pick(&fs).clone();
        let r = &mut c.rng;
        match r.below(if len > 1 { 7 } else { 2 }) {
            // anywhere behind the header
            0 => {
                let i = head + r.us(f.len() - head);
                f[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = head + r.us(f.len() - head);
                f[i] = f[i].wrapping_add(1);
            }
            // in the text
            2 => f[at + len / 2] = letter(f[at + len / 2], 1),
            3 | 4 => {
                let i = at + r.us(len);
                f[i] = letter(f[i], 1 + r.below(25) as u8);
            }
            // with the same letters, or the same sum
            5 => {
                let (i, j) = (at + r.us(len), at + r.us(len));
                f.swap(i, j);
            }
            _ => {
                let (i, j) = (at + r.us(len), at + r.us(len));
                if f[i] < 0x7a && f[j] > 0x30 {
                    f[i] += 1;
                    f[j] -= 1;
                }
            }
        }
        if !fs.contains(&f) {
            fs.push(f);
        }
    }
    c.eval(fs.iter().fold(v as u64, |a, f| crate::rng::mix(a ^ hash_bytes(f))), true);
    c.sample(|| fs.iter().map(|f| hex(f)).collect::<Vec<_>>().join(" "));
    // each on a thread of its own, where nothing was decoded before
    let alone = |f: &Vec<u8>| -> Option<Res<MqttPacket>> {
        std::thread::scope(|s| s.spawn(|| quietly(|| bufdec(Stream::new(f), 64).decode_packet(v))).join().ok().flatten())
    };
    let mut refs = vec![];
    for f in &fs {
        match c.guard(|| alone(f)) {
            Ok(Some(r)) => refs.push(r),
            _ => {
                c.stat("frames that panicked, see C08", 1);
                return;
            }
        }
    }
    // frames that mean something else decode to something else, and to what they say
    for i in 0..fs.len() {
        for j in 0..i {
            if let (Ok(a), Ok(b)) = (&refs[i], &refs[j]) {
                let (x, y) = (refdec::decode_full(&fs[i], v).0, refdec::decode_full(&fs[j], v).0);
                if let (Some(x), Some(y)) = (x.packet(), y.packet()) {
                    c.stat("almost equal frames told apart", 1);
                    if (a == b) != (x == y) {
                        c.fail("alike", || format!("v{} {} and {} decode to {} and {}", v, hex(&fs[i]), hex(&fs[j]), show(&refs[i]), show(&refs[j])), &fs[i]);
                    }
                }
            }
        }
    }
    let order: Vec<usize> = (0..fs.len() * 3).map(|_| c.rng.us(fs.len())).collect();
    // all of them on one thread, on one decoder or several
    let one = c.rng.bool();
    let mut stream = vec![];
    let mut k = 0;
    for i in &order {
        stream.extend_from_slice(&fs[*i]);
        k += 1;
        // after a frame that does not decode the stream may have to be given up
        if refs[*i].is_err() && refdec::split(&fs[*i]) != (Split::Frame(head, fs[*i].len() - head)) {
            break;
        }
    }
    let got = c.guard(|| {
        let mut d = bufdec(Stream::new(&stream), 128);
        order[..k].iter().map(|i| if one { d.decode_packet(v) } else { bufdec(Stream::new(&fs[*i]), 64).decode_packet(v) }).collect::<Vec<_>>()
    });
    match got {
        Err(m) => c.fail("alike-panic", || m, &stream),
        Ok(got) => {
            for (n, (i, g)) in order.iter().zip(&got).enumerate() {
                c.stat("frames decoded after almost equal ones", 1);
                if !same(g, &refs[*i]) {
                    c.fail("alike-history", || format!("v{} frame {} of {:?} ({}), {}: {} but alone {}", v, n, &order[..k], hex(&fs[*i]), if one { "one decoder" } else { "decoders of their own" }, show(g), show(&refs[*i])), &stream);
                    break;
                }
            }
        }
    }
    // the same for encoding
    let ps: Vec<&MqttPacket> = refs.iter().filter_map(|r| r.as_ref().ok()).collect();
    if ps.len() < 2 {
        return;
    }
    let mut own: Vec<Option<Res<Vec<u8>>>> = vec![];
    for p in &ps {
        own.push(c.guard(|| std::thread::scope(|s| s.spawn(|| quietly(|| super::codec::encode_ref(p, v))).join().ok().flatten())).unwrap_or(None));
    }
    for _ in 0..ps.len() * 3 {
        let i = c.rng.us(ps.len());
        let g = c.guard(|| super::codec::encode_ref(ps[i], v));
        c.stat("packets encoded after almost equal ones", 1);
        let ok = match (&g, &own[i]) {
            (Ok(Ok(a)), Some(Ok(b))) => same_frame(a, b, v),
            (Ok(Err(_)), Some(Err(_))) | (Err(_), None) => true,
            _ => false,
        };
        if !ok {
            c.fail("alike-encode", || format!("v{} {} encodes to {:?} after packets like it, alone to {:?}", v, pd(ps[i]), g.map(|x| x.map(|b| hex(&b))), own[i].as_ref().map(|x| x.as_ref().map(|b| hex(b)))), &[]);
            break;
        }
    }
}
/// one decoder over a long history; every outcome as on a fresh one
fn history(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let fs = pool(c, 60, v, 300);
    let n = 150_000usize;
    let order: Vec<usize> = (0..n).map(|_| c.rng.us(fs.len())).collect();
    let mut data = Vec::new();
    for i in &order {
        data.extend_from_slice(&fs[*i].0);
    }
    c.eval(hash_bytes(&data), true);
    let r = c.guard(|| {
        let mut d = PacketDecoder::from_stream(Cursor::new(&data[..]));
        for (k, i) in order.iter().enumerate() {
            if !d.has_more() {
                return Err(format!("no more data at frame {}", k));
            }
            let g = d.decode_packet(v);
            if !same(&g, &fs[*i].1) {
                return Err(format!("frame {} ({}): {} but alone {}", k, hex(&fs[*i].0), show(&g), show(&fs[*i].1)));
            }
        }
        Ok(())
    });
    match r {
        Err(m) => c.fail("history-panic", || m, &data[..1000]),
        Ok(Err(m)) => c.fail("history", || m, &data[..1000]),
        Ok(Ok(())) => c.stat("frames in one decoder's history", n as u64),
    }
}
/// a stream that is never stored: every frame is a head and a run of equal bytes
struct Haul<'a> {
    frames: &'a [(Vec<u8>, u8, usize)],
    order: &'a [usize],
    at: usize,
    head: usize,
    run: usize,
}
impl std::io::Read for Haul<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = 0;
        while n < buf.len() {
            let Some(&i) = self.order.get(self.at) else { break };
            let (head, fill, len) = &self.frames[i];
            let room = buf.len() - n;
            if self.head < head.len() {
                let k = room.min(head.len() - self.head);
                buf[n..n + k].copy_from_slice(&head[self.head..self.head + k]);
                self.head += k;
                n += k;
            } else {
                let k = room.min(len - self.run);
                buf[n..n + k].fill(*fill);
                self.run += k;
                n += k;
            }
            if self.head == head.len() && self.run == *len {
                (self.at, self.head, self.run) = (self.at + 1, 0, 0);
            }
        }
        Ok(n)
    }
}
/// connections of more frames, of more malformed frames, and of more bytes than any counter of up to 32 bits holds
fn marathon(c: &mut Ctx, verdict: bool) {
    let v = gen::version(&mut c.rng);
    let kind = c.idx % 4;
    let fs = pool(c, 60, v, 120);
    // the big ones are read whole, refused at once, or refused at the end
    let big = (64 << 20) - c.rng.us(100);
    let mut frames: Vec<(Vec<u8>, u8, usize)> = fs.iter().map(|x| (x.0.clone(), 0, 0)).collect();
    let small = frames.len();
    let front = |first: u8, body: &[u8]| {
        let mut h = vec![first];
        h.extend(varint((body.len() + big) as u32));
        h.extend_from_slice(body);
        h
    };
    frames.push((front(0x30, if v == 5 { b"\0\x01t\0" } else { b"\0\x01t" }), c.rng.u8(), big));
    frames.push((front(0x31, &[0, 2, 0xff, 0xfe, 0]), 0xc0, big));
    frames.push((front(0x61, &[0, 7]), 0xc0, big));
    frames.push((front(0x62, &[0, 7, 0x33]), 0xc0, big));
    let solo: Vec<Res<MqttPacket>> = {
        let mut o = vec![];
        for i in 0..frames.len() {
            if i < small {
                o.push(fs[i].1.clone());
                continue;
            }
            let order = [i];
            match c.guard(|| PacketDecoder::from_stream(Haul { frames: &frames, order: &order, at: 0, head: 0, run: 0 }).decode_packet(v)) {
                Ok(r) => o.push(r),
                Err(_) => return,
            }
        }
        o
    };
    let (n_small, n_big) = match kind {
        0 | 1 => (if c.idx < 2 { 400_000usize } else { 2_000_000 }, 0usize),
        _ => (5_000, 67),
    };
    let bad: Vec<usize> = (0..small).filter(|i| solo[*i].is_err()).collect();
    let mut order: Vec<usize> = (0..n_small)
        .map(|_| if kind == 1 && !bad.is_empty() && c.rng.pct(90) { *c.rng.pick(&bad) } else { c.rng.us(small) })
        .collect();
    for _ in 0..n_big {
        // each of the two kinds has its share of the weight
        let b = small + if kind == 2 { c.rng.below(4).saturating_sub(1) as usize % 2 } else { 2 + c.rng.us(2) };
        let at = c.rng.us(order.len());
        order.insert(at, b);
    }
    c.eval(c.idx ^ 0x4a71 ^ hash_bytes(&frames[0].0), true);
    let bytes: u64 = order.iter().map(|i| (frames[*i].0.len() + frames[*i].2) as u64).sum();
    c.sample(|| format!("v{} {} frames, {} bytes on one connection", v, order.len(), bytes));
    let mut progress = 0usize;
    let r = c.guard(|| {
        let mut d = PacketDecoder::from_stream(Haul { frames: &frames, order: &order, at: 0, head: 0, run: 0 });
        for (k, i) in order.iter().enumerate() {
            progress = k;
            if !d.has_more() {
                return Err(format!("no more data at frame {} of {}", k, order.len()));
            }
            let g = d.decode_packet(v);
            if !same(&g, &solo[*i]) {
                return Err(format!("v{} frame {} of {} ({}...): {} but alone {}", v, k, order.len(), short(&hex(&frames[*i].0), 200), short(&show(&g), 300), short(&show(&solo[*i]), 300)));
            }
        }
        if d.has_more() {
            return Err("has_more is true at the end".to_string());
        }
        Ok(())
    });
    match r {
        Err(m) => c.fail("marathon-panic", || format!("v{} frame {} of {} on one connection: {}", v, progress, order.len(), m), &frames[order[progress]].0),
        Ok(Err(m)) if verdict => c.fail("marathon", || m, &frames[order[0]].0),
        Ok(Err(_)) => {}
        Ok(Ok(())) => {
            c.stat("frames on very long connections", order.len() as u64);
            c.stat_max("most bytes on one connection", bytes);
        }
    }
}
/// the same packets encoded many times, in varying order
fn repeat_encode(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let mut ps = vec![];
    while ps.len() < 30 {
        let (p, _) = if c.rng.pct(80) {
            let t = 1 + c.rng.below(types_of(v)) as u8;
            (gen::legal(&mut c.rng, v, t), v)
        } else {
            gen::hostile(&mut c.rng)
        };
        if let Ok(e) = c.guard(|| super::codec::encode_ref(&p, v)) {
            if e.as_ref().map_or(0, |b| b.len()) < 600 {
                ps.push((p.clone(), p, e));
            }
        }
    }
    c.eval(hash_bytes(format!("{:?}", ps[0].0).as_bytes()), true);
    for k in 0..3000u64 {
        let (p, before, w) = &ps[c.rng.us(30)];
        let g = c.guard(|| super::codec::encode_ref(p, v));
        c.stat("repeated encodings", 1);
        let ok = match (&g, w) {
            (Ok(Ok(a)), Ok(b)) => a == b || same_frame(a, b, v),
            (Ok(Err(_)), Err(_)) => true,
            _ => false,
        };
        if !ok {
            let (g, w) = (format!("{:?}", g.map(|x| x.map(|y| hex(&y)))), format!("{:?}", w.as_ref().map(|y| hex(y))));
            c.fail("encode-repeat", || format!("v{} repetition {} of {}: {} instead of {}", v, k, pd(p), g, w), &[]);
            return;
        }
        if p != before {
            c.fail("encode-modified", || format!("encoding changed {} into {}", pd(before), pd(p)), &[]);
        }
    }
}
pub fn c19(env: &Env) -> Check<'_> {
    Check {
        id: "C19",
        level: "exploration",
        rule: "Groups of decoders fed alternately in pieces, with encode calls in between; the same decode and encode work on four threads at once; decoders handed from thread to thread between their packets; long runs of one and the same frame, failure or encode call with fixed decodes and encodes before and after; families of almost equal frames and packets one after another on one thread, against each on a thread of its own; one decoder over 150000 frames; the same packets encoded thousands of times. Every result compared with the same input processed alone. Distinct by input bytes. Data races are looked for by the interpreter run of C21.",
        assumptions: vec!["order between different user property keys may differ between encodings"],
        phases: vec![
            Phase::new("interleaved", env.rn(60_000, 2_000_000), interleaved),
            Phase::new("concurrent", env.rn(1_500, 50_000), concurrent).batch(4),
            Phase::new("wandering", env.rn(2_000, 60_000), wandering).batch(4),
            Phase::new("aftermath", env.rn(6_000, 200_000), aftermath).batch(4),
            Phase::new("lookalikes", env.rn(12_000, 400_000), lookalikes).batch(16),
            Phase::new("history", env.n(16, 400), history).batch(1),
            Phase::new("marathon", env.n(4, 24), |c: &mut Ctx| marathon(c, true)).batch(1),
            Phase::new("repeat_encode", env.n(300, 10_000), repeat_encode).batch(4),
        ],
        need: vec!["frames on very long connections", "results compared after such runs", "interleaved decode calls", "concurrent operations", "decoders handed to another thread between packets", "thread safety of types examined", "frames in one decoder's history", "repeated encodings", "frames decoded after almost equal ones", "almost equal frames told apart", "packets encoded after almost equal ones"],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C21

pub fn text_ok(s: &str) -> bool {
    std::str::from_utf8(s.as_bytes()).is_ok()
}
/// every text of a decoded packet must be UTF-8; the Debug form walks all of them
pub fn texts_ok(p: &MqttPacket) -> bool {
    let mut ok = true;
    let mut t = |s: &str| ok &= text_ok(s);
    let o = |x: &Option<String>, t: &mut dyn FnMut(&str)| {
        if let Some(s) = x {
            t(s)
        }
    };
    match p {
        MqttPacket::Connect(k) => {
            t(&k.client_id);
            o(&k.user_name, &mut t);
            o(&k.password, &mut t);
            if let Some(w) = &k.will {
                o(&w.topic, &mut t);
                o(&w.payload, &mut t);
                if let Some(x) = &w.properties {
                    o(&x.content_type, &mut t);
                    o(&x.response_topic, &mut t);
                }
            }
            if let Some(x) = &k.properties {
                o(&x.authentication_method, &mut t);
                o(&x.authentication_data, &mut t);
            }
        }
        MqttPacket::Connack(k) => {
            if let Some(x) = &k.properties {
                for s in [&x.assigned_client_identifier, &x.authentication_method, &x.authentication_data, &x.response_information, &x.server_reference, &x.reason_string] {
                    o(s, &mut t);
                }
            }
        }
        MqttPacket::Publish(k) => {
            t(&k.topic);
            if let Some(x) = &k.properties {
                o(&x.content_type, &mut t);
                o(&x.response_topic, &mut t);
            }
        }
        MqttPacket::Puback(k) | MqttPacket::Pubrec(k) | MqttPacket::Pubrel(k) | MqttPacket::Pubcomp(k) => {
            if let Some(x) = &k.properties {
                o(&x.reason_string, &mut t)
            }
        }
        MqttPacket::Subscribe(k) => k.subscriptions.iter().for_each(|s| t(&s.topic)),
        MqttPacket::Unsubscribe(k) => k.unsubscriptions.iter().for_each(|s| t(s)),
        MqttPacket::Suback(k) => {
            if let Some(x) = &k.properties {
                o(&x.reason_string, &mut t)
            }
        }
        MqttPacket::Unsuback(k) => {
            if let Some(x) = &k.properties {
                o(&x.reason_string, &mut t)
            }
        }
        MqttPacket::Disconnect(k) => {
            if let Some(x) = &k.properties {
                o(&x.reason_string, &mut t);
                o(&x.server_reference, &mut t);
            }
        }
        MqttPacket::Auth(k) => {
            if let Some(x) = &k.properties {
                t(&x.authentication_method);
                o(&x.authentication_data, &mut t);
                o(&x.reason_string, &mut t);
            }
        }
        MqttPacket::Pingreq | MqttPacket::Pingresp => {}
    }
    for (_, u) in crate::conv::all_user_props(p) {
        for (k, vs) in u {
            t(k);
            vs.iter().for_each(|v| t(v));
        }
    }
    ok
}
/// touches every byte of a packet so that a sanitizer or interpreter sees bad memory
pub fn touch(p: &MqttPacket) -> u64 {
    hash_bytes(format!("{:?}", p).as_bytes())
}
fn sanitized(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let n = c.rng.range(1, 5);
    let mut data = vec![];
    for _ in 0..n {
        data.extend(any_frame(&mut c.rng, v));
    }
    sanitize(c, data, v)
}
fn sanitized_large(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let mut data = legal_frame(&mut c.rng, v);
    for _ in 0..1 + c.rng.us(2) {
        data.extend(if c.rng.bool() { large_frame(&mut c.rng, v, 300_000) } else { large_damaged(&mut c.rng, v, 300_000) });
    }
    c.stat("streams with large frames", 1);
    sanitize(c, data, v)
}
fn sanitize(c: &mut Ctx, mut data: Vec<u8>, v: u8) {
    crate::io::NOSY.store(true, std::sync::atomic::Ordering::Relaxed);
    if c.rng.pct(40) {
        data = mutate::raw(&mut c.rng, &data);
    }
    if c.rng.pct(30) {
        data.truncate(c.rng.us(data.len() + 1));
    }
    let (ch, cap) = plan(&mut c.rng);
    let fault = match c.rng.below(4) {
        0 => Fault::Once(c.rng.us(data.len() + 1), any_kind(&mut c.rng)),
        1 => Fault::Forever(c.rng.us(data.len() + 1), any_kind(&mut c.rng)),
        _ => Fault::None,
    };
    let intr = if c.rng.bool() { 200 } else { 0 };
    let seed = c.rng.next();
    c.sample(|| hex(&data));
    c.eval(hash_bytes(&data), true);
    let r = c.guard(|| {
        let base = crate::alloc::live();
        let mut bad = None;
        let mut calls = 0u64;
        let mut h = 0u64;
        {
            let mut d = bufdec(Stream::new(&data).chunks(ch).fault(fault).interrupt(intr, seed), cap);
            let mut after = 0;
            while after < 3 && calls <= data.len() as u64 + 4 {
                if !d.has_more() {
                    after += 1;
                }
                let p = d.decode_packet(v);
                calls += 1;
                match p {
                    Ok(p) => {
                        if !texts_ok(&p) {
                            bad = Some("a text that is not UTF-8".to_string());
                            break;
                        }
                        h ^= touch(&p);
                        if let Ok(e) = p.encode(v) {
                            h ^= hash_bytes(&e);
                        }
                    }
                    Err(e) => {
                        if !text_ok(&e) {
                            bad = Some("an error text that is not UTF-8".to_string());
                            break;
                        }
                    }
                }
            }
        }
        (bad, calls, crate::alloc::live() - base, h)
    });
    match r {
        // panics are another property's business
        Err(_) => {}
        Ok((bad, calls, live, _)) => {
            c.stat("decode calls under instrumentation", calls);
            if let Some(m) = bad {
                c.fail("utf8", || m, &data);
            } else if live > 0 {
                // one-time lazily created tables of the library or the standard library may stay
                c.stat("cases with bytes kept", 1);
            }
        }
    }
}
/// memory that stays behind must not grow with the work done
fn leaks(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let fs: Vec<Vec<u8>> = (0..40).map(|_| any_frame(&mut c.rng, v)).filter(|f| f.len() < 3000).collect();
    let ps: Vec<MqttPacket> = (0..20).map(|_| gen::hostile(&mut c.rng).0).collect();
    c.eval(hash_bytes(&fs.concat()), true);
    let round = |c: &mut Ctx, n: usize| {
        c.guard(|| {
            let base = crate::alloc::live();
            for k in 0..n {
                for f in &fs {
                    let cut = if k % 3 == 0 { f.len() * (k % 7) / 7 } else { f.len() };
                    let mut d = bufdec(Stream::new(&f[..cut]), 64);
                    let _ = d.decode_packet(v);
                }
                for p in &ps {
                    let _ = p.clone().encode(v);
                }
            }
            crate::alloc::live() - base
        })
    };
    let n = 40;
    let (Ok(_), Ok(b), Ok(d)) = (round(c, 10), round(c, n), round(c, n * 2)) else { return };
    c.stat("leak rounds", 3);
    c.stat("calls watched for leaks", (n * 3 + 10) as u64 * 60);
    if b > 0 && d >= b + b / 2 {
        c.fail("leak", || format!("v{}: {} bytes stay after {} rounds, {} after {}", v, b, n, d, n * 2), &fs.concat());
    }
}
/// C21 runs once per instrumentation (MON_SAN names it). The last run, under AddressSanitizer,
/// also takes in what the other instrumentations observed and demands that each of them ran.
pub fn c21(env: &Env) -> Check<'_> {
    let san = std::env::var("MON_SAN").unwrap_or_default();
    let mut phases = vec![];
    let active: Option<&'static str> = match san.as_str() {
        "address" => Some("address sanitizer active"),
        "memory" => Some("memory sanitizer active"),
        "thread" => Some("thread sanitizer active"),
        _ => None,
    };
    if let Some(a) = active {
        phases.push(Phase::new("instrumentation", 1, move |c: &mut Ctx| c.stat(a, 1)));
    }
    let mut need = vec!["decode calls under instrumentation", "calls watched for leaks", "concurrent operations", "public operations", "encodings under instrumentation"];
    if san == "memory" {
        need.push("memory sanitizer active");
    } else if san == "thread" {
        need.push("thread sanitizer active");
    } else {
        need.push("address sanitizer active");
        need.extend(PARTS);
        if let Ok(t) = std::fs::read_to_string(format!("{}/work/C21-parts.txt", env.root)) {
            phases.push(Phase::new("other_instrumentations", 1, move |c: &mut Ctx| {
                for k in PARTS {
                    let n = t.lines().filter_map(|l| l.split_once('=')).filter(|(n, _)| *n == k).filter_map(|(_, v)| v.trim().parse::<u64>().ok()).sum();
                    c.stat(k, n);
                }
            }));
        }
    }
    phases.extend([
        Phase::new("sanitized", env.rn(600_000, 20_000_000), sanitized),
        Phase::new("sanitized_large", env.rn(3_000, 100_000), sanitized_large).batch(8),
        Phase::new("leaks", env.rn(200, 5_000), leaks).batch(2),
        Phase::new("threads", env.rn(400, 10_000), concurrent).batch(4),
        Phase::new("operations", env.rn(300_000, 10_000_000), |c| {
            // as in C08, here only the sanitizer judges
            wild_ops_quiet(c)
        }),
        Phase::new("hostile_encode", env.rn(200_000, 6_000_000), |c| {
            let (p, v) = gen::hostile(&mut c.rng);
            if let Ok(Ok(b)) = enc(c, &p, v) {
                c.sample(|| hex(&b));
                c.eval(hash_bytes(&b), true);
                c.stat("encodings under instrumentation", 1);
            }
        }),
    ]);
    Check {
        id: "C21",
        level: "exploration",
        rule: "The decoder, the encoder and the byte reader run under AddressSanitizer, MemorySanitizer and ThreadSanitizer (each with its own instrumented build) on legal, damaged, cut and failing streams with arbitrary read sizes, from streams that look into the buffer they are given, hostile packets and threads; and a smaller workload under the Miri interpreter (undefined behaviour, uninitialised memory, data races, leaks at exit). All returned text is checked for UTF-8, the live heap for growth. The counts are those of the AddressSanitizer run, the others are listed under observed. Distinct by stream bytes.",
        assumptions: vec!["the sanitizers and the interpreter report what they are documented to report"],
        phases,
        need,
        exhaustive: false,
    }
}
const PARTS: [&str; 9] = [
    "memory sanitizer active",
    "decode calls under MemorySanitizer",
    "thread sanitizer active",
    "concurrent operations under ThreadSanitizer",
    "decode calls interpreted",
    "encode calls interpreted",
    "reader operations interpreted",
    "threads interpreted",
    "interpreter runs without report",
];
fn wild_ops_quiet(c: &mut Ctx) {
    let n = c.failures_muted(true);
    wild_ops(c);
    c.failures_muted(n);
}
