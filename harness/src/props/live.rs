//! C22: answers as soon as the bytes for them have arrived. C23: work proportional to the input.
use super::prims::{random_ops, run_ops_gated, Op};
use super::streams::{any_frame, base_frames, legal_frame, reframed};
use super::*;
use crate::io::Chunks;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::{hex, Phase};
use crate::spec::{allowed, fixed_flags, varint, wire_type, Place, Val, PLACES, WT};
use crate::{alloc, gen, refenc};
use crate::refenc::{frame, Style};
use crate::source::{base_with, min_connect, min_publish, sub};
use std::cell::{Cell, RefCell};
use std::io::{Error, ErrorKind, Read};
use std::rc::Rc;

// ------------------------------------------------------------------ C22

/// what the decoder may wait for, and what it asked for
#[derive(Default)]
struct Watch {
    delivered: Cell<usize>,
    /// reads are warranted only while fewer bytes than this have been delivered
    warranted: Cell<usize>,
    reads: Cell<u64>,
    early: Cell<u64>,
    report: RefCell<Option<String>>,
}
/// a peer that sends the frames and then stays silent: a read beyond what is warranted would block
struct Gate<'a> {
    data: &'a [u8],
    /// ends of the pieces in which the peer sends
    cuts: Vec<usize>,
    one: bool,
    interrupt: bool,
    flip: bool,
    w: Rc<Watch>,
}
impl Read for Gate<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let w = &self.w;
        let at = w.delivered.get();
        w.reads.set(w.reads.get() + 1);
        if buf.is_empty() {
            return Ok(0);
        }
        if at >= w.warranted.get() && w.report.borrow().is_none() {
            *w.report.borrow_mut() = Some(format!("another read with {} bytes delivered, {} suffice", at, w.warranted.get()));
        }
        if w.reads.get() > 4_000_000 {
            panic!("{}", crate::run::HANG);
        }
        self.flip = !self.flip;
        if self.interrupt && self.flip {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let end = if self.one { at + 1 } else { self.cuts.iter().copied().find(|c| *c > at).unwrap_or(self.data.len()) };
        let n = (end.min(self.data.len()) - at).min(buf.len());
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        w.delivered.set(at + n);
        Ok(n)
    }
}

/// an over-long length field, in any packet type, followed by whatever
fn long_length(r: &mut Rng) -> Vec<u8> {
    let mut f = vec![r.u8(), 0x80 | r.u8(), 0x80 | r.u8(), 0x80 | r.u8(), 0x80 | r.u8()];
    for _ in 0..r.us(12) {
        f.push(r.u8());
    }
    f
}

fn piecewise(r: &mut Rng, ends: &[usize], total: usize) -> (Vec<usize>, bool, &'static str) {
    match r.below(5) {
        0 => (vec![], true, "single bytes"),
        1 | 2 => (ends.to_vec(), false, "whole frames"),
        3 => {
            // read-ahead: several frames at once
            let k = r.us(ends.len());
            (vec![ends[k], total], false, "several frames at once")
        }
        _ => {
            let mut v: Vec<usize> = (0..1 + r.us(8)).map(|_| r.us(total + 1)).collect();
            v.extend_from_slice(ends);
            v.sort_unstable();
            (v, false, "random pieces and frame ends")
        }
    }
}

fn judge_live(c: &mut Ctx, frames: &[Vec<u8>], bad_tail: bool, v: u8) {
    let mut data = vec![];
    let mut ends = vec![];
    for f in frames {
        data.extend_from_slice(f);
        ends.push(data.len());
    }
    let (cuts, one, how) = piecewise(&mut c.rng, &ends, data.len());
    let cap = match c.rng.below(4) {
        0 => 1,
        1 => c.rng.range(2, 40),
        2 => c.rng.range(41, 3000),
        _ => 8192,
    };
    let (kind, interrupt, ask) = (c.rng.below(4), c.rng.pct(25), c.rng.bool());
    c.eval(hash_bytes(&data) ^ mix(v as u64 + kind), data.len() > 2);
    let stop = if c.rng.pct(20) { c.rng.us(frames.len()) } else { frames.len() };
    let w = Rc::new(Watch::default());
    let w2 = w.clone();
    let gate = Gate { data: &data, cuts, one, interrupt, flip: false, w: w.clone() };
    let r = c.guard(move || {
        let mut accepted = 0u64;
        let mut refused = 0u64;
        let mut asked = 0u64;
        let mut d = match kind {
            0 => PacketDecoder::from_stream(gate),
            1 => PacketDecoder::from_bufreader(BufReader::with_capacity(cap, gate)),
            _ => PacketDecoder::new(ByteReader::new(BufReader::with_capacity(cap, gate))),
        };
        let mut start = 0;
        for (i, e) in ends.iter().enumerate() {
            let last_bad = bad_tail && i + 1 == ends.len();
            if ask {
                // something at hand: answered without the stream; nothing at hand: one byte is enough
                w.warranted.set(start + 1);
                let h = d.has_more();
                asked += 1;
                if let Some(m) = w.report.borrow().clone() {
                    return Err(format!("has_more before frame {}: {}", i, m));
                }
                if !h {
                    return Err(format!("has_more is false before frame {}", i));
                }
            }
            w.warranted.set(if last_bad { start + 5 } else { *e });
            let g = if kind == 3 { super::codec::decode_typed(&mut d.reader, v) } else { d.decode_packet(v) };
            match &g {
                Ok(_) => accepted += 1,
                Err(_) => refused += 1,
            }
            if let Some(m) = w.report.borrow().clone() {
                return Err(format!("decoding frame {} (bytes {}..{}): {}; it gave {}", i, start, e, m, show(&g)));
            }
            if kind == 3 {
                // the individual types leave the rest of their frame and its limit to the caller
                break;
            }
            if i == stop {
                break;
            }
            start = *e;
        }
        // nobody reads from a connection that is given up
        w.warranted.set(0);
        drop(d);
        match w.report.borrow().clone() {
            Some(m) => Err(format!("dropping the decoder: {}", m)),
            None => Ok((accepted, refused, asked)),
        }
    });
    c.stat("decoders dropped without a further read", matches!(r, Ok(Ok(_))) as u64);
    c.stat("reads watched", w2.reads.get());
    match r {
        Err(m) => c.fail("live-panic", || format!("v{}: {}", v, m), &data),
        Ok(Err(m)) => c.fail("waits", || format!("v{} ({}, buffer of {}, {}): {}", v, how, cap, ["from_stream", "from_bufreader", "new", "packet types"][kind as usize], m), &data),
        Ok(Ok((a, r, h))) => {
            c.stat("packets returned at their last byte", a);
            c.stat("errors returned at the last byte at the latest", r);
            c.stat("has_more answered from a single byte", h);
            if bad_tail {
                c.stat("over-long length fields", 1);
            }
            if one {
                c.stat("streams delivered byte by byte", 1);
            }
        }
    }
    c.sample(|| format!("v{} {} frames, {}: {}", v, frames.len(), how, hex(&data[..data.len().min(150)])));
}
fn live_random(c: &mut Ctx) {
    let v = gen::version(&mut c.rng);
    let n = c.rng.range(1, 5);
    let mut fs: Vec<Vec<u8>> = (0..n).map(|_| if c.rng.bool() { legal_frame(&mut c.rng, v) } else { any_frame(&mut c.rng, v) }).collect();
    let bad = c.rng.pct(20);
    if bad {
        fs.push(long_length(&mut c.rng));
    }
    judge_live(c, &fs, bad, v);
}
fn live_ops(c: &mut Ctx) {
    let (data, ops) = random_ops(&mut c.rng);
    let cap = 1 + c.rng.us(40);
    let one = c.rng.pct(70);
    gated(c, data, ops, cap, one);
}
fn gated(c: &mut Ctx, data: Vec<u8>, ops: Vec<Op>, cap: usize, one: bool) {
    c.eval(hash_bytes(&data) ^ hash_bytes(format!("{:?}", ops).as_bytes()), ops.len() > 2);
    let chunks = if one { Chunks::Fixed(1) } else { Chunks::Random(c.rng.next(), 5) };
    let mut obs = [0u64; 8];
    let mut seen = [0u64; 3];
    let r = c.guard(|| run_ops_gated(&data, &ops, cap, chunks, &mut obs, &mut Some(&mut seen)));
    c.stat("reader operations watched", seen[0]);
    c.stat("reader operations that must not touch the stream", seen[1]);
    c.stat("bytes waited for by reader operations", seen[2]);
    match r {
        Err(m) => c.fail("live-panic", || format!("{} for {:?}", m, ops), &data),
        Ok(Err(m)) if m.contains("WAITS") => c.fail("waits", || format!("{} (operations {:?}, stream {})", m, ops, hex(&data)), &data),
        // wrong results are another property's
        Ok(_) => {}
    }
}
const SMALL: [Op; 12] = [
    Op::Take(0), Op::Take(1), Op::Take(2), Op::Take(4), Op::Reset, Op::U8, Op::U16, Op::Consume, Op::More, Op::Var, Op::Read(3), Op::Text,
];
fn live_small(c: &mut Ctx, len: u32) {
    let mut k = c.idx;
    let n = (k % 6) as usize;
    k /= 6;
    let mut ops = vec![];
    for _ in 0..len {
        ops.push(SMALL[(k % 12) as usize]);
        k /= 12;
    }
    let data = [0, 1, 0x41, 0x82, 0x03][..n].to_vec();
    gated(c, data, ops, 8, true);
}

pub fn c22(env: &Env) -> Check<'_> {
    let bases = base_frames();
    let mut sys = reframed(&bases);
    sys.extend(bases);
    let n = sys.len() as u64;
    let mut phases = vec![
        Phase::new("systematic", n * 6, move |c: &mut Ctx| {
            let (f, v) = sys[(c.idx / 6) as usize].clone();
            let pre = c.idx % 3;
            let mut fs = vec![];
            for _ in 0..pre {
                fs.push(legal_frame(&mut c.rng, v));
            }
            fs.push(f);
            judge_live(c, &fs, false, v)
        }),
        Phase::new("large", env.n(120, 4_000), |c: &mut Ctx| {
            let v = gen::version(&mut c.rng);
            let mut fs = vec![legal_frame(&mut c.rng, v)];
            fs.push(if c.rng.bool() { super::streams::large_frame(&mut c.rng, v, 1_100_000) } else { super::streams::large_damaged(&mut c.rng, v, 1_100_000) });
            c.stat("large frames", 1);
            judge_live(c, &fs, false, v)
        }).batch(1),
        Phase::new("random", env.rn(250_000, 10_000_000), live_random),
        Phase::new("operations", env.rn(400_000, 15_000_000), live_ops),
    ];
    for (len, name) in [(1u32, "all_sequences_1"), (2, "all_sequences_2"), (3, "all_sequences_3"), (4, "all_sequences_4")] {
        phases.push(Phase::new(name, 6 * 12u64.pow(len), move |c: &mut Ctx| live_small(c, len)).batch(2048));
    }
    if env.n(0, 1) == 1 {
        phases.push(Phase::new("all_sequences_5", 6 * 12u64.pow(5), move |c: &mut Ctx| live_small(c, 5)).batch(2048));
    }
    Check {
        id: "C22",
        level: "exploration",
        rule: "A gate stream that knows where each frame ends watches every read: base frames of every type and version, re-framed cuts and surplus variants, random legal and damaged frames and over-long length fields, delivered byte by byte, frame by frame, several at once and in random pieces, through the decoder and through the individual packet types, with several buffer sizes; and random and exhaustive short histories of reader operations against what each operation needs. Distinct by stream bytes and operations.",
        assumptions: vec!["a read issued by the decoder is what a blocking stream would wait in"],
        phases,
        need: vec![
            "packets returned at their last byte",
            "errors returned at the last byte at the latest",
            "has_more answered from a single byte",
            "over-long length fields",
            "streams delivered byte by byte",
            "reader operations watched",
            "reader operations that must not touch the stream",
            "decoders dropped without a further read",
        ],
        exhaustive: false,
    }
}

// ------------------------------------------------------------------ C23

#[repr(C)]
struct Ts {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Ts) -> i32;
}
/// processor time of this thread, in nanoseconds
fn cpu() -> u64 {
    let mut t = Ts { s: 0, ns: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.ns as u64
}

enum Load {
    Decode(Vec<u8>, u8, Chunks, usize),
    Encode(Box<MqttPacket>, u8),
    /// the same packet so many times
    Again(Box<MqttPacket>, u8, u32),
    /// one after the other
    Each(Vec<MqttPacket>, u8),
    Ops(Vec<u8>, u32),
}

fn publish_with(b: Vec<u8>) -> Vec<u8> {
    let mut o = vec![0, 1, b't'];
    o.extend(varint(b.len() as u32));
    o.extend(b);
    frame(0x30, &o)
}
fn key(k: usize) -> [u8; 4] {
    [b'a' + (k % 26) as u8, b'a' + (k / 26 % 26) as u8, b'a' + (k / 676 % 26) as u8, b'a' + (k / 17_576 % 26) as u8]
}
const DEC: usize = 33;
const ENC: usize = 21;
const SHAPES: usize = DEC + ENC + 1;

/// the load of shape `s` with `n` elements
fn load(s: usize, n: usize, r: &mut Rng) -> (&'static str, Load) {
    let all = |b: Vec<u8>| Load::Decode(b, 5, Chunks::All, 8192);
    let cat = |a: &[u8], b: &[u8], n: usize| [a, &b.repeat(n)].concat();
    match s {
        0 => ("ping frames", all([0xc0u8, 0].repeat(n))),
        1 => ("acknowledgement frames", all([0x40u8, 2, 0, 9].repeat(n))),
        2 => ("small publish frames", all([0x30u8, 6, 0, 1, b't', 0, b'x', b'y'].repeat(n))),
        3 => ("frames of a reserved type", all([0x00u8, 3, 1, 2, 3].repeat(n))),
        4 => ("frames with bad flags", all([0x83u8, 5, 0, 1, 0, 0, 0].repeat(n))),
        5 => ("frames with a property error", all([0x30u8, 8, 0, 1, b't', 4, 0x7f, 1, 1, 1].repeat(n))),
        6 => ("surplus in small frames", all([0xc0u8, 4, 1, 2, 3, 4].repeat(n))),
        7 => ("payload", all(frame(0x30, &[&[0u8, 1, b't', 0][..], &vec![7; n * 256]].concat()))),
        8 => ("payload in single bytes", Load::Decode(frame(0x30, &[&[0u8, 1, b't', 0][..], &vec![7; n * 4]].concat()), 5, Chunks::Fixed(1), 1)),
        9 => ("payload through a buffer of one byte", Load::Decode(frame(0x32, &[&[0u8, 1, b't', 0, 1, 0][..], &vec![7; n * 4]].concat()), 5, Chunks::All, 1)),
        10 => ("user properties of one key", all(publish_with([0x26, 0, 1, b'k', 0, 1, b'v'].repeat(n)))),
        11 => {
            let mut b = vec![];
            for k in 0..n {
                b.extend_from_slice(&[0x26, 0, 4]);
                b.extend_from_slice(&key(k));
                b.extend_from_slice(&[0, 1, b'v']);
            }
            ("user properties of different keys", all(publish_with(b)))
        }
        12 => {
            let mut b = vec![];
            for k in 0..n {
                b.extend_from_slice(&[0x26, 0, 4]);
                b.extend_from_slice(&key(k));
                b.extend_from_slice(&[0, 0]);
            }
            let mut o = b"\0\x04MQTT\x05\x02\0\x3c".to_vec();
            o.extend(varint(b.len() as u32));
            o.extend(b);
            o.extend_from_slice(&[0, 1, b'c']);
            ("user properties of a connect", all(frame(0x10, &o)))
        }
        13 => ("subscription identifiers", all(publish_with([0x0b, 0x81, 0x01].repeat(n)))),
        14 => ("repeated single-valued properties", all(publish_with([0x01, 1].repeat(n)))),
        15 => ("repeated texts", all(publish_with([0x03, 0, 2, b'a', b'b'].repeat(n)))),
        16 => ("filters", all(frame(0x82, &cat(&[0, 1, 0], &[0, 2, b'a', b'b', 1], n)))),
        17 => ("the same filter", Load::Decode(frame(0x82, &cat(&[0, 1], &[0, 1, b'a', 1], n)), 4, Chunks::All, 8192)),
        18 => ("filters to drop", all(frame(0xa2, &cat(&[0, 1, 0], &[0, 2, b'a', b'b'], n)))),
        19 => ("subscribe answers", all(frame(0x90, &cat(&[0, 1, 0], &[1], n * 4)))),
        20 => ("unsubscribe answers", all(frame(0xb0, &cat(&[0, 1, 0], &[0x11], n * 4)))),
        21 => ("a refused long frame", all(frame(0x80, &vec![0; n * 256]))),
        22 => ("a refused long frame in single bytes", Load::Decode(frame(0xf8, &vec![0; n * 4]), 5, Chunks::Fixed(1), 16)),
        23 => ("filters with a bad last one", all(frame(0x82, &[cat(&[0, 1, 0], &[0, 2, b'a', b'b', 1], n), vec![0, 9]].concat()))),
        24 => ("answers with a bad last one", all(frame(0x90, &[cat(&[0, 1, 0], &[1], n * 4), vec![0x7f]].concat()))),
        25 => ("user properties with a bad last one", all(publish_with([[0x26, 0, 1, b'k', 0, 1, b'v'].repeat(n), vec![0x7f]].concat()))),
        26 => {
            // a different key each, in random order
            let mut ks: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                ks.swap(i, r.us(i + 1));
            }
            let mut b = vec![];
            for k in ks {
                b.extend_from_slice(&[0x26, 0, 4]);
                b.extend_from_slice(&key(k));
                b.extend_from_slice(&[0, 1, b'v']);
            }
            let mut o = vec![0, 7, 0];
            o.extend(varint(b.len() as u32));
            o.extend(b);
            ("user properties of an acknowledgement", all(frame(0x40, &o)))
        }
        27 => {
            let mut d = vec![];
            for k in 0..n {
                let t = if k % 2 == 0 { vec![0x40u8, 4, 0, 9, 0, 0] } else { publish_with(vec![0x26, 0, 1, b'k', 0, 1, b'v']) };
                d.extend(t);
            }
            ("good frames in turn", all(d))
        }
        28 => {
            let mut d = vec![];
            for _ in 0..n {
                let v = 5;
                d.extend(if r.bool() { vec![0xd0, 0] } else { frame(0x20, &[0, 0, 0, v]) });
            }
            ("good and bad frames", all(d))
        }
        29 => ("empty frames of every type", all((0..n).flat_map(|k| [(k % 16) as u8 * 16 + fixed_flags((k % 16) as u8), 0]).collect())),
        30 => ("small frames in single bytes", Load::Decode([0x40u8, 2, 0, 9].repeat(n), 4, Chunks::Fixed(1), 1)),
        31 => {
            let mut b = vec![];
            for _ in 0..n {
                b.extend_from_slice(&[0, 1, b'c']);
            }
            ("surplus behind a connect", all(frame(0x10, &[&b"\0\x04MQTT\x04\x02\0\x3c\0\x01c"[..], &b].concat())))
        }
        32 => ("multi-byte texts", all(frame(0xa2, &cat(&[0, 1, 0], "\0\x09äöü€".as_bytes(), n)))),
        _ if s < DEC + ENC => {
            let distinct: Vec<(u8, Val)> = (0..n).map(|k| (0x26, Val::Pair(String::from_utf8(key(k).to_vec()).unwrap(), "v".into()))).collect();
            let p = match s - DEC {
                0 => ("payload", MqttPacket::Publish(PublishPacket { payload: vec![5; n * 256], ..min_publish() })),
                1 => ("user properties of one key", base_with(Place::Publish, &(0..n).map(|k| (0x26, Val::Pair("k".into(), format!("{}", k % 10)))).collect::<Vec<_>>())),
                2 => ("subscription identifiers", base_with(Place::Publish, &(0..n).map(|k| (0x0b, Val::Var(k as u32 % 100 + 200))).collect::<Vec<_>>())),
                3 => ("subscriptions", MqttPacket::Subscribe(SubscribePacket { qos: 1, subscriptions: (0..n).map(|k| sub(&format!("{:06}", k))).collect(), message_id: 9, properties: None })),
                4 => ("unsubscriptions", MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, unsubscriptions: (0..n).map(|k| format!("{:06}", k)).collect(), message_id: 9, properties: None })),
                5 => ("subscribe answers", MqttPacket::Suback(SubackPacket { reason_code: None, granted: vec![], granted_reason_codes: vec![SubscriptionReasonCode::GrantedQoS1; n * 4], message_id: 9, properties: None })),
                6 => ("unsubscribe answers", MqttPacket::Unsuback(UnsubackPacket { granted: vec![UnsubackCode::Success; n * 4], message_id: 9, properties: None })),
                k => ("user properties", base_with(PLACES[k - 7], &distinct)),
            };
            (p.0, Load::Encode(Box::new(p.1), 5))
        }
        _ => ("nested limits", Load::Ops(vec![1; n * 2], n as u32)),
    }
}
/// (processor nanoseconds, bytes asked of the allocator, calls made)
fn once(l: &Load) -> (u64, u64, u64) {
    match l {
        Load::Decode(b, v, ch, cap) => {
            let mut d = PacketDecoder::from_bufreader(BufReader::with_capacity(*cap, Stream::new(b).chunks(ch.clone())));
            let (a, t) = (alloc::total(), cpu());
            let mut n = 0u64;
            while d.has_more() && n <= b.len() as u64 {
                let _ = d.decode_packet(*v);
                n += 1;
            }
            (cpu() - t, alloc::total() - a, n)
        }
        Load::Encode(p, v) => {
            let q = p.clone();
            let (a, t) = (alloc::total(), cpu());
            let r = q.encode(*v);
            let x = (cpu() - t, alloc::total() - a, 1);
            drop(r);
            x
        }
        Load::Again(p, v, k) => {
            let mut x = (0, 0, 0);
            for _ in 0..*k {
                let q = p.clone();
                let (a, t) = (alloc::total(), cpu());
                let r = q.encode(*v);
                x = (x.0 + cpu() - t, x.1 + alloc::total() - a, x.2 + 1);
                drop(r);
            }
            x
        }
        Load::Each(ps, v) => {
            let qs = ps.clone();
            let (a, t) = (alloc::total(), cpu());
            for q in qs {
                let _ = q.encode(*v);
            }
            (cpu() - t, alloc::total() - a, ps.len() as u64)
        }
        Load::Ops(b, n) => {
            let mut rd = ByteReader::new(BufReader::new(Cursor::new(&b[..])));
            let (a, t) = (alloc::total(), cpu());
            for k in 0..*n {
                rd.take(2 * n - k);
            }
            for _ in 0..*n {
                let _ = rd.read_u8();
                rd.reset_limit();
            }
            (cpu() - t, alloc::total() - a, 2 * *n as u64)
        }
    }
}
fn size(l: &Load) -> u64 {
    match l {
        Load::Decode(b, ..) | Load::Ops(b, _) => b.len() as u64,
        Load::Encode(p, v) => encode_len(p, *v),
        Load::Each(ps, v) => ps.iter().map(|p| encode_len(p, *v)).sum(),
        Load::Again(p, v, k) => encode_len(p, *v) * *k as u64,
    }
}
fn encode_len(p: &MqttPacket, v: u8) -> u64 {
    refenc::encode(&mut Rng::new(1), p, v, Style::Free).0.len() as u64
}

fn growth(c: &mut Ctx, base: usize, factor: usize) {
    let s = c.idx as usize % SHAPES;
    let seed = c.rng.next();
    let (name, small) = load(s, base, &mut Rng::new(seed));
    let (_, big) = load(s, base * factor, &mut Rng::new(seed));
    let dir = if s < DEC { "decoding" } else if s < DEC + ENC { "encoding" } else { "limits" };
    c.eval(mix(c.idx ^ (base as u64) << 20), true);
    compare(c, dir, name, &small, &big)
}
/// how the elements of a long list may look: the text before and behind a number
fn flavours() -> Vec<(String, String)> {
    let mut o: Vec<(String, String)> = [
        ("", "/#"), ("+/", ""), ("a/", "/+"), ("a/+/", ""), ("$share/g/", ""), ("$share/", "/t"), ("$share/g/", "/#"), ("$SYS/", ""), ("$queue/", ""),
        ("/", "/"), ("//", ""), ("é", ""), ("", "\u{20ac}"), ("\u{1f600}/", "/#"), (" ", " "), ("A", "Z"), ("a.", ".b"), ("x-", ""), ("_", "="), ("+/+/", "/+/#"), ("\u{e000}", ""), ("-", "\""),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect();
    for s in gen::dict().strs.iter().filter(|s| !s.is_empty() && s.len() <= 12 && !s.contains('\0')).take(60) {
        o.push((s.clone(), String::new()));
        o.push((String::new(), s.clone()));
    }
    o.dedup();
    o
}
const LISTS: [&str; 9] = ["filters", "filters to drop", "user property keys", "user property values", "user properties of a connect", "topics", "client identifiers", "will topics", "response topics"];
/// packets or streams with `n` elements that look alike and differ
fn flavoured(list: usize, (a, b): &(String, String), n: usize, v: u8, enc: bool) -> Load {
    let name = |k: usize| format!("{}{:05}{}", a, k, b);
    let n = if list < 5 { n } else { n / 3 };
    let pairs = |f: &dyn Fn(usize) -> (String, String)| (0..n).map(|k| f(k)).map(|(k, v)| (0x26u8, Val::Pair(k, v))).collect::<Vec<_>>();
    let ps: Vec<MqttPacket> = match list {
        0 => vec![MqttPacket::Subscribe(SubscribePacket { qos: 1, subscriptions: (0..n).map(|k| sub(&name(k))).collect(), message_id: 9, properties: None })],
        1 => vec![MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, unsubscriptions: (0..n).map(name).collect(), message_id: 9, properties: None })],
        2 => vec![base_with(Place::Publish, &pairs(&|k| (name(k), "v".into())))],
        3 => vec![base_with(Place::Puback, &pairs(&|k| ("k".into(), name(k))))],
        4 => vec![base_with(Place::Connect, &pairs(&|k| (name(k), name(k + 1))))],
        5 => (0..n).map(|k| MqttPacket::Publish(PublishPacket { topic: name(k), qos: 1, message_id: Some(1 + (k % 65_535) as u16), ..min_publish() })).collect(),
        6 => (0..n).map(|k| MqttPacket::Connect(ConnectPacket { client_id: name(k), ..min_connect(v) })).collect(),
        7 => (0..n).map(|k| MqttPacket::Connect(ConnectPacket { will: Some(LastWill { topic: Some(name(k)), payload: Some("p".into()), qos: 1, retain: false, properties: None }), ..min_connect(v) })).collect(),
        _ => (0..n).map(|k| base_with(Place::Publish, &[(0x08, Val::Str(name(k)))])).collect(),
    };
    if enc {
        return Load::Each(ps, v);
    }
    let mut d = vec![];
    for p in &ps {
        d.extend(refenc::encode(&mut Rng::new(1), p, v, Style::Free).0);
    }
    Load::Decode(d, v, Chunks::All, 8192)
}
fn flavour_growth(c: &mut Ctx, fl: &[(String, String)], factor: usize) {
    let i = c.idx as usize;
    let (enc, list, f) = (i % 2 == 1, i / 2 % LISTS.len(), &fl[i / 2 / LISTS.len()]);
    // properties need version 5
    let v = if matches!(list, 2..=4 | 8) || c.rng.bool() { 5 } else { 4 };
    let r = c.guard(|| (flavoured(list, f, 1200, v, enc), flavoured(list, f, 1200 * factor, v, enc)));
    let Ok((small, big)) = r else { return c.stat("flavours that cannot be built", 1) };
    c.eval(hash_bytes(format!("{:?}", f).as_bytes()) ^ i as u64, true);
    c.stat("lists of similar elements measured", 1);
    compare(c, if enc { "encoding" } else { "decoding" }, &format!("{} like {:?}..{:?} at v{}", LISTS[list], f.0, f.1, v), &small, &big)
}
/// `n` packets of one kind, each with its own identifier
fn numbered(kind: usize, n: usize, v: u8, enc: bool, order: u64) -> Load {
    let ps: Vec<MqttPacket> = (0..n)
        .map(|k| {
            let id = match order {
                0 => k + 1,
                1 => n - k,
                _ => (k * 7919 + 13) % 65_521 + 1,
            } as u16;
            match kind {
                0 if v == 5 => MqttPacket::Puback(ConfirmationPacket::puback_v5(id, PubackPubrecCode::Success, None)),
                0 => MqttPacket::Puback(ConfirmationPacket::puback_v3(id)),
                1 if v == 5 => MqttPacket::Pubrec(ConfirmationPacket::pubrec_v5(id, PubackPubrecCode::Success, None)),
                1 => MqttPacket::Pubrec(ConfirmationPacket::pubrec_v3(id)),
                2 if v == 5 => MqttPacket::Pubrel(ConfirmationPacket::pubrel_v5(id, PubcompPubrelCode::Success, None)),
                2 => MqttPacket::Pubrel(ConfirmationPacket::pubrel_v3(id)),
                3 if v == 5 => MqttPacket::Pubcomp(ConfirmationPacket::pubcomp_v5(id, PubcompPubrelCode::Success, None)),
                3 => MqttPacket::Pubcomp(ConfirmationPacket::pubcomp_v3(id)),
                4 if v == 5 => MqttPacket::Suback(SubackPacket { reason_code: None, granted: vec![], granted_reason_codes: vec![SubscriptionReasonCode::GrantedQoS1], message_id: id, properties: None }),
                4 => MqttPacket::Suback(SubackPacket::new_v3(id, vec![Granted::QoS1])),
                5 => MqttPacket::Unsuback(UnsubackPacket { granted: if v == 5 { vec![UnsubackCode::Success] } else { vec![] }, message_id: id, properties: None }),
                6 => MqttPacket::Subscribe(SubscribePacket { qos: 1, subscriptions: vec![sub("a")], message_id: id, properties: None }),
                7 => MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, unsubscriptions: vec!["a".into()], message_id: id, properties: None }),
                8 => MqttPacket::Publish(PublishPacket { qos: 1, message_id: Some(id), ..min_publish() }),
                _ => MqttPacket::Publish(PublishPacket { qos: 2, dup: true, message_id: Some(id), ..min_publish() }),
            }
        })
        .collect();
    if enc {
        return Load::Each(ps, v);
    }
    let mut d = vec![];
    for p in &ps {
        d.extend(refenc::encode(&mut Rng::new(1), p, v, Style::Free).0);
    }
    Load::Decode(d, v, Chunks::All, 8192)
}
fn numbered_growth(c: &mut Ctx) {
    const NAMES: [&str; 10] = ["puback", "pubrec", "pubrel", "pubcomp", "suback", "unsuback", "subscribe", "unsubscribe", "publish", "publish again"];
    let i = c.idx as usize;
    let (kind, enc, order, v) = (i % 10, i / 10 % 2 == 1, i as u64 / 20 % 3, [5u8, 4, 3][i / 60 % 3]);
    let (small, big) = (numbered(kind, 1000, v, enc, order), numbered(kind, 65_000, v, enc, order));
    c.eval(mix(c.idx), true);
    c.stat("floods of different identifiers measured", 1);
    compare(c, if enc { "encoding" } else { "decoding" }, &format!("v{} {} of every identifier", v, NAMES[kind]), &small, &big)
}
/// packets with one field of `n` bytes
fn long_fields() -> Vec<(String, Box<dyn Fn(usize, bool) -> (MqttPacket, u8) + Sync>)> {
    fn t(n: usize, wide: bool) -> String {
        if wide { "é".repeat(n / 2) } else { "a".repeat(n) }
    }
    type Make = Box<dyn Fn(usize, bool) -> (MqttPacket, u8) + Sync>;
    let mut o: Vec<(String, Make)> = vec![];
    for p in PLACES {
        for id in allowed(p) {
            let mk: Option<fn(String) -> Val> = match wire_type(*id).unwrap() {
                WT::Str => Some(Val::Str),
                WT::TextBin | WT::Bin => Some(|s| Val::Bin(s.into_bytes())),
                _ => None,
            };
            if let Some(mk) = mk {
                o.push((format!("property {:#04x} of {:?}", id, p), Box::new(move |n, w| {
                    let mut l = vec![(*id, mk(t(n, w)))];
                    if *id == 0x16 && p != Place::Auth {
                        l.push((0x15, Val::Str("m".into())));
                    }
                    (base_with(p, &l), 5)
                })));
            }
        }
        o.push((format!("user property key of {:?}", p), Box::new(move |n, w| (base_with(p, &[(0x26, Val::Pair(t(n, w), "v".into()))]), 5))));
        o.push((format!("user property value of {:?}", p), Box::new(move |n, w| (base_with(p, &[(0x26, Val::Pair("k".into(), t(n, w)))]), 5))));
    }
    for v in [3u8, 4, 5] {
        let cn = move |f: fn(&mut ConnectPacket, String)| -> Make {
            Box::new(move |n, w| {
                let mut k = min_connect(v);
                f(&mut k, t(n, w));
                (MqttPacket::Connect(k), v)
            })
        };
        o.push((format!("v{} client id", v), cn(|k, s| k.client_id = s)));
        o.push((format!("v{} user name", v), cn(|k, s| k.user_name = Some(s))));
        o.push((format!("v{} password", v), cn(|k, s| (k.user_name, k.password) = (Some("u".into()), Some(s)))));
        o.push((format!("v{} will topic", v), cn(|k, s| k.will = Some(LastWill { topic: Some(s), payload: Some("p".into()), qos: 1, retain: false, properties: None }))));
        o.push((format!("v{} will payload", v), cn(|k, s| k.will = Some(LastWill { topic: Some("w".into()), payload: Some(s), qos: 1, retain: false, properties: None }))));
        o.push((format!("v{} topic", v), Box::new(move |n, w| (MqttPacket::Publish(PublishPacket { topic: t(n, w), ..min_publish() }), v))));
        o.push((format!("v{} filter", v), Box::new(move |n, w| (MqttPacket::Subscribe(SubscribePacket { qos: 1, subscriptions: vec![sub(&t(n, w))], message_id: 9, properties: None }), v))));
        o.push((format!("v{} filter to drop", v), Box::new(move |n, w| (MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, unsubscriptions: vec![t(n, w)], message_id: 9, properties: None }), v))));
    }
    o
}
fn field_growth(c: &mut Ctx, make: &dyn Fn(usize, bool) -> (MqttPacket, u8), name: &str, form: u64) {
    const TIMES: u32 = 12;
    let (wide, how) = (form % 2 == 1, form / 2);
    let l = |n: usize| {
        let (p, v) = make(n, wide);
        if how == 0 {
            return Load::Again(Box::new(p), v, TIMES);
        }
        let mut f = refenc::encode(&mut Rng::new(1), &p, v, Style::Free).0;
        if how == 2 {
            // text that is bad at the very end, or nothing of note where the field is binary
            let run: &[u8] = if wide { "éé".as_bytes() } else { b"aaaa" };
            if let Some(at) = (0..f.len() - 3).rev().find(|i| f[*i..*i + 4] == *run) {
                f[at + 3] = 0xff;
            }
        }
        Load::Decode(f.repeat(TIMES as usize), v, Chunks::All, 8192)
    };
    let (small, big) = (l(2000), l(65_534));
    c.eval(hash_bytes(name.as_bytes()) ^ form, true);
    c.stat("single fields measured", 1);
    let dir = ["encoding a long", "decoding a long", "decoding a bad long"][how as usize];
    compare(c, dir, name, &small, &big)
}
fn compare(c: &mut Ctx, dir: &str, name: &str, small: &Load, big: &Load) {
    let (ns, nb) = (size(small).max(1), size(big));
    // the larger input is `nb / ns` times the smaller; allow twelve times that, and 25 ms of noise
    let mut worst = (0u64, 0u64);
    // what the process keeps neither: the fastest run of the small one counts
    let mut first = u64::MAX;
    for attempt in 0..6u64 {
        // a busy machine may be less so a little later
        std::thread::sleep(std::time::Duration::from_millis(attempt * attempt * 60));
        let r = c.guard(|| {
            // each on a thread of its own: what a thread keeps must not make the small one slow as well
            let reps = if attempt == 0 { 1 } else { 2 };
            let apart = |l: &Load, n: u32| std::thread::scope(|t| t.spawn(|| (0..n).map(|_| once(l)).min().unwrap()).join().expect("measured"));
            let a = apart(small, 9);
            (a, apart(big, reps))
        });
        c.stat("growth measurements", 1);
        let Ok((mut a, b)) = r else { return c.fail("growth-panic", || format!("{} {}", dir, name), &[]) };
        c.stat("calls measured", a.2 + b.2);
        first = first.min(a.0);
        a.0 = first;
        let k = nb as f64 / ns as f64;
        let mem_ok = b.1 as f64 <= a.1 as f64 * k * 6.0 + 262_144.0;
        if !mem_ok {
            c.fail("growth-memory", || format!("{} {}: {} bytes of input allocate {} bytes, {} bytes of input {} bytes", dir, name, ns, a.1, nb, b.1), &[]);
            return;
        }
        worst = (a.0, b.0);
        // short runs stay within the processor's caches: never expect better than 2 ns per byte
        let base = a.0.max(2 * ns) as f64;
        if b.0 as f64 <= base * k * 12.0 + 25_000_000.0 {
            c.stat("shapes that grow in proportion", 1);
            c.stat_max("largest input measured", nb);
            if b.0 > 25_000_000 {
                c.stat_max("highest growth relative to linear, percent", (b.0 as f64 * 100.0 / (base * k)) as u64);
            }
            c.sample(|| format!("{} {}: {} bytes in {} us, {} bytes in {} us", dir, name, ns, a.0 / 1000, nb, b.0 / 1000));
            return;
        }
    }
    c.fail("growth", || format!("{} {}: {} bytes of input take {} us, {} bytes take {} us", dir, name, ns, worst.0 / 1000, nb, worst.1 / 1000), &[]);
}

pub fn c23(env: &Env) -> Check<'_> {
    let f = env.n(64, 256) as usize;
    let fields = long_fields();
    let nf = fields.len() as u64;
    let fl = flavours();
    let nl = (fl.len() * LISTS.len() * 2) as u64;
    let env_thorough = env.n(0, 1) == 1;
    Check {
        id: "C23",
        level: "exploration",
        rule: "Fifty-five shapes of input (streams of many small good and bad frames, long payloads, many properties, filters, codes, refused long frames, single-byte delivery; packets with many elements to encode; deep limits), each at n and 64 n or 256 n elements (thorough: 256 n and 1024 n): thread processor time (minimum of repeats, measured again before it is believed) and bytes requested from the allocator, against twelve and six times the linear prediction; and every text and binary field of every packet at 2 and at 65 kilobytes, plain, multi-byte and malformed at its end, in both directions; and every packet with an identifier sent with each of 65,000; and lists of thousands of filters, user properties, topics, client identifiers that look alike (wildcards, shared, $SYS, multi-byte and dictionary prefixes and suffixes) and differ. Distinct by shape and size.",
        assumptions: vec!["quadratic work at the sizes used exceeds twelve times the linear prediction by 25 ms"],
        phases: vec![
            Phase::new("small", SHAPES as u64, move |c: &mut Ctx| growth(c, 300, 4 * f)).batch(1),
            Phase::new("large", SHAPES as u64, move |c: &mut Ctx| growth(c, 1500, f)).batch(1),
            Phase::new("identifiers", 180, numbered_growth).batch(1),
            Phase::new("fields", nf * 6, move |c: &mut Ctx| {
                let (name, make) = &fields[(c.idx / 6) as usize];
                field_growth(c, make, name, c.idx % 6)
            }).batch(2),
            Phase::new("similar_elements", nl, move |c: &mut Ctx| flavour_growth(c, &fl, if env_thorough { 256 } else { 48 })).batch(2),
        ],
        need: vec!["single fields measured", "floods of different identifiers measured", "lists of similar elements measured", "growth measurements", "calls measured", "shapes that grow in proportion"],
        exhaustive: false,
    }
}
