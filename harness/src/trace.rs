//! A fixed workload over the whole public interface whose every observable result is folded into
//! one number per case, so that differently built copies of the library can be compared (C26).
//! The same seed and index mean the same inputs in every build, on every machine.
use crate::canon::{Canon, Flat};
use crate::conv::all_user_props;
use crate::io::{Chunks, Fault, Stream};
use crate::props::codec::{decode_typed, encode_ref};
use crate::props::streams::{any_frame, base_frames, reframed, substitutions, types_of};
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::{Env, Tier};
use crate::source::{sources, Source};
use crate::spec::*;
use crate::{gen, mutate};
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::connect::ConnectFlags;
use mqtt_packet_3_5::mqtt_writer::MqttWriter;
use mqtt_packet_3_5::*;
use std::io::{BufReader, ErrorKind, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// what a case showed
#[derive(Default, Clone)]
pub struct Sink {
    h: u64,
    text: Option<String>,
    pub n: Counts,
}
#[derive(Default, Clone, Debug)]
pub struct Counts {
    pub cases: u64,
    pub decodes: u64,
    pub packets: u64,
    pub encodes: u64,
    pub frames: u64,
    pub ops: u64,
    pub panics: u64,
}
impl Counts {
    pub fn add(&mut self, o: &Counts) {
        self.cases += o.cases;
        self.decodes += o.decodes;
        self.packets += o.packets;
        self.encodes += o.encodes;
        self.frames += o.frames;
        self.ops += o.ops;
        self.panics += o.panics;
    }
}
/// result of a case in which the library panicked
pub const PANIC: u64 = 0xdead_dead_dead_dead;

impl Sink {
    fn put(&mut self, label: &str, b: &[u8]) {
        self.h = mix(self.h ^ hash_bytes(label.as_bytes())).wrapping_add(hash_bytes(b));
        if let Some(t) = self.text.as_mut() {
            t.push_str(&format!("{} {}\n", label, crate::run::hex(b)));
        }
    }
    fn num(&mut self, label: &str, n: u64) {
        self.put(label, &n.to_be_bytes());
    }
    fn flat(&mut self, label: &str, f: &Flat) {
        for (p, b) in f {
            self.put(&format!("{}{}", label, p), b);
        }
    }
    fn packet(&mut self, label: &str, r: &Res<MqttPacket>) {
        self.n.decodes += 1;
        match r {
            Ok(p) => {
                self.n.packets += 1;
                self.flat(label, &p.flat());
            }
            // the wording of an error is nobody's business
            Err(_) => self.put(label, b"error"),
        }
    }
    fn bytes(&mut self, label: &str, r: &Res<Vec<u8>>) {
        match r {
            Ok(b) => self.put(label, b),
            Err(_) => self.put(label, b"error"),
        }
    }
    fn frame(&mut self, label: &str, r: &Res<Vec<u8>>, any_order: bool) {
        self.n.encodes += 1;
        match r {
            Ok(b) => {
                self.n.frames += 1;
                if any_order {
                    // user properties with different keys come in the order the map has them
                    let mut s = b.clone();
                    s.sort();
                    self.put(label, &s);
                } else {
                    self.put(label, b);
                }
            }
            Err(_) => self.put(label, b"error"),
        }
    }
    pub fn hash(&self) -> u64 {
        mix(self.h)
    }
    pub fn text(&self) -> &str {
        self.text.as_deref().unwrap_or("")
    }
}
fn unordered(p: &MqttPacket) -> bool {
    all_user_props(p).iter().any(|(_, u)| u.len() > 1)
}

enum Job {
    Stream {
        data: Vec<u8>,
        v: u8,
        chunks: Chunks,
        fault: Fault,
        interrupt: u64,
        cap: usize,
        typed: bool,
        extra: usize,
    },
    Encode {
        p: Box<MqttPacket>,
        vs: Vec<u8>,
    },
    Ops {
        data: Vec<u8>,
        v: u8,
        cap: usize,
        chunks: Chunks,
        seed: u64,
        n: usize,
        wild: bool,
    },
    Writer {
        seed: u64,
        n: usize,
    },
    Tables {
        what: u64,
    },
    Values {
        p: Box<MqttPacket>,
        q: Box<MqttPacket>,
    },
    Build {
        id: u16,
        seed: u64,
    },
}

pub struct Tracer {
    seed: u64,
    sources: Vec<Source>,
    bases: Vec<(Vec<u8>, u8)>,
    small: bool,
}

fn version(r: &mut Rng) -> u8 {
    if r.pct(6) {
        r.u8()
    } else {
        gen::version(r)
    }
}
fn chunks(r: &mut Rng) -> Chunks {
    match r.below(4) {
        0 | 1 => Chunks::All,
        2 => Chunks::Fixed(1 + r.us(9)),
        _ => Chunks::Random(r.next(), 1 + r.us(40)),
    }
}

impl Tracer {
    pub fn new(seed: u64, small: bool) -> Tracer {
        if small {
            gen::set_small();
        }
        let env = Env {
            seed,
            tier: Tier::Quick,
            root: String::new(),
            scale: 1.0,
        };
        let mut s = sources(&env);
        if small {
            s.retain(|s| {
                matches!(
                    s.name,
                    "every_code"
                        | "every_property_subset"
                        | "every_connect_shape"
                        | "every_u16_field"
                        | "every_u16_property"
                        | "u32_properties"
                        | "code_points"
                )
            });
        }
        let bases = if small {
            vec![]
        } else {
            reframed(&base_frames())
        };
        Tracer {
            seed,
            sources: s,
            bases,
            small,
        }
    }

    fn job(&self, idx: u64) -> Job {
        let mut r = Rng::for_case(
            self.seed,
            if self.small { "trace-small" } else { "trace" },
            idx,
        );
        let r = &mut r;
        let big = if self.small { 1 } else { 4 };
        match idx % 16 {
            k @ 0..=5 => {
                let v = version(r);
                let gv = if (3..=5).contains(&v) { v } else { 5 };
                let mut data = vec![];
                for _ in 0..r.range(1, if self.small { 2 } else { 4 }) {
                    data.extend(any_frame(r, gv));
                }
                if k == 1 && !self.bases.is_empty() {
                    let n = crate::props::streams::sub_count(&self.bases);
                    if let Some((f, _)) = substitutions(&self.bases, r.below(n)) {
                        data = f;
                    }
                }
                if r.pct(20) {
                    data = mutate::raw(r, &data);
                }
                if r.pct(15) {
                    data.truncate(r.us(data.len() + 1));
                }
                let at = r.us(data.len() + 1);
                let fault = match r.below(8) {
                    0 => Fault::Once(at, ErrorKind::WouldBlock),
                    1 => Fault::Forever(at, ErrorKind::ConnectionReset),
                    _ => Fault::None,
                };
                Job::Stream {
                    data,
                    v,
                    chunks: chunks(r),
                    fault,
                    interrupt: if r.pct(20) { 150 } else { 0 },
                    cap: *r.pick(&[1usize, 2, 7, 64, 8192]),
                    typed: k == 5,
                    extra: r.us(4),
                }
            }
            6 | 7 => {
                let (p, v) = gen::any_legal(r);
                Job::Encode {
                    p: Box::new(p),
                    vs: vec![v, 3 + r.below(3) as u8, r.u8()],
                }
            }
            8 => {
                let (p, v) = gen::hostile(r);
                Job::Encode {
                    p: Box::new(p),
                    vs: vec![v, 3, 4, 5, r.u8()],
                }
            }
            9 | 10 => {
                // the bulky ones now and then
                let s = loop {
                    let s = r.pick(&self.sources);
                    let bulky = matches!(
                        s.name,
                        "element_counts"
                            | "payload_sizes"
                            | "field_lengths"
                            | "property_text_lengths"
                    );
                    if !bulky || r.pct(12) {
                        break s;
                    }
                };
                let i = r.below(s.count);
                let (p, v) = (s.make)(r, i);
                Job::Encode {
                    p: Box::new(p),
                    vs: vec![v],
                }
            }
            11 | 12 => {
                let n = r.us(if self.small { 60 } else { 400 });
                let mut data: Vec<u8> = (0..n)
                    .map(|_| if r.bool() { r.below(6) as u8 } else { r.u8() })
                    .collect();
                if r.bool() {
                    let f = any_frame(r, 5);
                    let at = r.us(data.len() + 1).min(20);
                    data.splice(at..at, f);
                }
                Job::Ops {
                    data,
                    v: version(r),
                    cap: 1 + r.us(64),
                    chunks: chunks(r),
                    seed: r.next(),
                    n: (2 + r.us(12)) * big,
                    wild: idx % 16 == 12,
                }
            }
            13 => Job::Writer {
                seed: r.next(),
                n: (1 + r.us(8)) * big,
            },
            14 => Job::Values {
                p: Box::new(gen::any_legal(r).0),
                q: Box::new(if r.bool() {
                    gen::any_legal(r).0
                } else {
                    gen::hostile(r).0
                }),
            },
            _ if idx / 16 % 2 == 0 => Job::Tables { what: idx / 32 },
            _ => Job::Build {
                id: gen::u16v(r),
                seed: r.next(),
            },
        }
    }

    /// Runs case `idx`. `on_input` gets the number of its input before the library sees it.
    pub fn case(&self, idx: u64, text: bool, on_input: &mut dyn FnMut(u64)) -> Sink {
        let mut s = Sink {
            h: idx,
            text: if text { Some(String::new()) } else { None },
            n: Counts::default(),
        };
        s.n.cases = 1;
        let j = self.job(idx);
        let ih = input_hash(&j, if text { s.text.as_mut() } else { None });
        on_input(ih);
        let mut t = s.clone();
        match catch_unwind(AssertUnwindSafe(move || {
            run(j, &mut t);
            t
        })) {
            Ok(t) => t,
            Err(_) => {
                s.n.panics = 1;
                if let Some(t) = s.text.as_mut() {
                    t.push_str("panic\n");
                }
                s.h = PANIC;
                s
            }
        }
    }
}

/// every case that panicked has this result
pub fn panic_hash() -> u64 {
    mix(PANIC)
}

fn input_hash(j: &Job, text: Option<&mut String>) -> u64 {
    let mut s = Sink {
        text: text.as_ref().map(|_| String::new()),
        ..Sink::default()
    };
    match j {
        Job::Stream {
            data,
            v,
            chunks,
            fault,
            interrupt,
            cap,
            typed,
            extra,
        } => {
            s.put("input stream", data);
            s.put(
                "input delivery",
                format!(
                    "v{} {:?} {:?} {} {} {} {}",
                    v, chunks, fault, interrupt, cap, typed, extra
                )
                .as_bytes(),
            );
        }
        Job::Encode { p, vs } => {
            s.flat("input ", &p.flat());
            s.put("input versions", vs);
        }
        Job::Ops {
            data,
            v,
            cap,
            chunks,
            seed,
            n,
            wild,
        } => {
            s.put("input stream", data);
            s.put(
                "input delivery",
                format!("v{} {} {:?} {} {} {}", v, cap, chunks, seed, n, wild).as_bytes(),
            );
        }
        Job::Writer { seed, n } => s.put("input writer", format!("{} {}", seed, n).as_bytes()),
        Job::Tables { what } => s.num("input tables", *what),
        Job::Values { p, q } => {
            s.flat("input a", &p.flat());
            s.flat("input b", &q.flat());
        }
        Job::Build { id, seed } => {
            s.put("input constructors", format!("{} {}", id, seed).as_bytes())
        }
    }
    if let Some(t) = text {
        t.push_str(s.text());
    }
    s.hash()
}

fn run(j: Job, s: &mut Sink) {
    match j {
        Job::Stream {
            data,
            v,
            chunks,
            fault,
            interrupt,
            cap,
            typed,
            extra,
        } => {
            let st = Stream::new(&data)
                .chunks(chunks)
                .fault(fault)
                .interrupt(interrupt, 5);
            let max = data.len() + 4;
            if typed {
                let mut rd = ByteReader::new(BufReader::with_capacity(cap, st));
                let (mut k, mut bad) = (0, 0);
                while rd.has_more() && k < max && bad < 6 {
                    let x = decode_typed(&mut rd, v);
                    s.packet("typed ", &x);
                    bad = if x.is_ok() { 0 } else { bad + 1 };
                    k += 1;
                }
                return;
            }
            let mut d = PacketDecoder::from_bufreader(BufReader::with_capacity(cap, st));
            let (mut k, mut more, mut bad) = (0, 0, 0);
            while k < max && bad < 6 {
                let m = d.has_more();
                s.num("has_more", m as u64);
                if !m {
                    more += 1;
                    if more > extra {
                        break;
                    }
                }
                let x = d.decode_packet(v);
                s.packet("packet ", &x);
                bad += 1;
                if let Ok(p) = &x {
                    bad = 0;
                    let o = unordered(p);
                    s.frame("encoded again", &encode_ref(p, v), o);
                }
                k += 1;
            }
            rest(&mut d.reader, s);
        }
        Job::Encode { p, vs } => {
            let o = unordered(&p);
            for (i, v) in vs.iter().enumerate() {
                let a = (*p).clone().encode(*v);
                s.frame(&format!("encoded {}", i), &a, o);
                s.frame(
                    &format!("encoded by reference {}", i),
                    &encode_ref(&p, *v),
                    o,
                );
                if let (0, Ok(b)) = (i, &a) {
                    let x = PacketDecoder::from_stream(&b[..]).decode_packet(*v);
                    s.packet("decoded ", &x);
                    if let Ok(x) = x {
                        s.num("as before", (x == *p) as u64);
                    }
                }
            }
        }
        Job::Ops {
            data,
            v,
            cap,
            chunks,
            seed,
            n,
            wild,
        } => reader_ops(&data, v, cap, chunks, seed, n, wild, s),
        Job::Writer { seed, n } => writer_ops(seed, n, s),
        Job::Tables { what } => tables(what, s),
        Job::Values { p, q } => {
            let c = (*p).clone();
            s.flat("clone ", &c.flat());
            s.put(
                "compared",
                &[
                    (*p == c) as u8,
                    (*p != c) as u8,
                    (*p == *q) as u8,
                    (*q == *p) as u8,
                ],
            );
            for x in [&p, &q] {
                // how other characters are printed depends on the toolchain's Unicode tables
                if !unordered(x) && x.flat().iter().all(|(_, b)| b.is_ascii()) {
                    s.put("printed", format!("{:?}", x).as_bytes());
                }
            }
            s.n.ops += 6;
        }
        Job::Build { id, seed } => build(id, seed, s),
    }
}

/// what is left on the stream, as far as limits that are still set allow
fn rest<R: Read>(rd: &mut ByteReader<R>, s: &mut Sink) {
    for _ in 0..6 {
        let x = rd.read_u8();
        s.num("rest", x.map_or(999, |x| x as u64));
    }
}

#[allow(clippy::too_many_arguments)]
fn reader_ops(
    data: &[u8],
    v: u8,
    cap: usize,
    ch: Chunks,
    seed: u64,
    n: usize,
    wild: bool,
    s: &mut Sink,
) {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut d =
        PacketDecoder::from_bufreader(BufReader::with_capacity(cap, Stream::new(data).chunks(ch)));
    for _ in 0..n {
        let rd = &mut d.reader;
        s.n.ops += 1;
        let len = match r.below(9) {
            0 => 0,
            1 => u32::MAX,
            2 => r.next() as u32,
            3 => 1 << r.below(32),
            _ => r.us(40) as u32,
        };
        let fh = FixedHeader {
            cmd: PacketType::from_bits(r.below(17) as u8),
            dup: r.bool(),
            qos: r.below(5) as u8,
            retain: r.bool(),
        };
        match r.below(if wild { 30 } else { 18 }) {
            0..=2 => {
                rd.take(len);
                s.num("take", len as u64);
            }
            3 | 4 => {
                rd.reset_limit();
                s.num("reset_limit", 0);
            }
            5 => {
                let x = rd.has_more();
                s.num("has_more", x as u64);
            }
            6 => {
                let x = rd.read_u8();
                s.num("read_u8", x.map_or(u64::MAX, |x| x as u64));
            }
            7 => {
                let x = rd.read_u16();
                s.num("read_u16", x.map_or(u64::MAX, |x| x as u64));
            }
            8 => {
                let x = rd.read_u32();
                s.num("read_u32", x.map_or(u64::MAX, |x| x as u64));
            }
            9 => {
                let x = rd.read_bool_byte();
                s.num("read_bool_byte", x.map_or(u64::MAX, |x| x as u64));
            }
            10 => {
                let x = rd.read_variable_int();
                s.num("read_variable_int", x.map_or(u64::MAX, |x| x as u64));
            }
            11 => {
                let x = rd.read_utf8_string().map(|x| x.into_bytes());
                s.bytes("read_utf8_string", &x);
            }
            12 => {
                let x = rd.read_binary();
                s.bytes("read_binary", &x);
            }
            13 => {
                let x = rd.read_len(len & 0xf_ffff);
                s.bytes("read_len", &x);
            }
            14 => {
                let x = rd.consume();
                s.bytes("consume", &x);
            }
            15 => match rd.read_properties() {
                Err(_) => s.put("read_properties", b"error"),
                Ok(None) => s.put("read_properties", b"none"),
                Ok(Some(l)) => {
                    for (id, x) in &l {
                        s.put("property", format!("{} {}", id, prop(x)).as_bytes());
                    }
                }
            },
            16 => match rd.read_header() {
                Err(_) => s.put("read_header", b"error"),
                Ok((n, h)) => {
                    s.num("read_header", n as u64);
                    s.flat("header ", &h.flat());
                }
            },
            17 => {
                let x = d.decode_packet(v);
                s.packet("packet ", &x);
            }
            // a packet type's own decoder with whatever header
            k => {
                let x = match k - 18 {
                    0 => ConnectPacket::decode(rd, fh, len, v).map(MqttPacket::Connect),
                    1 => ConnackPacket::decode(rd, fh, len, v).map(MqttPacket::Connack),
                    2 | 3 => PublishPacket::decode(rd, fh, len, v).map(MqttPacket::Publish),
                    4 => ConfirmationPacket::decode(rd, fh, len, v).map(MqttPacket::Puback),
                    5 => SubscribePacket::decode(rd, fh, len, v).map(MqttPacket::Subscribe),
                    6 => SubackPacket::decode(rd, fh, len, v).map(MqttPacket::Suback),
                    7 => UnsubscribePacket::decode(rd, fh, len, v).map(MqttPacket::Unsubscribe),
                    8 => UnsubackPacket::decode(rd, fh, len, v).map(MqttPacket::Unsuback),
                    9 => DisconnectPacket::decode(rd, fh, len, v).map(MqttPacket::Disconnect),
                    10 => AuthPacket::decode(rd, fh, len, v).map(MqttPacket::Auth),
                    _ => PingreqPacket::decode(rd, fh, len, v).map(|_| MqttPacket::Pingreq),
                };
                s.packet("decoded ", &x);
            }
        }
    }
    rest(&mut d.reader, s);
}
fn prop(x: &PropType) -> String {
    match x {
        PropType::Map(m) if m.len() > 1 => {
            let mut v: Vec<_> = m.iter().collect();
            v.sort();
            format!("{:?}", v)
        }
        PropType::MapRef(m) if m.len() > 1 => {
            let mut v: Vec<_> = m.iter().collect();
            v.sort();
            format!("{:?}", v)
        }
        x => format!("{:?}", x),
    }
}

fn writer_ops(seed: u64, n: usize, s: &mut Sink) {
    use crate::props::prims::Wrote;
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut w = MqttWriter::new(r.us(40));
    let mut any_order = false;
    let long = |r: &mut Rng| {
        if !gen::small() && r.pct(4) {
            r.range(65_500, 65_600)
        } else {
            r.us(40)
        }
    };
    for _ in 0..n {
        s.n.ops += 1;
        let x = r.next() as u32 >> r.below(32);
        match r.below(16) {
            0 => w.write_u8(x as u8),
            1 => w.write_u16(x as u16),
            2 => w.write_u32(x),
            3 => s.num("write_variable_num", w.write_variable_num(x).wrote() as u64),
            4 => s.num("write_length", w.write_length(x as usize).wrote() as u64),
            5 => {
                let n = long(r);
                s.num(
                    "write_utf8_string",
                    w.write_utf8_string("q".repeat(n)).wrote() as u64,
                )
            }
            6 => {
                let t = gen::text(r);
                s.num("write_utf8_str", w.write_utf8_str(&t).wrote() as u64)
            }
            7 => {
                let n = long(r);
                s.num(
                    "write_binary",
                    w.write_binary(gen::binary_n(r, n)).wrote() as u64,
                )
            }
            8 => {
                let n = long(r);
                let b = gen::binary_n(r, n);
                s.num("write_binary_ref", w.write_binary_ref(&b).wrote() as u64)
            }
            9 => w.write_vec(vec![x as u8; r.us(9)]),
            10 => w.write_slice(&[x as u8, 7, 8][..r.us(4)]),
            11 => {
                let (a, b) = (vec![3u8; r.us(4)], vec![x as u8; r.us(4)]);
                s.num("write_sized", w.write_sized(&a, &b).wrote() as u64)
            }
            12 => s.put(
                "encode_variable_num",
                &MqttWriter::encode_variable_num(x & VARINT_MAX),
            ),
            13 => s.put("encode_multibyte_num", &MqttWriter::encode_multibyte_num(x)),
            14 => {
                let fh = FixedHeader {
                    cmd: PacketType::from_bits(r.below(16) as u8),
                    dup: r.bool(),
                    qos: r.below(4) as u8,
                    retain: r.bool(),
                };
                s.put("header", format!("{:?}", fh.encode()).as_bytes());
                w.write_header(fh);
            }
            _ => {
                let m: UserProperties = gen::user_map(r);
                let t = "s".repeat(r.us(30));
                let bin = [1u8, x as u8];
                let k = r.below(13);
                any_order |= m.len() > 1 && (k == 6 || k == 7);
                let p = match k {
                    0 => PropType::U32(x),
                    1 => PropType::U16(x as u16),
                    2 => PropType::U8(x as u8),
                    3 => PropType::Str(&t),
                    4 => PropType::String(t.clone()),
                    5 => PropType::Pair(t.clone(), "v".into()),
                    6 => PropType::Map(m),
                    7 => PropType::MapRef(&m),
                    8 => PropType::Bool(x & 1 == 1),
                    9 => PropType::U32Vec(vec![x & VARINT_MAX; r.us(4)]),
                    10 => PropType::Binary(vec![x as u8; r.us(9)]),
                    11 => PropType::BinaryRef(&bin),
                    _ => PropType::VarInt(x & VARINT_MAX),
                };
                s.num(
                    "write_properties",
                    w.write_properties(vec![(r.u8(), p)]).is_ok() as u64,
                )
            }
        }
    }
    let mut b = w.into_vec();
    if any_order {
        b.sort();
    }
    s.put("written", &b);
}

fn codes<T: MqttCode<T> + Canon>(name: &str, b: u8, s: &mut Sink) {
    match T::from_byte(b) {
        Ok(x) => {
            s.flat(name, &x.flat());
            s.num("to_byte", x.to_byte() as u64);
        }
        Err(_) => s.put(name, b"error"),
    }
}
fn tables(what: u64, s: &mut Sink) {
    s.n.ops += 30;
    let b = what as u8;
    let mut r = Rng::new(what);
    let r = &mut r;
    s.put(
        "PacketType",
        format!("{:?}", PacketType::from_bits(b)).as_bytes(),
    );
    match FixedHeader::from_byte(b) {
        Ok(h) => {
            s.flat("FixedHeader", &h.flat());
            s.put(
                "FixedHeader::encode",
                format!("{:?}", h.encode()).as_bytes(),
            );
        }
        Err(_) => s.put("FixedHeader", b"error"),
    }
    s.flat(
        "FixedHeader::for_type",
        &FixedHeader::for_type(PacketType::from_bits(b & 15)).flat(),
    );
    s.flat("ConnectFlags::new", &ConnectFlags::new(b).flat());
    match ConnectFlags::from_byte(b) {
        Ok((f, w)) => {
            s.flat("ConnectFlags", &f.flat());
            s.flat("will", &w.flat());
        }
        Err(_) => s.put("ConnectFlags", b"error"),
    }
    match Granted::from_byte(b) {
        Ok(x) => s.num("Granted", x.to_byte() as u64),
        Err(_) => s.put("Granted", b"error"),
    }
    match QoS::from_byte(b) {
        Ok(x) => s.num("QoS", x.to_byte() as u64),
        Err(_) => s.put("QoS", b"error"),
    }
    codes::<SubscriptionReasonCode>("SubscriptionReasonCode", b, s);
    codes::<DisconnectCode>("DisconnectCode", b, s);
    codes::<UnsubackCode>("UnsubackCode", b, s);
    codes::<AuthCode>("AuthCode", b, s);
    codes::<PubcompPubrelCode>("PubcompPubrelCode", b, s);
    codes::<PubackPubrecCode>("PubackPubrecCode", b, s);
    for t in ["MQTT", "MQIsdp", "mqtt", "", &gen::text(r)] {
        match Protocol::from_source(t) {
            Ok(p) => s.flat("Protocol", &p.flat()),
            Err(_) => s.put("Protocol", b"error"),
        }
    }
    // variable byte integers, written and read back, canonical and not
    for _ in 0..8 {
        let x = (r.next() as u32 >> r.below(32)) & VARINT_MAX;
        let e = MqttWriter::encode_variable_num(x);
        s.put("variable", &e);
        let mut o = varint_padded(x, r.range(varint(x).len(), 4));
        o.extend([r.u8(), r.u8(), r.u8()]);
        let y = ByteReader::new(BufReader::new(&o[..])).read_variable_int();
        s.num("read back", y.map_or(u64::MAX, |x| x as u64));
        let z = [r.u8(), r.u8(), r.u8(), r.u8(), r.u8()];
        let y = ByteReader::new(BufReader::new(&z[..])).read_variable_int();
        s.num("read", y.map_or(u64::MAX, |x| x as u64));
    }
    for (n, d) in [
        ("a", &ConnectProperties::default().flat()),
        ("b", &ConnackProperties::default().flat()),
        ("c", &WillProperties::default().flat()),
        ("d", &ConnackPacket::default().flat()),
    ] {
        s.flat(n, d);
    }
}

fn build(id: u16, seed: u64, s: &mut Sink) {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let props = if r.bool() {
        None
    } else {
        Some(ConfirmationProperties {
            reason_string: if r.bool() { Some(gen::text(r)) } else { None },
            user_properties: gen::user_map(r),
        })
    };
    let o = props
        .as_ref()
        .map_or(false, |p| p.user_properties.len() > 1);
    let a = PUBACK_CODES[r.us(PUBACK_CODES.len())].1.clone();
    let k = PUBREL_CODES[r.us(2)].1.clone();
    let l = [
        ConfirmationPacket::puback_v3(id),
        ConfirmationPacket::pubrec_v3(id),
        ConfirmationPacket::pubrel_v3(id),
        ConfirmationPacket::pubcomp_v3(id),
        ConfirmationPacket::puback_v5(id, a.clone(), props.clone()),
        ConfirmationPacket::pubrec_v5(id, a, props.clone()),
        ConfirmationPacket::pubrel_v5(id, k.clone(), props.clone()),
        ConfirmationPacket::pubcomp_v5(id, k, props),
    ];
    for (i, x) in l.iter().enumerate() {
        s.flat("built ", &x.flat());
        for v in [3, 4, 5] {
            s.frame("encoded", &x.encode(v), o && i > 3);
        }
    }
    let g: Vec<Granted> = (0..1 + r.us(5))
        .map(|_| r.pick(GRANTED).1.clone())
        .collect();
    let x = SubackPacket::new_v3(id, g);
    s.flat("built ", &x.flat());
    s.frame("encoded", &x.encode(4), false);
    let _ = types_of(5);
}

/// command line: trace native <seed> <cases> <threads> <file> | small <seed> <from> <step> <cases> | show <seed> <small 0|1> <index> | dict
pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let num = |i: usize| {
        a.get(i)
            .and_then(|x| x.parse::<u64>().ok())
            .expect("number")
    };
    match a.first().map(|x| x.as_str()) {
        Some("native") => native(num(1), num(2), num(3), &a[4]),
        Some("small") => {
            let t = Tracer::new(num(1), true);
            let mut n = Counts::default();
            for k in 0..num(4) {
                let idx = num(2) + k * num(3);
                let mut ih = 0;
                let s = t.case(idx, false, &mut |h| ih = h);
                n.add(&s.n);
                println!("{} {:016x} {:016x}", idx, ih, s.hash());
            }
            print_counts(&n);
        }
        Some("show") => {
            let t = Tracer::new(num(1), num(2) == 1);
            let s = t.case(num(3), true, &mut |_| ());
            print!("{}", s.text());
        }
        Some("dict") => print!("{}", gen::dict().to_text()),
        _ => std::process::exit(2),
    }
}
fn print_counts(n: &Counts) {
    println!("cases={}", n.cases);
    println!("decode calls={}", n.decodes);
    println!("packets decoded={}", n.packets);
    println!("encode calls={}", n.encodes);
    println!("frames encoded={}", n.frames);
    println!("reader, writer and table operations={}", n.ops);
    println!("cases that panicked={}", n.panics);
}
/// two numbers per case into a file
fn native(seed: u64, cases: u64, threads: u64, path: &str) {
    let t = Tracer::new(seed, false);
    let next = crate::atomic64::AtomicU64::new(0);
    let out = std::sync::Mutex::new((vec![0u8; cases as usize * 16], Counts::default()));
    const B: u64 = 256;
    // the case each thread is busy with, plus one
    let busy: Vec<crate::atomic64::AtomicU64> = (0..threads)
        .map(|_| crate::atomic64::AtomicU64::new(0))
        .collect();
    let done = std::sync::atomic::AtomicBool::new(false);
    let (t, next, out) = (&t, &next, &out);
    std::thread::scope(|sc| {
        // a case takes far less than a millisecond
        sc.spawn(|| {
            let mut seen = vec![(0, std::time::Instant::now()); busy.len()];
            while !done.load(std::sync::atomic::Ordering::SeqCst) {
                std::thread::park_timeout(std::time::Duration::from_millis(200));
                for (b, s) in busy.iter().zip(&mut seen) {
                    let c = b.load(std::sync::atomic::Ordering::SeqCst);
                    if c != s.0 {
                        *s = (c, std::time::Instant::now());
                    } else if c != 0 && s.1.elapsed().as_secs() >= 60 {
                        println!("STUCK {}", c - 1);
                        std::process::exit(7);
                    }
                }
            }
        });
        let workers: Vec<_> = busy
            .iter()
            .map(|busy| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || loop {
                        busy.store(0, std::sync::atomic::Ordering::SeqCst);
                        let a = next.fetch_add(B, std::sync::atomic::Ordering::SeqCst);
                        if a >= cases {
                            break;
                        }
                        let mut n = Counts::default();
                        let mut b = vec![];
                        for idx in a..(a + B).min(cases) {
                            let mut ih = 0;
                            busy.store(idx + 1, std::sync::atomic::Ordering::SeqCst);
                            let s = t.case(idx, false, &mut |h| ih = h);
                            n.add(&s.n);
                            b.extend(ih.to_le_bytes());
                            b.extend(s.hash().to_le_bytes());
                        }
                        let mut o = out.lock().unwrap();
                        o.0[a as usize * 16..a as usize * 16 + b.len()].copy_from_slice(&b);
                        o.1.add(&n);
                    })
                    .expect("thread")
            })
            .collect();
        for w in workers {
            let _ = w.join();
        }
        done.store(true, std::sync::atomic::Ordering::SeqCst);
    });
    let o = out.lock().unwrap();
    std::fs::write(path, &o.0).expect("write");
    print_counts(&o.1);
}
