//! Workload for the Miri interpreter: undefined behaviour, uninitialised reads, data races, leaks.
//! Prints what was interpreted. The interpreter is the judge; packet contents are only touched.
//! usage: ubmon <seed> <cases>
use mon::io::{Chunks, Fault, Stream};
use mon::props::streams::{text_ok, texts_ok};
use mon::rng::Rng;
use mon::{gen, mutate};
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::mqtt_writer::MqttWriter;
use mqtt_packet_3_5::*;
use std::io::{BufReader, ErrorKind};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
struct Counts {
    decodes: u64,
    packets: u64,
    encodes: u64,
    frames: u64,
    ops: u64,
    threads: u64,
}

fn small(r: &mut Rng) -> (MqttPacket, u8) {
    if r.permille(970) {
        gen::any_legal(r)
    } else {
        gen::hostile(r)
    }
}

fn decode_all(n: &mut Counts, r: &mut Rng, data: &[u8], v: u8) {
    let ch = match r.below(3) {
        0 => Chunks::All,
        1 => Chunks::Fixed(1 + r.us(4)),
        _ => Chunks::Random(r.next(), 9),
    };
    let fault = match r.below(5) {
        0 => Fault::Once(r.us(data.len() + 1), ErrorKind::TimedOut),
        1 => Fault::Forever(r.us(data.len() + 1), ErrorKind::ConnectionReset),
        _ => Fault::None,
    };
    let cap = *r.pick(&[1usize, 2, 7, 64, 8192]);
    let s = Stream::new(data).chunks(ch).fault(fault).interrupt(if r.bool() { 150 } else { 0 }, r.next());
    let mut d = PacketDecoder::from_bufreader(BufReader::with_capacity(cap, s));
    let mut calls = 0;
    while calls < data.len() + 3 && calls < 12 {
        let more = d.has_more();
        let x = d.decode_packet(v);
        n.decodes += 1;
        calls += 1;
        match x {
            Ok(p) => {
                n.packets += 1;
                assert!(texts_ok(&p), "MONITOR: text is not UTF-8");
                n.encodes += 1;
                if let Ok(b) = p.encode(v) {
                    std::hint::black_box(mon::rng::hash_bytes(&b));
                }
            }
            Err(e) => assert!(text_ok(&e), "MONITOR: error text is not UTF-8"),
        }
        if !more {
            break;
        }
    }
}

fn reader_ops(n: &mut Counts, r: &mut Rng, data: &[u8]) {
    let mut rd = ByteReader::new(BufReader::with_capacity(1 + r.us(16), Stream::new(data).chunks(Chunks::Random(r.next(), 5))));
    for _ in 0..14 {
        n.ops += 1;
        let h = match r.below(13) {
            0 => {
                rd.take(r.us(12) as u32);
                0
            }
            1 => {
                rd.reset_limit();
                0
            }
            2 => rd.read_u8().map_or(1, |x| x as u64),
            3 => rd.read_u16().map_or(1, |x| x as u64),
            4 => rd.read_u32().map_or(1, |x| x as u64),
            5 => rd.read_variable_int().map_or(1, |x| x as u64),
            6 => rd.read_utf8_string().map_or(1, |x| {
                assert!(text_ok(&x), "MONITOR: text is not UTF-8");
                mon::rng::hash_bytes(x.as_bytes())
            }),
            7 => rd.read_binary().map_or(1, |x| mon::rng::hash_bytes(&x)),
            8 => rd.read_len(r.us(40) as u32).map_or(1, |x| mon::rng::hash_bytes(&x)),
            9 => rd.consume().map_or(1, |x| mon::rng::hash_bytes(&x)),
            10 => rd.has_more() as u64,
            11 => rd.read_header().map_or(1, |(a, h)| a as u64 + format!("{:?}", h).len() as u64),
            _ => rd.read_properties().map_or(1, |x| x.map_or(0, |l| l.len() as u64)),
        };
        std::hint::black_box(h);
    }
    let mut w = MqttWriter::new(r.us(9));
    w.write_u8(r.u8());
    w.write_u16(r.next() as u16);
    w.write_u32(r.next() as u32);
    let _ = w.write_variable_num(r.next() as u32 >> r.below(32));
    let _ = w.write_utf8_str("t\u{e9}xt");
    let _ = w.write_utf8_string("x".repeat(r.us(70)));
    let _ = w.write_binary(data.to_vec());
    let _ = w.write_binary_ref(data);
    w.write_vec(data.to_vec());
    w.write_slice(data);
    std::hint::black_box(mon::rng::hash_bytes(&w.into_vec()));
}

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).filter_map(|x| x.parse().ok()).collect();
    let (seed, cases) = (a.first().copied().unwrap_or(1), a.get(1).copied().unwrap_or(40));
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        // a panic of the library is another property's business
        if s.contains("MONITOR") {
            eprintln!("{}", s);
            std::process::exit(97);
        }
    }));
    mon::io::NOSY.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut n = Counts::default();
    for i in 0..cases {
        let mut r = Rng::for_case(seed, "miri", i);
        let _ = catch_unwind(AssertUnwindSafe(|| {
            let v = gen::version(&mut r);
            let mut data = vec![];
            for _ in 0..r.range(1, 3) {
                let (p, w) = small(&mut r);
                n.encodes += 1;
                if let Ok(b) = p.encode(w) {
                    n.frames += 1;
                    std::hint::black_box(mon::rng::hash_bytes(&b));
                    data.extend(b);
                }
            }
            if r.pct(45) {
                data = mutate::raw(&mut r, &data);
            }
            if r.pct(25) {
                data.truncate(r.us(data.len() + 1));
            }
            decode_all(&mut n, &mut r, &data, v);
            reader_ops(&mut n, &mut r, &data);
        }));
    }
    // packets shared between threads, decoders side by side
    for i in 0..(cases / 12).max(2) {
        let mut r = Rng::for_case(seed, "miri-threads", i);
        let ps: Vec<(MqttPacket, u8)> = (0..3).map(|_| small(&mut r)).collect();
        let fs: Vec<Vec<u8>> = ps.iter().filter_map(|(p, v)| p.clone().encode(*v).ok()).collect();
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3u64)
                .map(|k| {
                    let (ps, fs) = (&ps, &fs);
                    sc.spawn(move || {
                        let mut n = Counts::default();
                        let mut r = Rng::for_case(seed, "miri-thread", i * 8 + k);
                        let _ = catch_unwind(AssertUnwindSafe(|| {
                            for (p, v) in ps {
                                n.encodes += 1;
                                let q = match p {
                                    MqttPacket::Publish(p) => p.encode(*v),
                                    MqttPacket::Connect(p) => p.encode(*v),
                                    MqttPacket::Connack(p) => p.encode(*v),
                                    MqttPacket::Subscribe(p) => p.encode(*v),
                                    other => other.clone().encode(*v),
                                };
                                if let Ok(b) = q {
                                    n.frames += 1;
                                    decode_all(&mut n, &mut r, &b, *v);
                                }
                            }
                            for f in fs {
                                decode_all(&mut n, &mut r, f, 5);
                            }
                        }));
                        n
                    })
                })
                .collect();
            for h in hs {
                let m = h.join().expect("thread");
                n.decodes += m.decodes;
                n.packets += m.packets;
                n.encodes += m.encodes;
                n.frames += m.frames;
                n.threads += 1;
            }
        });
    }
    println!("decode calls interpreted={}", n.decodes);
    println!("packets decoded in the interpreter={}", n.packets);
    println!("encode calls interpreted={}", n.encodes);
    println!("frames encoded in the interpreter={}", n.frames);
    println!("reader operations interpreted={}", n.ops);
    println!("threads interpreted={}", n.threads);
    println!("interpreter runs without report=1");
}
