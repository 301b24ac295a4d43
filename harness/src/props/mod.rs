//! One module per group of properties; each function builds the check that decides one property.
pub mod codec;
pub mod live;
pub mod prims;
pub mod streams;
pub mod value;
pub mod wire;

use crate::io::Stream;
use crate::run::{Check, Ctx, Env};
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::*;
use std::io::{BufReader, Cursor};

pub fn build<'a>(id: &str, env: &'a Env) -> Option<Check<'a>> {
    Some(match id {
        "C01" => codec::c01(env),
        "C02" => codec::c02(env),
        "C03" => codec::c03(env),
        "C04" => wire::c04(env),
        "C05" => streams::c05(env),
        "C06" => streams::c06(env),
        "C07" => streams::c07(env),
        "C08" => streams::c08(env),
        "C09" => streams::c09(env),
        "C10" => wire::c10(env),
        "C11" => prims::c11(env),
        "C12" => prims::c12(env),
        "C13" => wire::c13(env),
        "C14" => codec::c14(env),
        "C15" => prims::c15(env),
        "C16" => codec::c16(env),
        "C17" => wire::c17(env),
        "C19" => streams::c19(env),
        "C20" => codec::c20(env),
        "C21" => streams::c21(env),
        "C22" => live::c22(env),
        "C23" => live::c23(env),
        "C24" => value::c24(env),
        "C25" => value::c25(env),
        _ => return None,
    })
}

pub fn pd(p: &MqttPacket) -> String {
    let s = format!("{:?}", p);
    short(&s, 900)
}
pub fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}..({} bytes)", &s[..k], s.len())
}
pub fn show(r: &Res<MqttPacket>) -> String {
    match r {
        Ok(p) => format!("Ok({})", pd(p)),
        Err(e) => format!("Err({})", short(e, 200)),
    }
}

/// guarded encode of a clone
pub fn enc(c: &mut Ctx, p: &MqttPacket, v: u8) -> Result<Res<Vec<u8>>, String> {
    let q = p.clone();
    c.guard(move || q.encode(v))
}

pub type Dec<'a> = PacketDecoder<Cursor<&'a [u8]>>;

/// decodes one frame from `b` and reports whether exactly `tail` bytes were left over
pub fn dec_tail(c: &mut Ctx, b: &[u8], v: u8, tail: usize) -> Result<(Res<MqttPacket>, bool), String> {
    c.guard(|| {
        let mut d = PacketDecoder::from_stream(Cursor::new(b));
        let r = d.decode_packet(v);
        let ok = rest_is(&mut d.reader, &b[b.len() - tail..]);
        (r, ok)
    })
}
/// the reader delivers exactly `tail` and then nothing, without any limit in the way
pub fn rest_is<R: std::io::Read>(rd: &mut ByteReader<R>, tail: &[u8]) -> bool {
    if tail.is_empty() {
        return !rd.has_more() && rd.read_u8().is_err();
    }
    rd.has_more() && rd.read_len(tail.len() as u32).map_or(false, |x| x == tail) && !rd.has_more() && rd.read_u8().is_err()
}

/// decodes everything with the loop the documentation shows
pub fn dec_all<R: std::io::Read>(d: &mut PacketDecoder<R>, v: u8, max: usize) -> Vec<Res<MqttPacket>> {
    let mut out = vec![];
    while d.has_more() {
        out.push(d.decode_packet(v));
        if out.len() > max {
            break;
        }
    }
    out
}

pub fn bufdec(s: Stream, cap: usize) -> PacketDecoder<Stream> {
    PacketDecoder::from_bufreader(BufReader::with_capacity(cap, s))
}

/// same outcome: equal packets, or both errors (error texts may differ)
pub fn same(a: &Res<MqttPacket>, b: &Res<MqttPacket>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
