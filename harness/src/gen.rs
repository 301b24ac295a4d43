//! Packet generators. `legal*`: values every MQTT peer must accept. `hostile`: any value the types allow.
use crate::conv::{add_user, PList, RefProps};
use crate::refdec::{odd_filter, odd_topic, suspicious};
use crate::rng::Rng;
use crate::spec::*;
use mqtt_packet_3_5::*;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::OnceLock;

/// Constants found in the source under test: hints for values, lengths and counts worth trying,
/// in the manner of a fuzzing dictionary. They never influence a verdict.
pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<String>,
}

static D: OnceLock<Dict> = OnceLock::new();
pub fn dict() -> &'static Dict {
    D.get_or_init(build_dict)
}
impl Dict {
    pub fn to_text(&self) -> String {
        let mut o = String::new();
        for n in &self.nums {
            o.push_str(&format!("{}\n", n));
        }
        for s in &self.strs {
            o.push_str(&format!("={}\n", s.escape_default()));
        }
        o
    }
}
/// the dictionary of another build of this program, for one that cannot read the source itself
pub fn set_dict(t: &str) {
    let _ = D.set(Dict {
        nums: t.lines().filter_map(|l| l.parse().ok()).collect(),
        strs: t.lines().filter_map(|l| l.strip_prefix('=').map(unescape)).collect(),
    });
}

static SMALL: AtomicBool = AtomicBool::new(false);
/// small values only and no dictionary: what an interpreter can cope with
pub fn small() -> bool {
    cfg!(miri) || SMALL.load(Relaxed)
}
pub fn set_small() {
    SMALL.store(true, Relaxed);
}

fn build_dict() -> Dict {
    let mut nums: Vec<u64> = vec![];
    let mut strs: Vec<String> = vec![];
    if !small() {
        let mut files = vec![];
        fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
            if let Ok(rd) = std::fs::read_dir(d) {
                for e in rd.flatten() {
                    let p = e.path();
                    if p.is_dir() {
                        walk(&p, out)
                    } else if p.extension().map_or(false, |x| x == "rs") {
                        out.push(p)
                    }
                }
            }
        }
        walk(std::path::Path::new("/repo/src"), &mut files);
        files.sort();
        for f in files {
            let t = std::fs::read_to_string(f).unwrap_or_default();
            for line in t.lines() {
                let l = line.trim_start();
                if l.starts_with("//") {
                    continue;
                }
                scan_line(l, &mut nums, &mut strs);
            }
        }
    }
    nums.sort();
    nums.dedup();
    // neighbours and simple combinations
    let base = nums.clone();
    for n in base {
        for d in [n.wrapping_sub(1), n + 1, n << 8 | n & 0xff] {
            nums.push(d);
        }
    }
    nums.retain(|n| *n <= u32::MAX as u64);
    nums.sort();
    nums.dedup();
    strs.sort();
    strs.dedup();
    strs.truncate(400);
    if nums.is_empty() {
        nums = vec![0, 1, 2, 127, 128, 255];
    }
    if strs.is_empty() {
        strs = vec!["MQTT".into()];
    }
    Dict { nums, strs }
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('0') => o.push('\0'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

fn scan_line(l: &str, nums: &mut Vec<u64>, strs: &mut Vec<String>) {
    let b = l.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'"' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b'"' {
                if b[j] == b'\\' {
                    j += 1;
                }
                j += 1;
            }
            if j <= b.len() {
                if let Some(s) = l.get(i + 1..j.min(l.len())) {
                    let s = unescape(s);
                    if s.len() <= 40 && !s.is_empty() && !s.contains("{") && s.split(' ').count() <= 3 {
                        strs.push(s);
                    }
                }
            }
            i = j + 1;
            continue;
        }
        // characters; lifetimes have no closing mark nearby
        if c == b'\'' {
            let rest = &l[i + 1..];
            let end = rest.char_indices().skip(1).take(10).find(|x| x.1 == '\'').map(|x| x.0);
            if let Some(e) = end {
                let s = unescape(&rest[..e]);
                if s.chars().count() == 1 {
                    if (s.chars().next().unwrap() as u32) < 128 {
                        nums.push(s.as_bytes()[0] as u64);
                    }
                    strs.push(s);
                    i += e + 2;
                    continue;
                }
            }
        }
        let prev_word = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if c.is_ascii_digit() && !prev_word {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            let mut tok: String = l[i..j].chars().filter(|c| *c != '_').collect();
            for suf in ["usize", "u128", "u64", "u32", "u16", "u8", "i64", "i32", "isize"] {
                if tok.len() > suf.len() && tok.ends_with(suf) {
                    tok.truncate(tok.len() - suf.len());
                }
            }
            let v = if let Some(h) = tok.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok()
            } else if let Some(h) = tok.strip_prefix("0b") {
                u64::from_str_radix(h, 2).ok()
            } else if let Some(h) = tok.strip_prefix("0o") {
                u64::from_str_radix(h, 8).ok()
            } else {
                tok.parse().ok()
            };
            if let Some(v) = v {
                nums.push(v);
                // a shift amount may stand for a power of two
                if v < 32 {
                    nums.push(1 << v);
                }
            }
            i = j;
            continue;
        }
        i += 1;
    }
}

const E16: [u16; 20] = [0, 1, 2, 3, 9, 10, 13, 127, 128, 129, 255, 256, 257, 16383, 16384, 32767, 32768, 65533, 65534, 65535];

pub fn u16v(r: &mut Rng) -> u16 {
    match r.below(100) {
        0..=39 => r.next() as u16,
        40..=64 => *r.pick(&E16),
        65..=84 => *r.pick(&dict().nums) as u16,
        _ => r.below(300) as u16,
    }
}
pub fn u16nz(r: &mut Rng) -> u16 {
    u16v(r).max(1)
}
pub fn u32v(r: &mut Rng) -> u32 {
    match r.below(100) {
        0..=29 => r.next() as u32,
        30..=49 => *r.pick(&dict().nums) as u32,
        50..=64 => u16v(r) as u32,
        65..=84 => {
            let p = 1u64 << r.below(33);
            (p.wrapping_add(r.below(5)).wrapping_sub(2)) as u32
        }
        85..=89 => u32::MAX - r.below(3) as u32,
        90..=94 => VARINT_MAX.wrapping_add(r.below(5) as u32).wrapping_sub(2),
        _ => r.below(1000) as u32,
    }
}
/// 1..=268435455
pub fn subid(r: &mut Rng) -> u32 {
    let v = match r.below(10) {
        0..=2 => *r.pick(&[1u32, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435454, 65535, 65536]),
        3..=5 => u32v(r),
        6..=7 => r.below(1 << 28) as u32,
        _ => {
            let k = r.range(1, 28);
            r.below(1 << k) as u32
        }
    };
    v.clamp(1, VARINT_MAX)
}

/// a byte length for a text or binary field
pub fn flen(r: &mut Rng) -> usize {
    if small() {
        // the interpreter is slow
        return if r.pct(95) { r.us(9) } else { r.us(140) };
    }
    match r.below(1000) {
        0..=599 => r.us(13),
        600..=799 => r.range(13, 64),
        800..=879 => (*r.pick(&dict().nums)).min(70000).min(65535) as usize,
        880..=939 => r.range(65, 300),
        940..=969 => r.range(126, 130),
        970..=989 => r.range(300, 2000),
        990..=996 => r.range(16380, 16390),
        997..=998 => r.range(8180, 8200),
        _ => r.range(65530, 65535),
    }
}

const SPECIAL: [&str; 26] = [
    "a", "/", "//", "a/b", "a//b", "/a", "a/", "$SYS/x", "$", "MQTT", "MQIsdp", "\u{feff}", "\u{feff}abc", "é", "漢字", "😀", "a b", " ",
    "\u{2028}", "\"quoted\"", "\\", "0", "null", "\u{a0}", "x", "topic",
];

pub fn clean_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(10) {
            0..=5 => char::from(32 + r.below(95) as u8),
            6 => char::from_u32(0xa0 + r.below(0x700) as u32).unwrap_or('x'),
            7 => char::from_u32(0x800 + r.below(0xf000) as u32).unwrap_or('x'),
            8 => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap_or('x'),
            _ => *r.pick(&['/', '.', '-', '_', '\u{feff}', '$', '%', ' ', 'A']),
        };
        let mut b = [0; 4];
        if !suspicious(c.encode_utf8(&mut b)) {
            return c;
        }
    }
}

/// legal text of exactly `n` bytes
const RICH: [&str; 3] = [
    "c:\\a/b\\\\x.;|<>\"'`~!@$%^&*()[]{}=?,-_ Zz09",
    "\\\u{e9}\u{6f22}\u{1f600}\u{131}\u{130}\u{df}e\u{301}/\u{c0}: \u{a0}~",
    "/%HOME%\\$x\\..\\./ iIzZ\u{fb01}",
];
pub fn text_n(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    let uni = r.pct(40);
    while s.len() < n {
        if s.len() >= 64 && n - s.len() > 64 {
            // repeat what is there: long strings stay cheap
            let k = s.len().min(n - s.len());
            let mut k2 = k;
            while !s.is_char_boundary(k2) {
                k2 -= 1;
            }
            let t = s[..k2].to_string();
            s.push_str(&t);
            continue;
        }
        let c = if uni { clean_char(r) } else { char::from(b'a' + r.below(26) as u8) };
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push('z');
        }
    }
    s
}

pub fn text(r: &mut Rng) -> String {
    // few cases are run then, so each should hold whatever could be treated specially
    if small() && r.pct(60) {
        return r.pick(&RICH).to_string();
    }
    match r.below(20) {
        0 => r.pick(&SPECIAL).to_string(),
        1 => {
            let s = r.pick(&dict().strs).clone();
            if suspicious(&s) {
                return "d".into();
            }
            // on its own, at either end, or within
            let k = r.below(6);
            if k < 3 {
                return s;
            }
            let n = r.us(12);
            let o = text_n(r, n);
            match k {
                3 => s + &o,
                4 => o + &s,
                _ => format!("{}{}x", o, s),
            }
        }
        _ => {
            let n = flen(r);
            text_n(r, n)
        }
    }
}
pub fn topic(r: &mut Rng) -> String {
    for _ in 0..20 {
        let t = text(r);
        let t: String = if t.contains('+') || t.contains('#') { t.replace(['+', '#'], "t") } else { t };
        if !odd_topic(&t) {
            return t;
        }
    }
    "t".into()
}
pub fn filter(r: &mut Rng) -> String {
    if r.pct(25) {
        return r.pick(&["#", "+", "a/#", "+/b", "a/+/c", "/+", "+/+/#", "/#", "$SYS/#", "a/b/c", "$share/g/t", "$share/group/a/+/#", "$share/g//"]).to_string();
    }
    if r.pct(5) {
        let (a, b) = (r.us(6) + 1, r.us(9) + 1);
        return format!("$share/{}/{}", text_n(r, a).replace(['/', '+', '#'], "x"), text_n(r, b).replace(['+', '#'], "x"));
    }
    for _ in 0..20 {
        let t = text(r);
        if !odd_filter(&t) {
            return t;
        }
    }
    "f".into()
}
/// any UTF-8 (control characters included): data that is binary in the standard
pub fn bintext(r: &mut Rng) -> String {
    if r.pct(30) {
        let n = flen(r).min(4000);
        return (0..n)
            .map(|_| match r.below(4) {
                0 => char::from(r.below(128) as u8),
                1 => '\0',
                _ => char::from_u32(r.below(0x800) as u32).unwrap_or('q'),
            })
            .collect::<String>()
            .chars()
            .take(16000)
            .collect();
    }
    text(r)
}
pub fn binary_n(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    if n > 4096 {
        let seed: Vec<u8> = (0..97).map(|_| r.u8()).collect();
        while v.len() < n {
            let k = seed.len().min(n - v.len());
            v.extend_from_slice(&seed[..k]);
        }
    } else {
        while v.len() < n {
            v.push(match r.below(8) {
                0 => 0,
                1 => 0xff,
                2 => 0x26,
                _ => r.u8(),
            });
        }
    }
    v
}

pub fn payload(r: &mut Rng) -> Vec<u8> {
    if small() {
        let n = flen(r);
        return binary_n(r, n);
    }
    match r.below(1000) {
        0..=149 => vec![],
        150..=299 => {
            // bytes that are themselves a frame: a reader that loses its place will find it
            let mut v = vec![0xc0, 0x00];
            if r.bool() {
                v.extend_from_slice(&[0x40, 0x02, r.u8(), r.u8()]);
            }
            if r.bool() {
                v.extend_from_slice(&[0x30, 0x03, 0, 1, b'a']);
            }
            v
        }
        300..=984 => {
            let n = flen(r).min(16384);
            binary_n(r, n)
        }
        985..=998 => {
            let n = r.range(8000, 9000);
            binary_n(r, n)
        }
        _ => {
            let n = r.range(60_000, 140_000);
            binary_n(r, n)
        }
    }
}

/// user properties: (key, value) list in order
pub fn user_list(r: &mut Rng) -> Vec<(String, String)> {
    let n = match r.below(100) {
        0..=34 => 0,
        35..=59 => 1,
        60..=94 => r.range(2, 6),
        95..=98 => r.range(7, 40),
        _ if small() => 7,
        _ => r.range(41, 200),
    };
    let nk = r.range(1, n.max(1));
    let keys: Vec<String> = (0..nk).map(|i| if n > 6 { format!("k{}", i) } else { text(r) }).collect();
    (0..n).map(|i| (r.pick(&keys).clone(), if n > 6 { format!("v{}", i) } else { text(r) })).collect()
}
pub fn user_map(r: &mut Rng) -> UserProperties {
    let mut u = UserProperties::new();
    for (k, v) in user_list(r) {
        add_user(&mut u, &k, &v);
    }
    u
}

/// a legal value for a property
pub fn prop_val(r: &mut Rng, _place: Place, id: u8) -> Val {
    match wire_type(id).unwrap() {
        WT::Bool => Val::Bool(r.bool() as u8),
        WT::U8 => Val::U8(r.below(2) as u8),
        WT::U16 => Val::U16(match id {
            0x21 | 0x23 => u16nz(r),
            _ => u16v(r),
        }),
        WT::U32 => Val::U32(if id == 0x27 { u32v(r).max(1) } else { u32v(r) }),
        WT::Var => Val::Var(subid(r)),
        WT::Str => Val::Str(if id == 0x08 { topic(r) } else { text(r) }),
        WT::TextBin => Val::Bin(bintext(r).into_bytes()),
        WT::Bin => {
            let mut n = flen(r);
            // the crate's types cannot tell empty correlation data from absent
            n = n.max(1);
            Val::Bin(binary_n(r, n))
        }
        WT::Pair => Val::Pair(text(r), text(r)),
    }
}

/// single-valued optional properties of a place (everything but user properties)
pub fn single_ids(place: Place) -> Vec<u8> {
    allowed(place).iter().copied().filter(|i| *i != 0x26).collect()
}

/// property list for the given subset of allowed(place)
pub fn props_mask(r: &mut Rng, place: Place, mask: u32) -> PList {
    let mut l = vec![];
    for (i, id) in allowed(place).iter().enumerate() {
        if mask >> i & 1 == 0 {
            continue;
        }
        if *id == 0x26 {
            let mut n = 0;
            for (k, v) in user_list(r) {
                l.push((0x26, Val::Pair(k, v)));
                n += 1;
            }
            if n == 0 {
                l.push((0x26, Val::Pair(text(r), text(r))));
            }
        } else if *id == 0x0B && place == Place::Publish {
            for _ in 0..r.range(1, 4) {
                l.push((0x0B, Val::Var(subid(r))));
            }
        } else {
            l.push((*id, prop_val(r, place, *id)));
        }
    }
    // authentication data is only legal together with a method
    let has = |l: &PList, id: u8| l.iter().any(|x| x.0 == id);
    if (has(&l, 0x16) || place == Place::Auth) && !has(&l, 0x15) {
        l.push((0x15, Val::Str(text(r))));
    }
    l
}

pub fn mask_for(r: &mut Rng, place: Place) -> u32 {
    let n = allowed(place).len() as u64;
    match r.below(10) {
        0 => (1 << n) - 1,
        1 => 0,
        2..=3 => 1 << r.below(n),
        4..=6 => (r.below(1 << n) & r.below(1 << n)) as u32,
        _ => r.below(1 << n) as u32,
    }
}

pub fn opt_props<T: RefProps>(r: &mut Rng, place: Place, v: u8) -> Option<T> {
    // at v3/v4 sometimes carry content that must not leak onto the wire
    if (v != 5 && r.pct(70)) || r.pct(25) {
        return None;
    }
    let m = mask_for(r, place);
    Some(T::from_list(&props_mask(r, place, m)))
}

pub fn puback_code(r: &mut Rng) -> PubackPubrecCode {
    r.pick(PUBACK_CODES).1.clone()
}
pub fn pubrel_code(r: &mut Rng) -> PubcompPubrelCode {
    r.pick(PUBREL_CODES).1.clone()
}

pub fn types_for(v: u8) -> u8 {
    if v == 5 { 15 } else { 14 }
}

pub fn wrap_conf(t: u8, k: ConfirmationPacket) -> MqttPacket {
    match t {
        4 => MqttPacket::Puback(k),
        5 => MqttPacket::Pubrec(k),
        6 => MqttPacket::Pubrel(k),
        _ => MqttPacket::Pubcomp(k),
    }
}
pub const CONF_CMD: [PacketType; 4] = [PacketType::Puback, PacketType::Pubrec, PacketType::Pubrel, PacketType::Pubcomp];

fn count(r: &mut Rng) -> usize {
    match r.below(100) {
        0..=49 => 1,
        50..=89 => r.range(2, 6),
        90..=97 => r.range(7, 40),
        _ if small() => 9,
        _ => r.range(41, 300),
    }
}

/// a legal packet of type `t` for version `v`. At v3/v4 it may hold v5-only content, which must not matter.
pub fn legal(r: &mut Rng, v: u8, t: u8) -> MqttPacket {
    let stray = v != 5 && r.pct(25);
    match t {
        1 => {
            let (name, pv) = (if v == 3 { Protocol::MQIsdp } else { Protocol::Mqtt }, v);
            let clean = r.bool();
            let mut client_id = text(r);
            if client_id.is_empty() && (v == 3 || !clean) {
                client_id = "c".into();
            }
            let user_name = if r.bool() { Some(text(r)) } else { None };
            let password = if user_name.is_some() && r.bool() { Some(bintext(r)) } else { None };
            let will = if r.bool() {
                Some(LastWill {
                    topic: Some(topic(r)),
                    payload: if r.pct(10) { None } else { Some(bintext(r)) },
                    qos: r.below(3) as u8,
                    retain: r.bool(),
                    properties: opt_props(r, Place::Will, v),
                })
            } else {
                None
            };
            MqttPacket::Connect(ConnectPacket {
                client_id,
                protocol_version: pv,
                protocol_id: name,
                clean_session: clean,
                keep_alive: u16v(r),
                user_name,
                password,
                will,
                properties: opt_props(r, Place::Connect, v),
            })
        }
        2 => {
            let code = if v == 5 { *r.pick(CONNACK_CODES_V5) } else { r.below(6) as u8 };
            let code = if r.bool() { 0 } else { code };
            let c = ConnackPacket {
                return_code: if v != 5 || r.pct(10) { Some(code) } else { None },
                reason_code: if v == 5 || stray { Some(code) } else { None },
                session_present: code == 0 && r.bool(),
                properties: opt_props(r, Place::Connack, v),
            };
            MqttPacket::Connack(c)
        }
        3 => {
            let qos = r.below(3) as u8;
            let mut properties: Option<PublishProperties> = opt_props(r, Place::Publish, v);
            let mut tp = topic(r);
            if v == 5 && r.pct(6) {
                // topic replaced by an alias
                let p = properties.get_or_insert_with(|| PublishProperties::from_list(&[]));
                p.topic_alias = Some(u16nz(r));
                tp = String::new();
            }
            MqttPacket::Publish(PublishPacket {
                dup: qos > 0 && r.bool(),
                qos,
                retain: r.bool(),
                topic: tp,
                message_id: if qos > 0 { Some(u16nz(r)) } else { None },
                payload: payload(r),
                properties,
            })
        }
        4..=7 => {
            let mut k = ConfirmationPacket {
                cmd: CONF_CMD[t as usize - 4],
                message_id: u16nz(r),
                puback_reason_code: None,
                pubcomp_reason_code: None,
                properties: opt_props(r, PLACES[t as usize], v),
            };
            if v == 5 || stray {
                if t <= 5 {
                    k.puback_reason_code = Some(if r.pct(40) { PubackPubrecCode::Success } else { puback_code(r) });
                } else {
                    k.pubcomp_reason_code = Some(if r.pct(40) { PubcompPubrelCode::Success } else { pubrel_code(r) });
                }
            }
            wrap_conf(t, k)
        }
        8 => {
            let n = count(r);
            let subscriptions = (0..n)
                .map(|i| {
                    let topic = if n > 8 { format!("f/{}", i) } else { filter(r) };
                    Subscription {
                        // (a shared subscription must not set this)
                        nl: !topic.starts_with("$share") && (v == 5 || stray) && r.bool(),
                        topic,
                        qos: r.pick(QOS).1.clone(),
                        rap: (v == 5 || stray) && r.bool(),
                        rh: if v == 5 || stray { Some(r.below(3) as u8) } else { None },
                    }
                })
                .collect();
            MqttPacket::Subscribe(SubscribePacket { qos: 1, subscriptions, properties: opt_props(r, Place::Subscribe, v), message_id: u16nz(r) })
        }
        9 => {
            let n = count(r);
            MqttPacket::Suback(SubackPacket {
                reason_code: None,
                message_id: u16nz(r),
                properties: opt_props(r, Place::Suback, v),
                granted_reason_codes: if v == 5 || stray { (0..n).map(|_| r.pick(SUBACK_CODES).1.clone()).collect() } else { vec![] },
                granted: if v != 5 || r.pct(10) { (0..n).map(|_| r.pick(GRANTED).1.clone()).collect() } else { vec![] },
            })
        }
        10 => {
            let n = count(r);
            MqttPacket::Unsubscribe(UnsubscribePacket {
                qos: 1,
                message_id: u16nz(r),
                properties: opt_props(r, Place::Unsubscribe, v),
                unsubscriptions: (0..n).map(|i| if n > 8 { format!("f/{}", i) } else { filter(r) }).collect(),
            })
        }
        11 => {
            let n = count(r);
            MqttPacket::Unsuback(UnsubackPacket {
                message_id: u16nz(r),
                granted: if v == 5 || stray { (0..n).map(|_| r.pick(UNSUBACK_CODES).1.clone()).collect() } else { vec![] },
                properties: opt_props(r, Place::Unsuback, v),
            })
        }
        12 => MqttPacket::Pingreq,
        13 => MqttPacket::Pingresp,
        14 => MqttPacket::Disconnect(DisconnectPacket {
            reason_code: if (v == 5 || stray) && r.pct(85) { Some(if r.pct(30) { DisconnectCode::NormalDisconnection } else { r.pick(DISCONNECT_CODES).1.clone() }) } else { None },
            properties: opt_props(r, Place::Disconnect, v),
        }),
        15 => {
            let mut properties: Option<AuthProperties> = opt_props(r, Place::Auth, 5);
            let mut reason_code = r.pick(AUTH_CODES).1.clone();
            if properties.is_none() {
                // without a method only the short form "Success" is legal
                reason_code = AuthCode::Success;
                if r.bool() {
                    properties = Some(AuthProperties::from_list(&[(0x15, Val::Str("m".into()))]));
                }
            }
            MqttPacket::Auth(AuthPacket { reason_code, properties })
        }
        _ => unreachable!(),
    }
}

pub fn version(r: &mut Rng) -> u8 {
    match r.below(10) {
        0..=5 => 5,
        6..=7 => 4,
        _ => 3,
    }
}
pub fn any_legal(r: &mut Rng) -> (MqttPacket, u8) {
    let v = version(r);
    // weight towards the types with structure
    let t = match r.below(40) {
        0..=7 => 1,
        8..=12 => 2,
        13..=20 => 3,
        21..=26 => 4 + r.below(4) as u8,
        27..=29 => 8,
        30..=31 => 9,
        32..=33 => 10,
        34..=35 => 11,
        36 => 12 + r.below(2) as u8,
        37..=38 => 14,
        _ => {
            if v == 5 { 15 } else { 14 }
        }
    };
    (legal(r, v, t), v)
}

// ------------------------------------------------------------------ hostile values

fn wild_text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => "\0".into(),
        2 => "a\u{1}b\u{7f}".into(),
        3 => "a/#/b".into(),
        4 => "x".repeat(65536),
        5 => "é".repeat(32768),
        6 => "y".repeat(65535),
        7 => "z".repeat(r.range(65536, 140_000)),
        8 => "w".repeat(65536 + *r.pick(&[1usize, 2, 4, 255, 256, 65535])),
        9 => "+".into(),
        _ => text(r),
    }
}
fn wild_user(r: &mut Rng) -> UserProperties {
    let mut u = user_map(r);
    match r.below(5) {
        0 => {
            u.insert(text(r), vec![]);
        }
        1 => {
            u.insert(wild_text(r), vec![wild_text(r), wild_text(r)]);
        }
        2 => u = std::iter::once((text(r), vec![])).collect(),
        _ => {}
    }
    u
}
fn wild_opt(r: &mut Rng) -> Option<String> {
    match r.below(3) {
        0 => None,
        1 => Some(wild_text(r)),
        _ => Some(text(r)),
    }
}
fn wild_bin(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => vec![],
        1 => vec![7; 65535],
        2 => vec![7; 65536],
        3 => vec![9; 65536 + r.us(70000)],
        _ => binary_n(r, 5),
    }
}

/// any packet value the public types allow, biased to the edges
pub fn hostile(r: &mut Rng) -> (MqttPacket, u8) {
    let v = version(r);
    let t = 1 + r.below(15) as u8;
    let gv = if r.pct(80) { v } else { version(r) };
    let mut p = legal(r, gv, if t == 15 { 15 } else { t });
    let k = 1 + r.us(3);
    for _ in 0..k {
        spoil(r, &mut p);
    }
    (p, v)
}

fn wild_mid(r: &mut Rng) -> u16 {
    if r.bool() { 0 } else { u16v(r) }
}

fn spoil_conf_props(r: &mut Rng, p: &mut Option<ConfirmationProperties>) {
    *p = match r.below(4) {
        0 => None,
        1 => Some(ConfirmationProperties { reason_string: None, user_properties: UserProperties::new() }),
        _ => Some(ConfirmationProperties { reason_string: wild_opt(r), user_properties: wild_user(r) }),
    };
}

pub fn spoil(r: &mut Rng, p: &mut MqttPacket) {
    match p {
        MqttPacket::Connect(c) => match r.below(12) {
            0 => c.client_id = wild_text(r),
            1 => c.protocol_version = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 131, 132, 133, 255]),
            2 => c.protocol_id = if r.bool() { Protocol::Mqtt } else { Protocol::MQIsdp },
            3 => c.user_name = wild_opt(r),
            4 => c.password = wild_opt(r),
            5 => {
                c.will = Some(LastWill { topic: wild_opt(r), payload: wild_opt(r), qos: r.below(6) as u8, retain: r.bool(), properties: None })
            }
            6 => {
                if let Some(w) = c.will.as_mut() {
                    w.qos = r.u8();
                }
            }
            7 => {
                if let Some(w) = c.will.as_mut() {
                    w.topic = wild_opt(r);
                }
            }
            8 => {
                if let Some(w) = c.will.as_mut() {
                    w.properties = Some(WillProperties {
                        payload_format_indicator: r.bool(),
                        message_expiry_interval: Some(u32v(r)),
                        content_type: wild_opt(r),
                        response_topic: wild_opt(r),
                        correlation_data: wild_bin(r),
                        will_delay_interval: u32v(r),
                        user_properties: wild_user(r),
                    });
                }
            }
            9 => c.clean_session = !c.clean_session,
            _ => {
                c.properties = Some(ConnectProperties {
                    session_expiry_interval: u32v(r),
                    receive_maximum: u16v(r),
                    maximum_packet_size: if r.bool() { Some(0) } else { None },
                    topic_alias_maximum: u16v(r),
                    request_response_information: r.bool(),
                    request_problem_information: r.bool(),
                    user_properties: wild_user(r),
                    authentication_method: wild_opt(r),
                    authentication_data: wild_opt(r),
                })
            }
        },
        MqttPacket::Connack(c) => match r.below(6) {
            0 => c.return_code = if r.bool() { None } else { Some(r.u8()) },
            1 => c.reason_code = if r.bool() { None } else { Some(r.u8()) },
            2 => c.session_present = true,
            3 => c.properties = Some(ConnackProperties::default()),
            _ => {
                c.properties = Some(ConnackProperties {
                    session_expiry_interval: u32v(r),
                    assigned_client_identifier: wild_opt(r),
                    server_keep_alive: Some(u16v(r)),
                    authentication_method: wild_opt(r),
                    authentication_data: wild_opt(r),
                    response_information: wild_opt(r),
                    server_reference: wild_opt(r),
                    reason_string: wild_opt(r),
                    receive_maximum: u16v(r),
                    topic_alias_maximum: u16v(r),
                    maximum_qos: r.u8(),
                    retain_available: r.bool(),
                    user_properties: wild_user(r),
                    maximum_packet_size: if r.bool() { Some(0) } else { None },
                    wildcard_subscription_available: r.bool(),
                    subscription_identifiers_available: r.bool(),
                    shared_subscription_available: r.bool(),
                    is_default: r.bool(),
                })
            }
        },
        MqttPacket::Publish(c) => match r.below(8) {
            0 => c.qos = r.u8(),
            1 => c.qos = 3 + r.below(2) as u8,
            2 => c.topic = wild_text(r),
            3 => c.message_id = if r.bool() { None } else { Some(wild_mid(r)) },
            4 => c.dup = true,
            5 => {
                let n = r.range(0, 200_000);
                c.payload = vec![r.u8(); n];
            }
            _ => {
                c.properties = Some(PublishProperties {
                    payload_format_indicator: r.bool(),
                    message_expiry_interval: Some(u32v(r)),
                    content_type: wild_opt(r),
                    response_topic: wild_opt(r),
                    correlation_data: wild_bin(r),
                    subscription_identifiers: (0..r.us(4)).map(|_| u32v(r)).collect(),
                    topic_alias: if r.bool() { Some(wild_mid(r)) } else { None },
                    user_properties: wild_user(r),
                })
            }
        },
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => match r.below(5) {
            0 => {
                c.cmd = *r.pick(&[
                    PacketType::Reserved, PacketType::Connect, PacketType::Connack, PacketType::Subscribe, PacketType::Suback,
                    PacketType::Publish, PacketType::Puback, PacketType::Pubrec, PacketType::Pubrel, PacketType::Pubcomp,
                    PacketType::Unsubscribe, PacketType::Unsuback, PacketType::Pingreq, PacketType::Pingresp,
                    PacketType::Disconnect, PacketType::Auth,
                ])
            }
            1 => c.puback_reason_code = if r.bool() { None } else { Some(puback_code(r)) },
            2 => c.pubcomp_reason_code = if r.bool() { None } else { Some(pubrel_code(r)) },
            3 => c.message_id = wild_mid(r),
            _ => spoil_conf_props(r, &mut c.properties),
        },
        MqttPacket::Subscribe(c) => match r.below(7) {
            0 => c.qos = r.u8(),
            1 => c.subscriptions.clear(),
            2 => c.message_id = wild_mid(r),
            3 => {
                c.properties = Some(SubscribeProperties { subscription_identifier: u32v(r), user_properties: wild_user(r) });
            }
            4 => {
                let n = c.subscriptions.len();
                if n > 0 {
                    let i = r.us(n);
                    c.subscriptions[i].topic = wild_text(r);
                }
            }
            5 => {
                let n = c.subscriptions.len();
                if n > 0 {
                    let i = r.us(n);
                    c.subscriptions[i].rh = if r.bool() { None } else { Some(r.u8()) };
                }
            }
            _ => {
                let s = Subscription { topic: wild_text(r), qos: QoS::QoS2, nl: true, rap: true, rh: Some(3) };
                c.subscriptions.push(s)
            }
        },
        MqttPacket::Suback(c) => match r.below(5) {
            0 => c.granted.clear(),
            1 => c.granted_reason_codes.clear(),
            2 => c.reason_code = Some(r.u8()),
            3 => c.message_id = wild_mid(r),
            _ => spoil_conf_props(r, &mut c.properties),
        },
        MqttPacket::Unsubscribe(c) => match r.below(5) {
            0 => c.unsubscriptions.clear(),
            1 => c.unsubscriptions.push(wild_text(r)),
            2 => c.qos = r.u8(),
            3 => c.message_id = wild_mid(r),
            _ => c.properties = Some(UnsubscribeProperties { user_properties: wild_user(r) }),
        },
        MqttPacket::Unsuback(c) => match r.below(3) {
            0 => c.granted.clear(),
            1 => c.message_id = wild_mid(r),
            _ => spoil_conf_props(r, &mut c.properties),
        },
        MqttPacket::Pingreq | MqttPacket::Pingresp => {}
        MqttPacket::Disconnect(c) => match r.below(2) {
            0 => c.reason_code = if r.bool() { None } else { Some(r.pick(DISCONNECT_CODES).1.clone()) },
            _ => {
                c.properties = Some(DisconnectProperties {
                    session_expiry_interval: if r.bool() { Some(u32v(r)) } else { None },
                    server_reference: wild_opt(r),
                    reason_string: wild_opt(r),
                    user_properties: wild_user(r),
                })
            }
        },
        MqttPacket::Auth(c) => match r.below(2) {
            0 => c.properties = None,
            _ => {
                c.properties = Some(AuthProperties {
                    authentication_method: wild_text(r),
                    authentication_data: wild_opt(r),
                    reason_string: wild_opt(r),
                    user_properties: wild_user(r),
                })
            }
        },
    }
}
