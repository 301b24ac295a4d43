//! Byte-level mutation of frames and streams.
use crate::gen::dict;
use crate::refdec::{split, Split};
use crate::refenc::frame;
use crate::rng::Rng;
use crate::spec::varint_padded;

const NASTY: [u8; 24] = [0, 1, 2, 3, 4, 5, 0x0b, 0x10, 0x1f, 0x20, 0x26, 0x30, 0x36, 0x3e, 0x62, 0x7f, 0x80, 0x82, 0xa2, 0xb0, 0xc0, 0xe0, 0xf0, 0xff];

fn byte(r: &mut Rng) -> u8 {
    match r.below(3) {
        0 => *r.pick(&NASTY),
        1 => *r.pick(&dict().nums) as u8,
        _ => r.u8(),
    }
}

/// in-place damage to a body; may change its size
pub fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.us(3) {
        let n = b.len();
        match r.below(9) {
            0 if n > 0 => {
                let i = r.us(n);
                b[i] ^= 1 << r.below(8);
            }
            1 | 2 if n > 0 => {
                let i = r.us(n);
                b[i] = byte(r);
            }
            3 => {
                let i = r.us(n + 1);
                let x = byte(r);
                b.insert(i, x);
            }
            4 if n > 0 => {
                let i = r.us(n);
                b.remove(i);
            }
            5 if n > 0 => b.truncate(r.us(n)),
            6 => {
                for _ in 0..1 + r.us(4) {
                    let x = byte(r);
                    b.push(x);
                }
            }
            7 if n > 1 => {
                let i = r.us(n - 1);
                b[i] = 0;
                b[i + 1] = byte(r);
            }
            8 if n > 1 => {
                let i = r.us(n);
                let j = r.range(i, n - 1).min(i + 20);
                let t: Vec<u8> = b[i..=j].to_vec();
                let at = r.us(n);
                b.splice(at..at, t);
            }
            _ => {}
        }
    }
}

/// a damaged frame that is still exactly one frame
pub fn framed(r: &mut Rng, f: &[u8]) -> Vec<u8> {
    let (h, _) = match split(f) {
        Split::Frame(h, l) => (h, l),
        _ => panic!("harness: frame expected"),
    };
    let mut first = f[0];
    let mut body = f[h..].to_vec();
    if r.pct(8) {
        first = if r.bool() { first ^ (1 << r.below(8)) } else { r.u8() };
    }
    if r.pct(95) {
        damage(r, &mut body);
    }
    if r.pct(4) && body.len() < 2_000_000 {
        // a non-minimal remaining length
        let w = crate::spec::varint(body.len() as u32).len();
        let w = r.range(w, 4);
        let mut o = vec![first];
        o.extend(varint_padded(body.len() as u32, w));
        o.extend_from_slice(&body);
        return o;
    }
    frame(first, &body)
}

/// arbitrary damage, header included
pub fn raw(r: &mut Rng, f: &[u8]) -> Vec<u8> {
    let mut b = f.to_vec();
    damage(r, &mut b);
    b
}
