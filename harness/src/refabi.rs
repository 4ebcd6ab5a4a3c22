//! A reference model of the SVM ABI, written from the table in svm-abi-layout.

use svm_sdk_types::value::{Composite, Primitive, Value};
use svm_sdk_types::{Address, Amount};

use crate::pbt::Ctx;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    None,
    Unit,
    Bool(bool),
    I8(i8),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    Amount(u64),
    Addr([u8; 20]),
    Arr(Vec<V>),
}

/// The types of the JSON API, in the order of `prim_of`.
pub const TYPES: [&str; 11] = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "amount", "address"];

fn minimal(x: u64) -> Vec<u8> {
    let b = x.to_be_bytes();
    let skip = b.iter().take(7).take_while(|b| **b == 0).count();
    b[skip..].to_vec()
}

impl V {
    pub fn encode(&self, out: &mut Vec<u8>) {
        let num = |out: &mut Vec<u8>, first: u8, x: u64| {
            let b = minimal(x);
            out.push(first + (((b.len() - 1) as u8) << 4));
            out.extend(b);
        };
        match self {
            V::None => out.push(0x20),
            V::Unit => out.push(0x30),
            V::Bool(b) => out.push(if *b { 0x10 } else { 0x00 }),
            V::Addr(a) => {
                out.push(0x40);
                out.extend_from_slice(a);
            }
            V::Amount(x) => num(out, 0x01, *x),
            V::I8(x) => num(out, 0x02, *x as u8 as u64),
            V::U8(x) => num(out, 0x12, *x as u64),
            V::I16(x) => num(out, 0x22, *x as u16 as u64),
            V::U16(x) => num(out, 0x42, *x as u64),
            V::I32(x) => num(out, 0x03, *x as u32 as u64),
            V::U32(x) => num(out, 0x43, *x as u64),
            V::I64(x) => num(out, 0x04, *x as u64),
            V::U64(x) => num(out, 0x05, *x),
            V::Arr(vs) => {
                let n = vs.len() as u8;
                out.push(if n < 8 { n << 4 | 6 } else { (n - 8) << 4 | 7 });
                for v in vs {
                    v.encode(out);
                }
            }
        }
    }

    pub fn value(&self) -> Value {
        let p = match self {
            V::None => Primitive::None,
            V::Unit => Primitive::Unit,
            V::Bool(x) => Primitive::Bool(*x),
            V::I8(x) => Primitive::I8(*x),
            V::U8(x) => Primitive::U8(*x),
            V::I16(x) => Primitive::I16(*x),
            V::U16(x) => Primitive::U16(*x),
            V::I32(x) => Primitive::I32(*x),
            V::U32(x) => Primitive::U32(*x),
            V::I64(x) => Primitive::I64(*x),
            V::U64(x) => Primitive::U64(*x),
            V::Amount(x) => Primitive::Amount(Amount(*x)),
            V::Addr(a) => Primitive::Address(Address::from(*a)),
            V::Arr(vs) => {
                let mut vec = svm_sdk_std::Vec::with_capacity(vs.len());
                for v in vs {
                    vec.push(v.value());
                }
                return Value::Composite(Composite::Vec(vec));
            }
        };
        Value::Primitive(p)
    }

    pub fn of(v: &Value) -> V {
        match v {
            Value::Primitive(p) => match p {
                Primitive::None => V::None,
                Primitive::Unit => V::Unit,
                Primitive::Bool(x) => V::Bool(*x),
                Primitive::I8(x) => V::I8(*x),
                Primitive::U8(x) => V::U8(*x),
                Primitive::I16(x) => V::I16(*x),
                Primitive::U16(x) => V::U16(*x),
                Primitive::I32(x) => V::I32(*x),
                Primitive::U32(x) => V::U32(*x),
                Primitive::I64(x) => V::I64(*x),
                Primitive::U64(x) => V::U64(*x),
                Primitive::Amount(x) => V::Amount(x.0),
                Primitive::Address(a) => {
                    let mut b = [0; 20];
                    b.copy_from_slice(a.as_slice());
                    V::Addr(b)
                }
            },
            Value::Composite(Composite::Vec(vs)) => V::Arr(vs.as_slice().iter().map(V::of).collect()),
        }
    }

    pub fn json(&self) -> serde_json::Value {
        use serde_json::json;
        match self {
            V::None | V::Unit => json!(null),
            V::Bool(x) => json!(x),
            V::I8(x) => json!(x),
            V::U8(x) => json!(x),
            V::I16(x) => json!(x),
            V::U16(x) => json!(x),
            V::I32(x) => json!(x),
            V::U32(x) => json!(x),
            V::I64(x) => json!(x),
            V::U64(x) => json!(x),
            V::Amount(x) => json!(x),
            V::Addr(a) => json!(upper(a)),
            V::Arr(vs) => vs.iter().map(|v| v.json()).collect(),
        }
    }
}

pub fn upper(b: &[u8]) -> String {
    b.iter().map(|b| format!("{:02X}", b)).collect()
}

pub fn encode_all(vs: &[V]) -> Vec<u8> {
    let mut out = vec![];
    vs.iter().for_each(|v| v.encode(&mut out));
    out
}

/// Decodes one value; `None` if the bytes don't start with one. Wider encodings than necessary
/// are accepted; arrays hold primitives only.
pub fn decode(bytes: &[u8], pos: &mut usize, nested: bool) -> Option<V> {
    let m = *bytes.get(*pos)?;
    *pos += 1;
    if m & 0x80 != 0 {
        return None;
    }
    let hi = (m >> 4) as usize;
    let mut take = |n: usize| -> Option<&[u8]> {
        let s = bytes.get(*pos..*pos + n)?;
        *pos += n;
        Some(s)
    };
    let mut num = |n: usize| -> Option<u64> { Some(take(n)?.iter().fold(0, |a, b| a << 8 | u64::from(*b))) };
    Some(match (m & 0xf, hi) {
        (0, 0) => V::Bool(false),
        (0, 1) => V::Bool(true),
        (0, 2) => V::None,
        (0, 3) => V::Unit,
        (0, 4) => {
            let mut a = [0; 20];
            a.copy_from_slice(take(20)?);
            V::Addr(a)
        }
        (1, _) => V::Amount(num(hi + 1)?),
        (2, 0) => V::I8(num(1)? as i8),
        (2, 1) => V::U8(num(1)? as u8),
        (2, 2) | (2, 3) => V::I16(num(hi - 1)? as i16),
        (2, 4) | (2, 5) => V::U16(num(hi - 3)? as u16),
        (3, 0..=3) => V::I32(num(hi + 1)? as i32),
        (3, _) => V::U32(num(hi - 3)? as u32),
        (4, _) => V::I64(num(hi + 1)? as i64),
        (5, _) => V::U64(num(hi + 1)?),
        (6, n) if !nested => elems(bytes, pos, n)?,
        (7, n) if !nested && n <= 2 => elems(bytes, pos, n + 8)?,
        _ => return None,
    })
}

fn elems(bytes: &[u8], pos: &mut usize, n: usize) -> Option<V> {
    let mut vs = vec![];
    for _ in 0..n {
        vs.push(decode(bytes, pos, true)?);
    }
    Some(V::Arr(vs))
}

/// An integer of `bits` bits near a change of the encoded width, as its unsigned cast.
pub fn int(g: &mut Ctx, bits: u32) -> u64 {
    let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let x = match g.draw(4) {
        0 => {
            let k = 8 * g.draw(u64::from(bits / 8)) as u32;
            (1u64 << k).wrapping_add(g.draw(5)).wrapping_sub(2)
        }
        1 => {
            // negative numbers of small magnitude
            0u64.wrapping_sub(g.int(bits))
        }
        _ => g.int(bits),
    };
    x & mask
}

/// A value of the type TYPES[t].
pub fn prim_of(g: &mut Ctx, t: usize) -> V {
    match t {
        0 => V::Bool(g.flip()),
        1 => V::I8(int(g, 8) as i8),
        2 => V::U8(int(g, 8) as u8),
        3 => V::I16(int(g, 16) as i16),
        4 => V::U16(int(g, 16) as u16),
        5 => V::I32(int(g, 32) as i32),
        6 => V::U32(int(g, 32) as u32),
        7 => V::I64(int(g, 64) as i64),
        8 => V::U64(int(g, 64)),
        9 => V::Amount(int(g, 64)),
        _ => V::Addr(crate::gens::array(g)),
    }
}

pub fn prim(g: &mut Ctx) -> V {
    let t = g.below(TYPES.len());
    prim_of(g, t)
}

/// Any value the ABI can express: also the absent one, unit, and arrays of mixed elements.
pub fn any(g: &mut Ctx) -> V {
    fn elem(g: &mut Ctx) -> V {
        match g.draw(12) {
            0 => V::None,
            1 => V::Unit,
            _ => prim(g),
        }
    }
    if g.one_in(4) {
        let n = g.below(11);
        let same = g.flip();
        let t = g.below(TYPES.len());
        V::Arr((0..n).map(|_| if same { prim_of(g, t) } else { elem(g) }).collect())
    } else {
        elem(g)
    }
}
