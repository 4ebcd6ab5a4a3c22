//! K01-K03: the SDK templates are written with.

use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

use svm_sdk_mock::host::MockHost;
use svm_sdk_mock::storage::{ops, MockStorage};
use svm_sdk_mock::traits::Host;
use svm_sdk_std::{DecDigit, HexDigit, StringBuilder, ToString as Sdk};
use svm_sdk_types::{Address, Amount, LayerId};

use crate::pbt::{fail, Ctx, R};
use crate::refabi::{self, encode_all, V};
use crate::runner::{Property, Suite};
use crate::suites::hex;
use crate::{check, check_eq, gens};

fn aborts<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        crate::runner::take_last_panic();
    })
}

// ---------------------------------------------------------------------------------------------
// K01
// ---------------------------------------------------------------------------------------------

fn vec_history<T: Clone + PartialEq + Debug + 'static>(g: &mut Ctx, make: fn(&mut Ctx) -> T) -> R {
    let cap = g.below(40);
    let mut vec = svm_sdk_std::Vec::<T>::with_capacity(cap);
    let mut model: Vec<T> = vec![];
    let mut trace = vec![format!("with_capacity({})", cap)];
    let steps = g.below(60);
    let (mut pushes, mut refused) = (0, 0);
    for _ in 0..steps {
        match g.weighted(&[8, 4, 1, 2, 2]) {
            0 => {
                let x = make(g);
                trace.push(format!("push {:?}", x));
                let r = aborts(|| vec.push(x.clone()));
                if model.len() < cap {
                    check!(r.is_ok(), "push-abort", "{:?}: pushing within the capacity aborts", trace);
                    model.push(x);
                    pushes += 1;
                } else {
                    check!(r.is_err(), "push-beyond", "{:?}: pushing beyond the capacity succeeds", trace);
                    refused += 1;
                }
            }
            1 => {
                trace.push("pop".into());
                let got = aborts(|| vec.pop()).ok();
                let want = model.pop();
                check!(got == want, "pop", "{:?} gives {:?} instead of {:?}", trace, got, want);
                refused += got.is_none() as i32;
            }
            2 => {
                trace.push("clear".into());
                vec.clear();
                model.clear();
            }
            3 => {
                if !model.is_empty() {
                    let i = g.below(model.len());
                    let x = make(g);
                    trace.push(format!("[{}] = {:?}", i, x));
                    if g.flip() {
                        vec.as_mut()[i] = x.clone();
                    } else {
                        vec[i] = x.clone();
                    }
                    model[i] = x;
                }
            }
            _ => {
                trace.push("iter".into());
                let got: Vec<T> = vec.iter().cloned().collect();
                check!(got == model, "iter", "{:?} gives {:?} instead of {:?}", trace, got, model);
                let got: Vec<T> = vec.iter_mut().cloned().collect();
                check!(got == model, "iter", "{:?} gives {:?} instead of {:?}", trace, got, model);
            }
        }
        check!(vec.as_slice() == &model[..], "contents", "{:?}: {:?} instead of {:?}", trace, vec.as_slice(), model);
        check!(
            vec.len() == model.len() && vec.is_empty() == model.is_empty() && vec.capacity() == cap,
            "length",
            "{:?}: {} of {} instead of {} of {}",
            trace,
            vec.len(),
            vec.capacity(),
            model.len(),
            cap
        );
    }
    g.describe(format!("{:?}", trace));
    g.mix(format!("{:?}", trace).as_bytes());
    g.nontrivial = pushes > 0;
    g.label_if(refused > 0, "refused");
    match g.draw(2) {
        0 => {
            let got: Vec<T> = vec.into_iter().collect();
            check!(got == model, "into-iter", "{:?}: into_iter gives {:?} instead of {:?}", trace, got, model);
        }
        _ => {
            let got = vec.leak();
            check!(got == &model[..], "leak", "{:?}: leak gives {:?} instead of {:?}", trace, got, model);
        }
    }
    Ok(())
}

fn vec_case(g: &mut Ctx) -> R {
    match g.draw(4) {
        0 => vec_history(g, |g| g.draw(256) as u8),
        1 => vec_history(g, |g| g.int(64)),
        2 => vec_history(g, |g| (g.int(64), g.draw(256) as u8)),
        _ => vec_history(g, |g| gens::string(g, 8)),
    }
}

fn text(s: &svm_sdk_std::String) -> String {
    String::from_utf8_lossy(s.as_bytes()).into_owned()
}

fn number_case(g: &mut Ctx) -> R {
    // powers of ten, and of two, and their neighbours
    let x = match g.draw(3) {
        0 => 10u64.pow(g.draw(20) as u32).wrapping_add(g.draw(3)).wrapping_sub(1),
        1 => refabi::int(g, 64),
        _ => g.int(64),
    };
    g.mix(&x.to_be_bytes());
    g.describe(format!("{}", x));
    g.nontrivial = x > 9;
    macro_rules! same {
        ($($t:ty)*) => {$(
            for x in &[x as $t, (0 as $t).wrapping_sub(x as $t)] {
                let got = aborts(|| text(&Sdk::to_string(x)));
                let want = format!("{}", x);
                check!(got.as_ref() == Ok(&want), "number", "{} {} is {:?}", stringify!($t), want, got);
            }
        )*};
    }
    same!(u8 i8 u16 i16 u32 i32 u64 i64);
    let got = aborts(|| text(&Sdk::to_string(&Amount(x))));
    check!(got == Ok(format!("{} coins", x)), "amount", "Amount({}) is {:?}", x, got);
    let got = aborts(|| text(&Sdk::to_string(&LayerId(x))));
    check!(got == Ok(format!("[Layer {}]", x)), "layer", "LayerId({}) is {:?}", x, got);
    let d = (x % 10) as u8;
    check_eq!(text(&Sdk::to_string(&DecDigit(d))), format!("{}", d), "digit", "DecDigit");
    let d = (x % 16) as u8;
    check_eq!(text(&Sdk::to_string(&HexDigit(d))), format!("{:X}", d), "digit", "HexDigit");
    let a: [u8; 20] = gens::array(g);
    let got = aborts(|| text(&Sdk::to_string(&Address::from(a))));
    check!(got == Ok(format!("0x{}", refabi::upper(&a))), "address", "{} is {:?}", hex(&a), got);
    Ok(())
}

fn strings_case(g: &mut Ctx) -> R {
    // parts: short strings, bytes, and strings that were themselves built
    let n = g.below(12);
    let mut parts: Vec<(svm_sdk_std::String, Vec<u8>)> = vec![];
    for _ in 0..n {
        let ascii = |g: &mut Ctx, n: usize| -> Vec<u8> { (0..n).map(|_| g.draw(128) as u8).collect() };
        let part = match g.draw(3) {
            0 => {
                let n = g.below(9);
                let b = ascii(g, n);
                (aborts(|| svm_sdk_std::String::new_short(&b)), b)
            }
            1 => {
                let b = ascii(g, 1);
                (aborts(|| svm_sdk_std::String::from_byte(b[0])), b)
            }
            _ => {
                let n = *g.pick(&[7usize, 8, 9, 10, 40, 200, 254, 255]);
                let b = ascii(g, n);
                let s = aborts(|| {
                    let mut sb = StringBuilder::with_capacity(n);
                    for c in b.chunks(1 + n / 40) {
                        sb.push_str(&svm_sdk_std::String::new_short(c));
                    }
                    sb.build()
                });
                (s, b)
            }
        };
        match part {
            (Ok(s), b) => {
                check!(s.as_bytes() == &b[..], "string", "{} became {}", hex(&b), hex(s.as_bytes()));
                parts.push((s, b));
            }
            (Err(()), b) => return fail("string-abort", format!("a string of {} bytes ({}) aborts", b.len(), hex(&b))),
        }
    }
    let model: Vec<u8> = parts.iter().flat_map(|p| p.1.clone()).collect();
    g.mix(&model);
    let short = if model.is_empty() { 0 } else { g.below(3).min(model.len()) };
    let cap = if g.flip() { model.len() - short } else { model.len() + g.below(20) };
    g.describe(format!("{} parts, {} bytes into {}", parts.len(), model.len(), cap));
    g.nontrivial = parts.len() > 1;
    let built = aborts(|| {
        let mut sb = StringBuilder::with_capacity(cap);
        parts.iter().for_each(|p| sb.push_str(&p.0));
        sb.build().as_bytes().to_vec()
    });
    if cap >= model.len() {
        check!(built.as_ref() == Ok(&model), "builder", "{} became {:?}", hex(&model), built.map(|b| hex(&b)));
    } else {
        g.label("too-small");
        check!(built.is_err(), "builder-beyond", "{} bytes fit into {}", model.len(), cap);
    }
    // strings are ASCII
    let n = 1 + g.below(8);
    let mut b = vec![b'a'; n];
    b[g.below(n)] = 128 + g.draw(128) as u8;
    let r = aborts(|| svm_sdk_std::String::new_short(&b));
    check!(r.is_err(), "not-ascii", "{} is accepted as a string", hex(&b));
    Ok(())
}

fn options_case(g: &mut Ctx) -> R {
    use svm_sdk_std::{Option as O, Result as Res};
    let make = |g: &mut Ctx| if g.flip() { Some(g.int(64)) } else { None };
    let (a, b) = (make(g), make(g));
    let e = g.int(32);
    g.describe(format!("{:?} {:?}", a, b));
    g.nontrivial = true;
    let of = |x: Option<u64>| -> O<u64> { x.into() };
    check_eq!(Option::<u64>::from(of(a)), a, "option", "there and back");
    check_eq!(of(a) == of(b), a == b, "option", "equality of {:?} and {:?}", a, b);
    check_eq!(of(a).clone() == of(a), true, "option", "a clone of {:?}", a);
    check_eq!(aborts(|| of(a).unwrap()).ok(), a, "option", "unwrap");
    let r = of(a).ok_or(e);
    check_eq!((r.is_ok(), r.is_err()), (a.is_some(), a.is_none()), "result", "ok_or of {:?}", a);
    check_eq!(aborts(|| of(a).ok_or(e).unwrap()).ok(), a, "result", "unwrap");
    check_eq!(
        aborts(|| of(a).ok_or(e).unwrap_err()).ok(),
        if a.is_none() { Some(e) } else { None },
        "result",
        "unwrap_err"
    );
    // `?` stops at the first error
    fn chain(a: O<u64>, b: O<u64>) -> Res<u64, u8> {
        let x = a.ok_or(1)?;
        let y = b.ok_or(2)?;
        Res::Ok(x ^ y)
    }
    fn chain_macro(a: O<u64>, b: O<u64>) -> Res<u64, u8> {
        let x = svm_sdk_std::safe_try!(a.ok_or(1));
        let y = svm_sdk_std::safe_try!(b.ok_or(2));
        Res::Ok(x ^ y)
    }
    let want = match (a, b) {
        (None, _) => Err(1),
        (_, None) => Err(2),
        (Some(x), Some(y)) => Ok(x ^ y),
    };
    for r in vec![chain(of(a), of(b)), chain_macro(of(a), of(b))] {
        let got = match r {
            Res::Ok(x) => Ok(x),
            Res::Err(e) => Err(e),
        };
        check_eq!(got, want, "try", "{:?} and {:?}", a, b);
    }
    Ok(())
}

pub fn k01() -> Property {
    Property {
        id: "K01",
        level: "exploration",
        rule: "Histories of up to 60 operations on the fixed-capacity Vec (of bytes, words, pairs and strings) are compared with std's after every operation; numbers around the powers of ten and of two, amounts, layers, addresses and digits are formatted and compared with std's formatting; strings are built from parts with enough and with too little capacity; Option and Result are compared with std's. Non-trivial: at least one element pushed, two parts, two digits.",
        assumptions: &["compiled for the host, where an abort is a panic", "new_short is given at most 8 bytes, push_str less than 256, digits are in range (debug assertions of the SDK)"],
        suites: vec![
            Suite { name: "vec", quick: 180_000, thorough: 2_000_000, chunk: 2000, case: vec_case },
            Suite { name: "numbers", quick: 600_000, thorough: 6_000_000, chunk: 5000, case: number_case },
            Suite { name: "strings", quick: 180_000, thorough: 1_500_000, chunk: 2000, case: strings_case },
            Suite { name: "options", quick: 60_000, thorough: 200_000, chunk: 2000, case: options_case },
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// K02
// ---------------------------------------------------------------------------------------------

fn amount_case(g: &mut Ctx) -> R {
    let a = refabi::int(g, 64);
    let b = match g.draw(6) {
        0 => a,
        1 => a.wrapping_add(g.draw(5)).wrapping_sub(2),
        2 => (u64::MAX - a).wrapping_add(g.draw(5)).wrapping_sub(2),
        3 => (u64::MAX / a.max(1)).wrapping_add(g.draw(5)).wrapping_sub(2),
        4 => g.draw(8),
        _ => refabi::int(g, 64),
    };
    g.mix(&a.to_be_bytes());
    g.mix(&b.to_be_bytes());
    g.describe(format!("{} {}", a, b));
    g.nontrivial = a > 1 && b > 1;
    let (x, y) = (Amount(a), Amount(b));
    let exact = |r: Option<u128>| r.filter(|r| *r <= u64::MAX as u128).map(|r| r as u64);
    let sum = exact(Some(a as u128 + b as u128));
    let dif = exact((a as u128).checked_sub(b as u128));
    let prod = exact(Some(a as u128 * b as u128));
    g.label_if(sum.is_none(), "sum-overflows");
    g.label_if(dif.is_none(), "difference-negative");
    g.label_if(prod.is_none(), "product-overflows");
    macro_rules! op {
        ($name:literal, $want:expr, $op:tt, $assign:tt) => {
            let assign = |by: bool| {
                let mut z = x;
                if by { z $assign y } else { z $assign b };
                z
            };
            let got = vec![aborts(|| x $op y), aborts(|| x $op b), aborts(|| assign(true)), aborts(|| assign(false))];
            for (got, how) in got.into_iter().zip(&["amount", "number", "assigned amount", "assigned number"]) {
                let got = got.ok().map(|z| z.0);
                check!(got == $want, concat!("amount-", $name), "{} {} {} ({}) gives {:?} instead of {:?}", a, stringify!($op), b, how, got, $want);
            }
        };
    }
    op!("add", sum, +, +=);
    op!("sub", dif, -, -=);
    op!("mul", prod, *, *=);
    check!(
        (x < y, x <= y, x > y, x >= y, x == y, x != y) == (a < b, a <= b, a > b, a >= b, a == b, a != b),
        "amount-order",
        "{} and {} compare as {:?}",
        a,
        b,
        (x < y, x <= y, x > y, x >= y, x == y, x != y)
    );
    Ok(())
}

pub fn k02() -> Property {
    Property {
        id: "K02",
        level: "exploration",
        rule: "Pairs of amounts, biased to the limits of each operation (equal, complementary, dividing u64::MAX, off by up to two), through all twelve forms of +, - and * and the comparisons, against 128-bit arithmetic. Non-trivial: both above 1.",
        assumptions: &["compiled without overflow checks, as templates are; an abort is a panic on the host"],
        suites: vec![Suite { name: "amounts", quick: 1_200_000, thorough: 20_000_000, chunk: 10_000, case: amount_case }],
    }
}

// ---------------------------------------------------------------------------------------------
// K03
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Bool,
    W32,
    W64,
    Amount,
    Addr,
    Raw,
}

/// Accessors of single variables and of arrays, over the mock storage.
fn storage_case(g: &mut Ctx) -> R {
    type S = MockStorage;
    MockStorage::clear();
    // variables of one kind each: (first id, length), scattered
    let n = 1 + g.below(6);
    let mut vars = vec![];
    let mut next = g.int(28) as u32;
    for _ in 0..n {
        let kind = *g.pick(&[Kind::Bool, Kind::W32, Kind::W64, Kind::Amount, Kind::Addr, Kind::Raw]);
        let len = if g.flip() { 1 } else { 1 + g.below(10) as u32 };
        vars.push((kind, next, len));
        next += len + g.draw(3) as u32;
    }
    let mut model: HashMap<u32, V> = HashMap::new();
    let zero = |k: Kind| match k {
        Kind::Bool => V::Bool(false),
        Kind::W32 => V::U32(0),
        Kind::W64 => V::U64(0),
        Kind::Amount => V::Amount(0),
        _ => V::Addr([0; 20]),
    };
    let of = |a: &[u8]| {
        let mut b = [0; 20];
        b.copy_from_slice(a);
        V::Addr(b)
    };
    let read = |kind: Kind, id: u32, index: usize, len: u32, single: bool| -> V {
        match (kind, single) {
            (Kind::Bool, true) => V::Bool(ops::get_bool::<S>(id)),
            (Kind::W32, true) => V::U32(ops::get32::<S>(id)),
            (Kind::W64, true) => V::U64(ops::get64::<S>(id)),
            (Kind::Amount, true) => V::Amount(ops::get_amount::<S>(id).0),
            (Kind::Addr, true) => of(ops::get_addr::<S>(id).as_slice()),
            (Kind::Raw, true) => of(ops::load160::<S>(id)),
            (Kind::Bool, _) => V::Bool(ops::array_get_bool::<S>(id, index, len)),
            (Kind::W32, _) => V::U32(ops::array_get32::<S>(id, index, len)),
            (Kind::W64, _) => V::U64(ops::array_get64::<S>(id, index, len)),
            (Kind::Amount, _) => V::Amount(ops::array_get_amount::<S>(id, index, len).0),
            _ => of(ops::array_get_addr::<S>(id, index, len).as_slice()),
        }
    };
    let steps = 1 + g.below(40);
    let mut trace = vec![format!("{:?}", vars)];
    let mut writes = 0;
    for _ in 0..steps {
        let (kind, id, len) = *g.pick(&vars);
        let single = g.one_in(3);
        let index = match g.draw(8) {
            _ if single => 0,
            0 => len as usize + g.below(4),
            1 => {
                // beyond 32 bits
                let high = 1 + g.int(20) as usize;
                (high << 32) + g.below(len as usize)
            }
            _ => g.below(len as usize),
        };
        let inside = single || index < len as usize;
        let cell = id.wrapping_add(index as u32);
        if g.flip() {
            let v = match kind {
                Kind::Bool => V::Bool(g.flip()),
                Kind::W32 => V::U32(refabi::int(g, 32) as u32),
                Kind::W64 => V::U64(refabi::int(g, 64)),
                Kind::Amount => V::Amount(refabi::int(g, 64)),
                _ => V::Addr(gens::array(g)),
            };
            trace.push(format!("{}[{}/{}] = {:?}", id, index, len, v));
            let r = aborts(|| match (&v, single) {
                (V::Bool(x), true) => ops::set_bool::<S>(id, *x),
                (V::U32(x), true) => ops::set32::<S>(id, *x),
                (V::U64(x), true) => ops::set64::<S>(id, *x),
                (V::Amount(x), true) => ops::set_amount::<S>(id, Amount(*x)),
                (V::Addr(x), true) if kind == Kind::Raw => ops::store160::<S>(id, x),
                (V::Addr(x), true) => ops::set_addr::<S>(id, &Address::from(*x)),
                (V::Bool(x), _) => ops::array_set_bool::<S>(id, index, len, *x),
                (V::U32(x), _) => ops::array_set32::<S>(id, index, len, *x),
                (V::U64(x), _) => ops::array_set64::<S>(id, index, len, *x),
                (V::Amount(x), _) => ops::array_set_amount::<S>(id, index, len, Amount(*x)),
                (V::Addr(x), _) => ops::array_set_addr::<S>(id, index, len, &Address::from(*x)),
                _ => unreachable!(),
            });
            check!(r.is_ok() == inside, "write-bounds", "{:?}: {}", trace, if inside { "aborts" } else { "succeeds" });
            if inside {
                model.insert(cell, v);
                writes += 1;
            } else {
                g.label("write-outside");
            }
        } else {
            trace.push(format!("{}[{}/{}]", id, index, len));
            let got = aborts(|| read(kind, id, index, len, single));
            if inside {
                let want = model.get(&cell).cloned().unwrap_or(zero(kind));
                check!(got.as_ref() == Ok(&want), "read", "{:?} gives {:?} instead of {:?}", trace, got, want);
            } else {
                g.label("read-outside");
                check!(got.is_err(), "read-bounds", "{:?} gives {:?} instead of aborting", trace, got);
            }
        }
    }
    for (kind, id, len) in &vars {
        for i in 0..*len {
            let want = model.get(&(id + i)).cloned().unwrap_or(zero(*kind));
            let got = aborts(|| read(*kind, *id, i as usize, *len, false));
            check!(got.as_ref() == Ok(&want), "final", "{:?}: {}[{}] is {:?} instead of {:?}", trace, id, i, got, want);
        }
    }
    g.describe(format!("{:?}", trace));
    g.mix(format!("{:?}", trace).as_bytes());
    g.nontrivial = writes > 1;
    MockStorage::clear();
    Ok(())
}

/// The mock host: balances, and what a transaction sees.
fn host_case(g: &mut Ctx) -> R {
    MockHost::reset();
    let n = 2 + g.below(4);
    let mut keys: Vec<[u8; 20]> = vec![];
    for _ in 0..n {
        keys.push(gens::array(g));
    }
    // each use of an address is a new copy of it
    let fresh = |k: &[u8; 20]| Address::from(*k);
    let mut model: HashMap<[u8; 20], u64> = HashMap::new();
    for k in &keys {
        // (the balances outlive a reset)
        MockHost::set_balance(&fresh(k), Amount(0));
        model.insert(*k, 0);
    }
    let mut target = keys[0];
    MockHost::set_target(fresh(&target));
    let mut logs: Vec<(String, u8)> = vec![];
    let mut trace = vec![];
    let (mut moved, mut refused) = (0, 0);
    for _ in 0..1 + g.below(30) {
        let k = *g.pick(&keys);
        match g.weighted(&[3, 6, 2, 1, 1, 1]) {
            0 => {
                let x = refabi::int(g, 64);
                trace.push(format!("set_balance {} {}", hex(&k[..2]), x));
                MockHost::set_balance(&fresh(&k), Amount(x));
                model.insert(k, x);
            }
            1 => {
                let have = model[&target];
                let x = match g.draw(4) {
                    0 => have,
                    1 => have.wrapping_add(1),
                    2 => have / (1 + g.draw(5)),
                    _ => g.int(64),
                };
                trace.push(format!("transfer {} to {}", x, hex(&k[..2])));
                let r = if g.flip() {
                    aborts(|| MockHost::transfer(&fresh(&k), Amount(x)))
                } else {
                    aborts(|| Host::transfer(&mut MockHost, &fresh(&k), Amount(x)))
                };
                let fits = have >= x && (k == target || model[&k].checked_add(x).is_some());
                check!(r.is_ok() == fits, "transfer", "{:?} from {} of {}: ok = {}", trace, have, hex(&target[..2]), r.is_ok());
                if fits && k != target {
                    *model.get_mut(&target).unwrap() -= x;
                    *model.get_mut(&k).unwrap() += x;
                    moved += 1;
                }
                refused += !fits as i32;
                g.label_if(fits && k == target, "to-self");
            }
            2 => {
                trace.push(format!("target {}", hex(&k[..2])));
                target = k;
                MockHost::set_target(fresh(&k));
                let p = gens::array(g);
                MockHost::set_principal(fresh(&p));
                check!(Host::principal(&MockHost).as_slice() == &p[..], "principal", "{:?}", trace);
                check!(Host::target(&MockHost).as_slice() == &k[..] && MockHost::target().as_slice() == &k[..], "target", "{:?}", trace);
            }
            3 => {
                let code = g.draw(256) as u8;
                let msg = gens::string(g, 20);
                MockHost::log(&msg, code);
                logs.push((msg, code));
                check_eq!(MockHost::logs(), logs, "logs", "{:?}", trace);
            }
            4 => {
                let (v, l) = (g.int(64), g.int(64));
                MockHost::set_value(Amount(v));
                MockHost::set_layer_id(LayerId(l));
                check!(Host::value(&MockHost) == Amount(v) && MockHost::value() == Amount(v), "value", "{}", v);
                check!(Host::layer_id(&MockHost) == LayerId(l) && MockHost::layer_id() == LayerId(l), "layer", "{}", l);
            }
            _ => {
                let b = gens::blob(g, 60);
                MockHost::set_raw_calldata(&b);
                check!(Host::calldata(&MockHost) == &b[..], "calldata", "{}", hex(&b));
                let (x, y) = (refabi::int(g, 64), refabi::int(g, 32) as i32);
                MockHost::set_calldata((Amount(x), y));
                check!(Host::calldata(&MockHost) == &encode_all(&[V::Amount(x), V::I32(y)])[..], "calldata", "({}, {})", x, y);
                let b = gens::blob(g, 60);
                if g.flip() {
                    MockHost::set_returndata(&b);
                } else {
                    Host::set_returndata(&mut MockHost, &b);
                }
                check!(MockHost::returndata() == Some(b.clone()), "returndata", "{}", hex(&b));
            }
        }
        let distinct: HashSet<_> = keys.iter().collect();
        for k in distinct {
            let got = MockHost::balance_of(&fresh(k)).0;
            check!(got == model[k], "balance", "{:?}: {} has {} instead of {}", trace, hex(&k[..2]), got, model[k]);
        }
        let b = (MockHost::balance().0, Host::balance(&MockHost).0);
        check!(b == (model[&target], model[&target]), "balance", "{:?}: the target has {:?} instead of {}", trace, b, model[&target]);
    }
    g.describe(format!("{:?}", trace));
    g.mix(format!("{:?}", trace).as_bytes());
    g.nontrivial = moved > 0;
    g.label_if(refused > 0, "refused");
    MockHost::reset();
    check!(MockHost::logs().is_empty() && MockHost::returndata().is_none(), "reset", "logs or returndata outlive a reset");
    Ok(())
}

pub fn k03() -> Property {
    Property {
        id: "K03",
        level: "exploration",
        rule: "Histories of up to 40 reads and writes through all storage accessors (single and array; indices inside, beyond the length and beyond 32 bits) over the mock storage, against a map; histories of up to 30 operations of the mock host (balances, transfers to others and to oneself, with too little and overflowing, targets, logs, calldata, returndata), with a fresh copy of each address, against a model. Non-trivial: at least two writes; at least one transfer.",
        assumptions: &["each variable is used with one type, as the SDK's macros do", "one template runs at a time: the mocks are singletons"],
        suites: vec![
            Suite { name: "storage", quick: 180_000, thorough: 1_500_000, chunk: 2000, case: storage_case },
            Suite { name: "host", quick: 180_000, thorough: 1_500_000, chunk: 2000, case: host_case },
        ],
    }
}
